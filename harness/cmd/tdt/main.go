// Command tdt watches the tag data translation and the tag generator: T01-T08
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"strings"

	"github.com/iomz/gosstrak/scheme"
	"github.com/iomz/gosstrak/tdt"

	"verifharness/core"
	"verifharness/oracle"
)

// makeTag calls the generator of a scheme in tag mode
func makeTag(s *oracle.Scheme, fv, cp, ref, ser string) ([]byte, error) {
	id, _, _, err := makeAny(s, false, fv, cp, ref, ser)
	return id, err
}

func makeAny(s *oracle.Scheme, pf bool, fv, cp, ref, ser string) ([]byte, string, string, error) {
	switch s {
	case oracle.SGTIN:
		return scheme.MakeSGTIN96(pf, fv, cp, ref, ser)
	case oracle.SSCC:
		return scheme.MakeSSCC96(pf, fv, cp, ref)
	case oracle.GRAI:
		return scheme.MakeGRAI96(pf, fv, cp, ref, ser)
	}
	return scheme.MakeGIAI96(pf, fv, cp, ref)
}

func makeEPC(s *oracle.Scheme, pf bool, fv, cp, ref, ser string) (string, string) {
	switch s {
	case oracle.SGTIN:
		return scheme.MakeEPC(pf, s.Pat, fv, cp, ref, "", ser, "", "")
	case oracle.SSCC:
		return scheme.MakeEPC(pf, s.Pat, fv, cp, "", ref, "", "", "")
	case oracle.GRAI:
		return scheme.MakeEPC(pf, s.Pat, fv, cp, "", "", ser, "", ref)
	}
	return scheme.MakeEPC(pf, s.Pat, fv, cp, "", "", "", ref, "")
}

// padTo writes v with up to d digits, sometimes with leading zeros
func padTo(r oracle.Rand, v *big.Int, d int) string {
	s := v.String()
	if len(s) < d {
		switch r.Intn(3) {
		case 0:
			s = strings.Repeat("0", d-len(s)) + s
		case 1:
			s = strings.Repeat("0", r.Intn(d-len(s)+1)) + s
		}
	}
	return s
}

var core1 = tdt.NewCore()

func translate(t *core.T, pc, id []byte) (string, error) {
	p0, i0 := append([]byte{}, pc...), append([]byte{}, id...)
	got, err := core1.Translate(pc, id)
	if !bytes.Equal(p0, pc) || !bytes.Equal(i0, id) {
		t.Fail("decoding pc=%x id=%x changed its input to pc=%x id=%x", p0, i0, pc, id)
	}
	return got, err
}

func t01(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	for _, s := range oracle.Schemes {
		for l := 6; l <= 12; l++ {
			part := 12 - l
			for k := 0; k < 3; k++ {
				cp := r.Digits(l)
				ref := r.Below(s.RefDig[part], s.RefBits[part])
				ser := r.Serial()
				fv := r.Intn(8)
				rs := padTo(r, ref, s.RefDig[part])
				ss := padTo(r, ser, 12)
				want := oracle.EPCTag(s, fv, cp, ref, ser)
				in := fmt.Sprintf("%s filter %d, company prefix %s, reference %s, serial %s", s.Pat, fv, cp, rs, ss)
				t.Eval(1)
				id, err := makeTag(s, fmt.Sprint(fv), cp, rs, ss)
				if err != nil || !bytes.Equal(id, want.ID) {
					t.Fail("%s: encoded as %x (err %v), want %x", in, id, err, want.ID)
					return
				}
				bs, pc := makeEPC(s, false, fmt.Sprint(fv), cp, rs, ss)
				if bs != oracle.BitString(want.ID) || pc != "3000" {
					t.Fail("%s: MakeEPC gave %q %q, want %q \"3000\"", in, bs, pc, oracle.BitString(want.ID))
					return
				}
				wid := oracle.EPCIdentity(s, cp, ref, ser)
				for f := 0; f < 8; f++ { // the filter value does not show
					tag := oracle.EPCTag(s, f, cp, ref, ser)
					got, err := translate(t, tag.PC, tag.ID)
					t.Eval(1)
					if err != nil || got != wid {
						t.Fail("%s with filter %d: identity %q (err %v), want %q", in, f, got, err, wid)
						return
					}
				}
				t.Distinct(s.Name, cp, ref, ser, fv)
				t.State("scheme_partition", fmt.Sprint(s.Name, part))
				if cp[0] == '0' {
					t.Count("leading_zero_prefixes", 1)
				}
				if ref.Sign() == 0 {
					t.Count("zero_references", 1)
				}
				t.Sample("%s -> %x -> %s", in, id, wid)
			}
		}
	}
}

func t02(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	// text of every length, in four fields
	for n := 4; n <= 82; n++ {
		if !t.Thorough() && n > 40 && t.Rng.Intn(4) > 0 {
			continue
		}
		a := 1 + r.Intn(n-3)
		b := 1 + r.Intn(n-a-2)
		c := 1 + r.Intn(n-a-b-1)
		var text string
		if r.Intn(2) == 0 {
			text = r.Alnum(n)
		} else {
			text = r.SixText(n, true)
		}
		f := []string{text[:a], text[a : a+b], text[a+b : a+b+c], text[a+b+c:]}
		if !isoTag(t, "17365", f, text) {
			return
		}
		// under every family
		tag := oracle.ISOTag(0xA2, text)
		for afi, name := range oracle.AFIs {
			pc := []byte{tag.PC[0], afi}
			got, err := translate(t, pc, tag.ID)
			t.Eval(1)
			if want := "urn:epc:id:" + name + ":" + text; err != nil || got != want {
				t.Fail("text %q under AFI %X: identity %q (err %v), want %q", text, afi, got, err, want)
				return
			}
			t.State("families", afi)
		}
		t.State("text_length", n)
		t.State("alignment", n*6%16)
	}
	for k := 0; k < 20; k++ {
		oc, cat := r.Letters(3), []string{"U", "J", "Z"}[r.Intn(3)]
		csn := r.Digits(1 + r.Intn(6))
		p := strings.Repeat("0", 6-len(csn)) + csn
		text := "7B" + oc + cat + p
		text += fmt.Sprint(oracle.CheckDigit6346(oc + cat + p))
		if !isoTag(t, "17363", []string{oc, cat, csn}, text) {
			return
		}
	}
}

// isoTag encodes fields, and decodes the result again
func isoTag(t *core.T, std string, f []string, text string) bool {
	var id []byte
	var length int
	var err error
	afi := byte(0xA2)
	var bs, pch string
	if std == "17363" {
		afi = 0xA9
		id, length, _, _, err = scheme.MakeISO17363(false, f[0], f[1], f[2])
		bs, pch = scheme.MakeISO(false, std, f[0], f[1], f[2], "", "", "", "")
	} else {
		id, length, _, _, err = scheme.MakeISO17365(false, f[0], f[1], f[2], f[3])
		bs, pch = scheme.MakeISO(false, std, "", "", "", f[0], f[1], f[2], f[3])
	}
	t.Eval(1)
	want := oracle.ISOTag(afi, text)
	if err != nil || !bytes.Equal(id, want.ID) || length != len(want.ID)*8 {
		t.Fail("iso%s %q: encoded as %x, %d bits (err %v), want %x", std, f, id, length, err, want.ID)
		return false
	}
	if bs != oracle.BitString(want.ID) || pch != hex.EncodeToString(want.PC) {
		t.Fail("iso%s %q: MakeISO gave %s, pc %s, want %s, pc %x", std, f, bs, pch, oracle.BitString(want.ID), want.PC)
		return false
	}
	pc := scheme.MakeISOPC(length, fmt.Sprintf("%X", afi))
	if !bytes.Equal(pc, want.PC) {
		t.Fail("iso%s %q: protocol control %x, want %x (%d bits)", std, f, pc, want.PC, length)
		return false
	}
	got, err := translate(t, pc, id)
	if w := "urn:epc:id:iso" + std + ":" + text; err != nil || got != w {
		t.Fail("iso%s %q: decoded as %q (err %v), want %q", std, f, got, err, w)
		return false
	}
	t.Distinct(std, text)
	t.Sample("iso%s %q -> %x %x -> %s", std, f, pc, id, got)
	return true
}

var forms = map[string]*regexp.Regexp{
	"sgtin": regexp.MustCompile(`^urn:epc:id:sgtin:\d{6,12}\.\d{1,7}\.\d+$`),
	"sscc":  regexp.MustCompile(`^urn:epc:id:sscc:\d{6,12}\.\d{5,11}$`),
	"grai":  regexp.MustCompile(`^urn:epc:id:grai:\d{6,12}(\.\d{1,6})?\.\d+$`),
	"giai":  regexp.MustCompile(`^urn:epc:id:giai:\d{6,12}\.\d+$`),
}

func judgeDecode(t *core.T, pc, id []byte) bool {
	want, ok, open := oracle.Decode(pc, id)
	got, err := translate(t, pc, id)
	t.Eval(1)
	if open { // only that an identity, if any, has the form
		if err == nil && !forms["grai"].MatchString(got) {
			t.Fail("pc=%x id=%x: identity %q has not the form of a grai", pc, id, got)
			return false
		}
		return true
	}
	if !ok {
		t.Count("undecodable", 1)
		if err == nil || got != "" {
			t.Fail("pc=%x id=%x cannot be decoded, but gives %q (err %v)", pc, id, got, err)
			return false
		}
		return true
	}
	t.Count("decodable", 1)
	if err != nil || got != want {
		t.Fail("pc=%x id=%x: identity %q (err %v), want %q", pc, id, got, err, want)
		return false
	}
	return !t.Failed()
}

func t03(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	w := oracle.NewWorld(t.Rng, 4)
	w.Types = oracle.AllTypes
	pcs := [][]byte{nil, {}, {0x30}, {0x31}, {0x30, 0, 0}, {0x30, 0}, {0x31, 0xA2}, {0, 0}, {1, 0xA9}}
	for k := 0; k < 400; k++ {
		tag := w.Tag()
		pc, id := append([]byte{}, tag.PC...), append([]byte{}, tag.ID...)
		kind := r.Intn(12)
		switch kind {
		case 0:
			pc = append([]byte{}, pcs[r.Intn(len(pcs))]...)
		case 1: // any two bytes
			pc = []byte{byte(r.Intn(256)), byte(r.Intn(256))}
		case 2: // cut
			id = id[:r.Intn(len(id)+1)]
		case 3: // extended
			for i := 1 + r.Intn(9); i > 0; i-- {
				id = append(id, byte(r.Intn(256)))
			}
		case 4: // another header
			if len(id) > 0 {
				id[0] = byte(r.Intn(256))
			}
		case 5: // another partition, so that values overflow their digits
			if len(id) > 1 {
				id[1] = id[1]&^28 | byte(r.Intn(8))<<2
			}
		case 6: // some bits flipped
			for i := 1 + r.Intn(6); i > 0; i-- {
				p := r.Intn(len(id) * 8)
				id[p/8] ^= 1 << uint(p%8)
			}
		case 7: // random content under a known header
			id = make([]byte, 12)
			r.Read(id)
			id[0] = oracle.Schemes[r.Intn(4)].Header
			pc = []byte{byte(r.Intn(256)) &^ 1, byte(r.Intn(256))}
		case 8: // a value just around its limit of digits
			s := oracle.Schemes[r.Intn(4)]
			part := r.Intn(7)
			lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(12-part)), nil)
			cpv := new(big.Int).Add(lim, big.NewInt(int64(r.Intn(3)-1)))
			rlim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(s.RefDig[part])), nil)
			rv := new(big.Int).Add(rlim, big.NewInt(int64(r.Intn(3)-1)))
			if r.Intn(2) == 0 || cpv.BitLen() > oracle.CPBits[part] {
				cpv = new(big.Int).Sub(lim, big.NewInt(1))
			} else if r.Intn(2) == 0 {
				rv = big.NewInt(0)
			}
			if rv.BitLen() > s.RefBits[part] {
				rv = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(s.RefBits[part])), big.NewInt(1))
			}
			b := oracle.Bin(big.NewInt(int64(s.Header)), 8) + oracle.Bin(big.NewInt(int64(r.Intn(8))), 3) + oracle.Bin(big.NewInt(int64(part)), 3) +
				oracle.Bin(cpv, oracle.CPBits[part]) + oracle.Bin(rv, s.RefBits[part])
			for len(b) < 96 {
				b += fmt.Sprint(r.Intn(2))
			}
			id, pc = oracle.Bytes(b), []byte{0x30, 0}
		case 9: // any bytes under any family
			id = make([]byte, r.Intn(64))
			r.Read(id)
			pc = []byte{byte(r.Intn(256)) | 1, byte(0x9E + r.Intn(16))}
		case 10: // nothing but padding
			bits := oracle.Pad16(strings.Repeat("100000", r.Intn(9)))
			if r.Intn(3) == 0 {
				bits = strings.Repeat("0", 8*r.Intn(9))
			}
			id, pc = oracle.Bytes(bits), []byte{byte(r.Intn(256)) | 1, byte(0xA1 + r.Intn(10))}
		}
		if len(id) == 0 && r.Intn(2) == 0 {
			id = nil
		}
		t.State("hostile_kind", kind)
		t.Distinct(pc, id)
		if !judgeDecode(t, pc, id) {
			return
		}
	}
	// every header and every partition
	if t.Index%50 == 0 {
		id := make([]byte, 12)
		for h := 0; h < 256; h++ {
			for p := 0; p < 8; p++ {
				r.Read(id)
				id[0] = byte(h)
				id[1] = id[1]&^28 | byte(p)<<2
				if !judgeDecode(t, []byte{0x30, 0}, id) {
					return
				}
				if !judgeDecode(t, []byte{0x31, byte(h)}, id) {
					return
				}
			}
		}
	}
	t.Sample("400 tag reads around %v", w.Tag())
}

// allFields draws a full field list of a pattern type
func allFields(w *oracle.World, typ string) oracle.Pat {
	return w.PatternOf(typ, oracle.Depth(typ))
}

func t04(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	w := oracle.NewWorld(t.Rng, 5)
	for _, typ := range oracle.AllTypes {
		for k := 0; k < 8; k++ {
			p := allFields(w, typ)
			if s := oracle.SchemeOf(typ); s != nil && r.Intn(2) == 0 { // boundary values rather than the world's
				cp := r.Digits(6 + r.Intn(7))
				part := 12 - len(cp)
				p.Fields[0] = fmt.Sprint(r.Intn(8))
				p.Fields[1] = cp
				p.Fields[2] = padTo(r, r.Below(s.RefDig[part], s.RefBits[part]), s.RefDig[part])
				if s.Serial {
					p.Fields[3] = padTo(r, r.Serial(), 12)
				}
			}
			prev := ""
			for d := 1; d <= len(p.Fields); d++ {
				q := oracle.Pat{Type: typ, Fields: p.Fields[:d]}
				t.Note("pattern %s", q.URN())
				got, err := tdt.MakePrefixFilterString(typ, append([]string{}, q.Fields...))
				t.Eval(1)
				if err != nil || got == "" || strings.Trim(got, "01") != "" {
					t.Fail("%s: prefix %q, err %v", q.URN(), got, err)
					return
				}
				if !strings.HasPrefix(got, prev) || len(got) <= len(prev) {
					t.Fail("%s: prefix %s does not extend %s", q.URN(), got, prev)
					return
				}
				prev = got
				// tags that have these fields
				for i := 0; i < 4; i++ {
					tag := w.TagFor(q)
					if !oracle.MatchBits(q.Bits(), tag.ID) {
						continue // not a tag with these fields
					}
					t.Count("tags_with_the_fields", 1)
					if !oracle.MatchBits(got, tag.ID) {
						t.Fail("%s: prefix %s does not lead the tag %v, which has these fields", q.URN(), got, tag)
						return
					}
				}
				// tags with another value in one of the fields
				for i := 0; i < 4; i++ {
					tag, ok := otherTag(w, q, r.Intn(d))
					if !ok || oracle.MatchBits(q.Bits(), tag.ID) {
						continue
					}
					t.Count("tags_with_another_field", 1)
					if oracle.MatchBits(got, tag.ID) {
						t.Fail("%s: prefix %s leads the tag %v, which differs in a given field", q.URN(), got, tag)
						return
					}
				}
				if !generated(t, q, got) {
					return
				}
				// leading zeros of numeric fields do not matter
				if oracle.SchemeOf(typ) != nil && d > 2 {
					f := append([]string{}, q.Fields...)
					for x := 2; x < d; x++ {
						f[x] = strings.TrimLeft(f[x], "0")
						if f[x] == "" {
							f[x] = "0"
						}
					}
					if g2, err := tdt.MakePrefixFilterString(typ, f); err != nil || g2 != got {
						t.Fail("%s: prefix %s, but %s (err %v) without leading zeros", q.URN(), got, g2, err)
						return
					}
				}
				t.Distinct(q.URN())
				t.State("type_depth", fmt.Sprint(typ, d))
				t.Sample("%s -> %s", q.URN(), got)
			}
		}
	}
}

// otherTag makes a tag like the pattern, but with another value in field k
func otherTag(w *oracle.World, q oracle.Pat, k int) (oracle.Tag, bool) {
	r := w.R
	p := oracle.Pat{Type: q.Type, Fields: append([]string{}, q.Fields...)}
	s := oracle.SchemeOf(q.Type)
	if s == nil {
		f := []byte(p.Fields[k])
		i := r.Intn(len(f))
		const c = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
		old := f[i]
		f[i] = c[r.Intn(len(c))]
		if q.Type == "iso17363" && k == 3 {
			f[i] = c[26+r.Intn(10)]
		}
		if q.Type == "iso17363" && k == 1 {
			f[i] = c[r.Intn(26)]
		}
		if f[i] == old {
			return oracle.Tag{}, false
		}
		p.Fields[k] = string(f)
		return w.TagFor(p), true
	}
	num := func(v string, bits, digits int) string {
		x, _ := new(big.Int).SetString(v, 10)
		y := new(big.Int).Xor(x, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(bits))))
		if r.Intn(2) == 0 {
			y = r.Below(digits, bits)
		}
		if len(y.String()) > digits {
			return v
		}
		return y.String()
	}
	switch k {
	case 0:
		p.Fields[0] = fmt.Sprint(r.Intn(8))
	case 1:
		cp := p.Fields[1]
		if r.Intn(2) == 0 && len(p.Fields) == 2 { // the same number with other digits
			if len(cp) < 12 {
				p.Fields[1] = "0" + cp
			} else {
				p.Fields[1] = cp[1:]
			}
			break
		}
		n := num(cp, oracle.CPBits[12-len(cp)], len(cp))
		if len(n) < len(cp) {
			n = strings.Repeat("0", len(cp)-len(n)) + n
		}
		p.Fields[1] = n
	case 2:
		part := 12 - len(p.Fields[1])
		if s.RefDig[part] == 0 {
			return oracle.Tag{}, false
		}
		p.Fields[2] = num(p.Fields[2], s.RefBits[part], s.RefDig[part])
	case 3:
		p.Fields[3] = num(p.Fields[3], 38, 12)
	}
	return w.TagFor(p), true
}

// generated compares with the prefix and pattern text of the tag generator
func generated(t *core.T, q oracle.Pat, want string) bool {
	f := append([]string{}, q.Fields...)
	for len(f) < 4 {
		f = append(f, "")
	}
	var bits, text, b2, t2 string
	var err error
	s := oracle.SchemeOf(q.Type)
	switch q.Type {
	case "iso17363":
		if f[0] != "7B" {
			return true
		}
		_, _, bits, text, err = scheme.MakeISO17363(true, f[1], f[2], f[3])
		b2, t2 = bits, text
		if len(q.Fields) > 0 {
			b2, t2 = scheme.MakeISO(true, "17363", f[1], f[2], f[3], "", "", "", "")
		}
	case "iso17365":
		_, _, bits, text, err = scheme.MakeISO17365(true, f[0], f[1], f[2], f[3])
		b2, t2 = scheme.MakeISO(true, "17365", "", "", "", f[0], f[1], f[2], f[3])
	default:
		_, bits, text, err = makeAny(s, true, f[0], f[1], f[2], f[3])
		b2, t2 = makeEPC(s, true, f[0], f[1], f[2], f[3])
	}
	t.Eval(1)
	if err != nil || bits != want || b2 != want {
		t.Fail("%s: the generator's prefix is %q / %q (err %v), the pattern's %q", q.URN(), bits, b2, err, want)
		return false
	}
	// the text is a pattern with the same prefix
	for _, x := range []string{text, t2} {
		part := strings.SplitN(x, ":", 5)
		if len(part) != 5 || strings.Join(part[:3], ":") != "urn:epc:pat" || part[3] != q.Type {
			t.Fail("%s: the generator's pattern text is %q", q.URN(), x)
			return false
		}
		got, err := tdt.MakePrefixFilterString(part[3], strings.Split(part[4], "."))
		if err != nil || got != want || len(strings.Split(part[4], ".")) != len(q.Fields) {
			t.Fail("%s: the generator's pattern text %q means %q (err %v), want %q", q.URN(), x, got, err, want)
			return false
		}
	}
	return true
}

func t05(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	for _, s := range oracle.Schemes {
		for l := 6; l <= 12; l++ {
			part := 12 - l
			cp := r.Digits(l)
			var fv, ref, ser string
			// each field given or not
			m := r.Intn(8)
			if m&1 != 0 {
				fv = fmt.Sprint(r.Intn(8))
			}
			if m&2 != 0 {
				ref = r.Below(s.RefDig[part], s.RefBits[part]).String()
			}
			if m&4 != 0 {
				ser = r.Serial().String()
			}
			in := fmt.Sprintf("%s filter %q, company prefix %q, reference %q, serial %q", s.Pat, fv, cp, ref, ser)
			var id []byte
			var err error
			if r.Intn(2) == 0 {
				id, err = makeTag(s, fv, cp, ref, ser)
			} else {
				var bs, pc string
				bs, pc = makeEPC(s, false, fv, cp, ref, ser)
				if len(bs) != 96 || pc != "3000" || strings.Trim(bs, "01") != "" {
					t.Fail("%s: MakeEPC gave %q %q", in, bs, pc)
					return
				}
				id = oracle.Bytes(bs)
			}
			t.Eval(1)
			if err != nil || len(id) != 12 {
				t.Fail("%s: %x, err %v", in, id, err)
				return
			}
			want, ok, open := oracle.Decode([]byte{0x30, 0}, id)
			if !ok || open || id[0] != s.Header {
				t.Fail("%s: the generated tag %x is not well formed", in, id)
				return
			}
			bits := oracle.BitString(id)
			num := func(from, n int) *big.Int {
				v, _ := new(big.Int).SetString(bits[from:from+n], 2)
				return v
			}
			dec := func(x string) *big.Int { v, _ := new(big.Int).SetString(x, 10); return v }
			refAt := 14 + oracle.CPBits[part]
			switch {
			case fv != "" && num(8, 3).Cmp(dec(fv)) != 0,
				num(11, 3).Int64() != int64(part),
				num(14, oracle.CPBits[part]).Cmp(dec(cp)) != 0,
				ref != "" && num(refAt, s.RefBits[part]).Cmp(dec(ref)) != 0,
				s.Serial && ser != "" && num(58, 38).Cmp(dec(ser)) != 0,
				s.Rsvd > 0 && num(96-s.Rsvd, s.Rsvd).Sign() != 0:
				t.Fail("%s: the generated tag %x does not keep the given fields", in, id)
				return
			}
			got, err := translate(t, []byte{0x30, 0}, id)
			if err != nil || got != want {
				t.Fail("%s: the generated tag %x decodes as %q (err %v), want %q", in, id, got, err, want)
				return
			}
			t.Distinct(s.Name, m, hex.EncodeToString(id))
			t.State("scheme_partition_given", fmt.Sprint(s.Name, part, m))
			if m != 7 {
				t.Count("generated_with_missing_fields", 1)
			}
			t.Sample("%s -> %x -> %s", in, id, got)
		}
		// a missing filter value in prefix mode
		_, bits, text, err := makeAny(s, true, "", "", "", "")
		if err != nil || len(bits) != 11 || bits[:8] != oracle.Bin(big.NewInt(int64(s.Header)), 8) || strings.Trim(bits, "01") != "" {
			t.Fail("%s: prefix without fields %q (%q, err %v)", s.Pat, bits, text, err)
			return
		}
	}
	for k := 0; k < 6; k++ {
		oc, ei, csn := "", "", ""
		m := r.Intn(8)
		if m&1 != 0 {
			oc = r.Letters(3)
		}
		if m&2 != 0 {
			ei = []string{"U", "J", "Z"}[r.Intn(3)]
		}
		if m&4 != 0 {
			csn = r.Digits(1 + r.Intn(6))
		}
		bs, pch := scheme.MakeISO(false, "17363", oc, ei, csn, "", "", "", "")
		if !isoGenerated(t, bs, pch, "iso17363", func(x string) bool {
			if len(x) != 13 || x[:2] != "7B" || oc != "" && x[2:5] != oc || ei != "" && x[5:6] != ei {
				return false
			}
			for _, c := range x[2:5] {
				if c < 'A' || c > 'Z' {
					return false
				}
			}
			for _, c := range x[6:] {
				if c < '0' || c > '9' {
					return false
				}
			}
			if csn != "" && x[6:12] != strings.Repeat("0", 6-len(csn))+csn {
				return false
			}
			return strings.ContainsAny(x[5:6], "UJZ") && x[12:] == fmt.Sprint(oracle.CheckDigit6346(x[2:12]))
		}, fmt.Sprintf("iso17363 %q %q %q", oc, ei, csn)) {
			return
		}
		di, iac, cin, sn := "25S", r.Letters(2), r.Alnum(1+r.Intn(9)), ""
		if r.Intn(2) == 0 {
			sn = r.Alnum(1 + r.Intn(20))
		}
		bs, pch = scheme.MakeISO(false, "17365", "", "", "", di, iac, cin, sn)
		if !isoGenerated(t, bs, pch, "iso17365", func(x string) bool {
			h := di + iac + cin
			if !strings.HasPrefix(x, h) {
				return false
			}
			x = x[len(h):]
			return sn != "" && x == sn || sn == "" && x != "" && strings.Trim(x, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") == ""
		}, fmt.Sprintf("iso17365 %q %q %q %q", di, iac, cin, sn)) {
			return
		}
	}
}

func isoGenerated(t *core.T, bs, pch, name string, ok func(string) bool, in string) bool {
	t.Eval(1)
	pc, err := hex.DecodeString(pch)
	if err != nil || len(pc) != 2 || len(bs) == 0 || len(bs)%16 != 0 || strings.Trim(bs, "01") != "" {
		t.Fail("%s: MakeISO gave %q %q", in, bs, pch)
		return false
	}
	id := oracle.Bytes(bs)
	want, dec, _ := oracle.Decode(pc, id)
	if !dec || !strings.HasPrefix(want, "urn:epc:id:"+name+":") || int(pc[0]>>3) != len(id)/2 {
		t.Fail("%s: the generated tag pc=%x id=%x is not well formed (%q)", in, pc, id, want)
		return false
	}
	if !ok(strings.TrimPrefix(want, "urn:epc:id:"+name+":")) {
		t.Fail("%s: the generated tag has the identity %q", in, want)
		return false
	}
	got, err := translate(t, pc, id)
	if err != nil || got != want {
		t.Fail("%s: the generated tag decodes as %q (err %v), want %q", in, got, err, want)
		return false
	}
	t.Distinct(got)
	t.Count("generated_iso", 1)
	return true
}

func t06(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	const c = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	one := func(oc, cat, csn string) bool {
		cn := oc + cat + csn
		want := oracle.CheckDigit6346(cn)
		t.Eval(1)
		t.Distinct(cn)
		t.State("check_digit", want)
		if cd, err := scheme.GetISO6346CD(cn); err != nil || cd != want {
			t.Fail("container number %s: check digit %d (err %v), want %d", cn, cd, err, want)
			return false
		}
		bits := oracle.Six("7B" + cn + fmt.Sprint(want))
		got, err := tdt.MakePrefixFilterString("iso17363", []string{"7B", oc, cat, csn})
		if err != nil || got != bits {
			t.Fail("container pattern %s.%s.%s: prefix %s (err %v), want %s with check digit %d", oc, cat, csn, got, err, bits, want)
			return false
		}
		id, _, _, _, err := scheme.MakeISO17363(false, oc, cat, csn)
		if wid := oracle.Bytes(oracle.Pad16(bits)); err != nil || !bytes.Equal(id, wid) {
			t.Fail("container tag %s %s %s: %x (err %v), want %x with check digit %d", oc, cat, csn, id, err, wid, want)
			return false
		}
		_, _, pb, _, err := scheme.MakeISO17363(true, oc, cat, csn)
		if err != nil || pb != bits {
			t.Fail("container prefix %s %s %s: %s (err %v), want %s", oc, cat, csn, pb, err, bits)
			return false
		}
		return true
	}
	for k := 0; k < 60; k++ {
		if !one(r.Letters(3), []string{"U", "J", "Z"}[r.Intn(3)], r.Digits(6)) {
			return
		}
	}
	if t.Index%20 == 0 { // every letter and digit in every place
		base := []byte(r.Letters(4) + r.Digits(6))
		for p := 0; p < 10; p++ {
			set := c[10:]
			if p > 3 {
				set = c[:10]
			}
			for i := range set {
				x := append([]byte{}, base...)
				x[p] = set[i]
				if !one(string(x[:3]), string(x[3:4]), string(x[4:])) {
					return
				}
			}
		}
	}
	for k := 0; k < 20; k++ { // any letters and digits, in any place
		cn := r.Alnum(10)
		want := oracle.CheckDigit6346(cn)
		if k%2 == 1 { // the generator's function takes letters in either case
			b := []byte(cn)
			for i := range b {
				if 'A' <= b[i] && b[i] <= 'Z' && r.Intn(3) > 0 {
					b[i] += 'a' - 'A'
				}
			}
			cn = string(b)
		}
		if cd, err := scheme.GetISO6346CD(cn); err != nil || cd != want {
			t.Fail("container number %s: check digit %d (err %v), want %d", cn, cd, err, want)
			return
		}
	}
	// refused
	for k := 0; k < 60; k++ {
		cn := []byte(r.Letters(3) + "U" + r.Digits(6))
		kind := r.Intn(5)
		switch kind {
		case 0:
			cn = cn[:r.Intn(10)]
		case 1:
			cn = append(cn, []byte(r.Digits(1+r.Intn(5)))...)
		case 2, 3:
			bad := []byte(" !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~\x00\x7f\x80\xff\n")
			for i := 1 + r.Intn(2); i > 0; i-- {
				cn[r.Intn(10)] = bad[r.Intn(len(bad))]
			}
		case 4: // ten bytes, but not ten characters
			copy(cn[r.Intn(9):], []string{"é", "ß", "Ä", "×"}[r.Intn(4)])
		}
		t.Eval(1)
		if cd, err := scheme.GetISO6346CD(string(cn)); err == nil {
			t.Fail("container number %q was given the check digit %d", cn, cd)
			return
		}
		t.Count("refused", 1)
		t.State("refused_kind", kind)
		if len(cn) >= 10 && kind != 1 && kind != 0 {
			oc, ei, csn := string(cn[:3]), string(cn[3:4]), string(cn[4:])
			if id, _, _, _, err := scheme.MakeISO17363(false, oc, ei, csn); err == nil {
				t.Fail("container %q %q %q was encoded as %x", oc, ei, csn, id)
				return
			}
			if b, err := tdt.MakePrefixFilterString("iso17363", []string{"7B", oc, ei, csn}); err == nil {
				t.Fail("container pattern %q %q %q was encoded as %s", oc, ei, csn, b)
				return
			}
		}
		if kind == 1 {
			if b, err := tdt.MakePrefixFilterString("iso17363", []string{"7B", string(cn[:3]), string(cn[3:4]), string(cn[4:])}); err == nil {
				t.Fail("container pattern %q was encoded as %s", cn, b)
				return
			}
		}
	}
	t.Sample("container numbers such as %s%s", r.Letters(3), "U"+r.Digits(6))
}

// record parses what PrintID printed
func record(s string) (pc, id []byte, err error) {
	f := strings.Split(s, ",")
	if len(f) != 2 {
		return nil, nil, fmt.Errorf("%d columns", len(f))
	}
	if pc, err = hex.DecodeString(f[0]); err != nil {
		return
	}
	if len(f[1])%8 != 0 || strings.Trim(f[1], "01") != "" {
		return nil, nil, fmt.Errorf("identifier %q is not a number of bytes in binary", f[1])
	}
	return pc, oracle.Bytes(f[1]), nil
}

func decimals(b []byte) string {
	var s []string
	for _, x := range b {
		s = append(s, fmt.Sprint(x))
	}
	return strings.Join(s, ", ")
}

func t07(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	judge := func(in, bs, opt string, want oracle.Tag) bool {
		t.Eval(1)
		line := scheme.PrintID(bs, opt)
		pc, id, err := record(line)
		if err != nil || !bytes.Equal(pc, want.PC) || !bytes.Equal(id, want.ID) {
			t.Fail("%s: printed as %q (%v), want pc %x id %x", in, line, err, want.PC, want.ID)
			return false
		}
		if n := int(pc[0] >> 3); n*16 != len(id)*8 {
			t.Fail("%s: protocol control %x counts %d words, the identifier has %d bytes", in, pc, n, len(id))
			return false
		}
		if got, w := scheme.PrintGoBytes(bs, opt), fmt.Sprintf("[]byte{%s},[]byte{%s}", decimals(want.PC), decimals(want.ID)); got != w {
			t.Fail("%s: as Go bytes %q, want %q", in, got, w)
			return false
		}
		wid, ok, _ := oracle.Decode(want.PC, want.ID)
		if got, err := translate(t, pc, id); ok && (err != nil || got != wid) {
			t.Fail("%s: the printed record %q reads as %q (err %v), want %q", in, line, got, err, wid)
			return false
		}
		t.Distinct(line)
		t.Sample("%s -> %s", in, line)
		return !t.Failed()
	}
	for _, s := range oracle.Schemes {
		cp := r.Digits(6 + r.Intn(7))
		part := 12 - len(cp)
		ref, ser, fv := r.Below(s.RefDig[part], s.RefBits[part]), r.Serial(), r.Intn(8)
		rs, ss := padTo(r, ref, s.RefDig[part]), padTo(r, ser, 12)
		bs, opt := makeEPC(s, false, fmt.Sprint(fv), cp, rs, ss)
		if !judge(fmt.Sprintf("%s %d.%s.%s.%s", s.Pat, fv, cp, rs, ss), bs, opt, oracle.EPCTag(s, fv, cp, ref, ser)) {
			return
		}
		t.Count("epc_records", 1)
		if !t07refused(t, r, s, fmt.Sprint(fv), cp, rs, ss) {
			return
		}
	}
	if !t07text(t, r) {
		return
	}
	oc, cat, csn := r.Letters(3), []string{"U", "J", "Z"}[r.Intn(3)], r.Digits(6)
	bs, opt := scheme.MakeISO(false, "17363", oc, cat, csn, "", "", "", "")
	cn := oc + cat + csn
	if !judge("container "+cn, bs, opt, oracle.ISOTag(0xA9, "7B"+cn+fmt.Sprint(oracle.CheckDigit6346(cn)))) {
		return
	}
	f := []string{r.Alnum(1 + r.Intn(3)), r.Alnum(1 + r.Intn(3)), r.SixText(1+r.Intn(12), true), r.SixText(1+r.Intn(40), true)}
	bs, opt = scheme.MakeISO(false, "17365", "", "", "", f[0], f[1], f[2], f[3])
	if !judge(fmt.Sprintf("transport unit %q", f), bs, opt, oracle.ISOTag(0xA2, strings.Join(f, ""))) {
		return
	}
	t.Count("iso_records", 2)
	text := r.SixText(r.Intn(90), true)
	t.Eval(1)
	if got := string(scheme.Sixenc2bin([]rune(text))); got != oracle.Six(text) {
		t.Fail("text %q: 6-bit %s, want %s", text, got, oracle.Six(text))
		return
	}
	t.State("text_length", len(text))
	if bin := os.Getenv("VERIF_SIX"); bin != "" && t.Index%8 == 0 { // the program that does this
		out, err := exec.Command(bin, text).Output()
		if err != nil || string(out) != oracle.Six(text) {
			t.Fail("text %q: the program printed %q (%v), want %s", text, out, err, oracle.Six(text))
			return
		}
		t.Count("program_runs", 1)
	}
}

// nan gives text that is no number
func nan(r oracle.Rand) string {
	n := r.Digits(1 + r.Intn(5))
	return []string{n + "x", "-" + n, "+" + n, " " + n, n + " ", n + ".0", "0x" + n, n + "e1", "1_" + n, "x", "-", " ", "é", "\u0661", n + "\n", n[:1] + "A" + n}[r.Intn(16)]
}

// t07refused asks for tags with one field that no tag of the scheme can have: nothing is printed, and the maker gives an error
func t07refused(t *core.T, r oracle.Rand, s *oracle.Scheme, fv, cp, ref, ser string) bool {
	part := 12 - len(cp)
	f := [4]string{fv, cp, ref, ser}
	kind := r.Intn(9)
	what, noPrefix := "", false
	above := func(digits, bits int) string { // the first number beyond the range, or one above it
		n := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil)
		if m := new(big.Int).Lsh(big.NewInt(1), uint(bits)); m.Cmp(n) < 0 {
			n = m
		}
		switch r.Intn(4) {
		case 0, 1:
		case 2:
			n.Add(n, r.Below(digits, bits))
		case 3:
			n.Mul(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(30))), nil)) // beyond any machine word, at times
		}
		if r.Intn(3) == 0 {
			return "0" + n.String()
		}
		return n.String()
	}
	switch kind {
	case 0:
		what, f[1] = "company prefix", []string{r.Digits(1 + r.Intn(5)), r.Digits(13 + r.Intn(30)), "12345x7", "-123456", "123 4567", "12345\u0661"}[r.Intn(6)]
	case 1:
		what, f[1], noPrefix = "company prefix", "", true
	case 2:
		what, f[0] = "filter", []string{"8", "9", "10", "15", "16", "255", "2147483648", "4294967297", "18446744073709551616"}[r.Intn(9)]
	case 3:
		what, f[0] = "filter", nan(r)
	case 4, 5:
		what, f[2] = "reference", above(s.RefDig[part], s.RefBits[part])
	case 6:
		what, f[2] = "reference", nan(r)
	case 7, 8:
		if !s.Serial {
			what, f[2] = "reference", above(s.RefDig[part], s.RefBits[part])
		} else if kind == 7 {
			what, f[3] = "serial", above(12, 38)
		} else {
			what, f[3] = "serial", nan(r)
		}
	}
	in := fmt.Sprintf("%s %q with a %s that no tag has", s.Pat, f, what)
	for _, pf := range []bool{false, true} {
		if pf && noPrefix {
			continue
		}
		t.Eval(1)
		bs, opt := makeEPC(s, pf, f[0], f[1], f[2], f[3])
		if a, b := scheme.PrintID(bs, opt), scheme.PrintGoBytes(bs, opt); a != "" || b != "" {
			t.Fail("%s (prefix %v): printed as %q and %q", in, pf, a, b)
			return false
		}
		if id, bits, text, err := makeAny(s, pf, f[0], f[1], f[2], f[3]); err == nil || len(id) > 0 || bits != "" || text != "" {
			t.Fail("%s (prefix %v): the maker gives %x %q %q, err %v", in, pf, id, bits, text, err)
			return false
		}
	}
	t.Count("not_printed", 1)
	t.State("refused_field", fmt.Sprint(s.Pat, what, kind))
	return true
}

// t07text asks for containers and transport units with a field that no tag can have
func t07text(t *core.T, r oracle.Rand) bool {
	outside := func(x string) string { // one character without 6-bit code
		bad := []string{" ", "a", "z", "`", "{", "~", "\x7f", "\x00", "\n", "\x1f", "é", "Ā", "\u0141", "世"}
		k := r.Intn(len(x) + 1)
		return x[:k] + bad[r.Intn(len(bad))] + x[k:]
	}
	refuse := func(in string, std string, pf bool, f [7]string) bool {
		t.Eval(1)
		bs, opt := scheme.MakeISO(pf, std, f[0], f[1], f[2], f[3], f[4], f[5], f[6])
		if a, b := scheme.PrintID(bs, opt), scheme.PrintGoBytes(bs, opt); a != "" || b != "" {
			t.Fail("%s %q (prefix %v): printed as %q and %q", in, f, pf, a, b)
			return false
		}
		var id []byte
		var bits, text string
		var err error
		if std == "17363" {
			id, _, bits, text, err = scheme.MakeISO17363(pf, f[0], f[1], f[2])
		} else {
			id, _, bits, text, err = scheme.MakeISO17365(pf, f[3], f[4], f[5], f[6])
		}
		if err == nil || len(id) > 0 || bits != "" || text != "" {
			t.Fail("%s %q (prefix %v): the maker gives %x %q %q, err %v", in, f, pf, id, bits, text, err)
			return false
		}
		return true
	}
	f := [7]string{3: r.Alnum(1 + r.Intn(3)), 4: r.Alnum(1 + r.Intn(3)), 5: r.SixText(1+r.Intn(12), true), 6: r.SixText(1+r.Intn(40), true)}
	g := f
	switch kind := r.Intn(3); kind {
	case 0: // a character
		k := 3 + r.Intn(4)
		g[k] = outside(g[k])
		if !refuse("transport unit", "17365", false, g) || !refuse("transport unit", "17365", true, g) {
			return false
		}
		t.Count("text_refused", 1)
	case 1: // a missing field
		g[3+r.Intn(3)] = ""
		if !refuse("transport unit", "17365", false, g) {
			return false
		}
		t.Count("text_missing", 1)
	case 2: // too long for the five bits that count its words
		n := 83 + r.Intn(10)
		if r.Intn(3) == 0 {
			n += r.Intn(300)
		}
		g[6] = r.SixText(n-len(g[3]+g[4]+g[5]), true)
		if !refuse("transport unit", "17365", false, g) {
			return false
		}
		t.Count("text_too_long", 1)
	}
	c := [7]string{r.Letters(3), []string{"U", "J", "Z"}[r.Intn(3)], r.Digits(6)}
	switch r.Intn(4) {
	case 0:
		k := r.Intn(3)
		b := []byte(c[k])
		b[r.Intn(len(b))] = "abz `\n-/:@[_"[r.Intn(12)]
		c[k] = string(b)
	case 1:
		c[0] = r.Letters([]int{1, 2, 4, 5}[r.Intn(4)])
	case 2:
		c[1] = r.Letters(2 + r.Intn(2))
	case 3:
		c[2] = r.Digits(7 + r.Intn(4))
	}
	if !refuse("container", "17363", false, c) || !refuse("container", "17363", true, c) {
		return false
	}
	t.Count("container_refused", 1)
	return true
}

func main() {
	gen := "scheme and tdt of /repo called for real; oracle: independent encoder/decoder in harness/oracle"
	core.Main(
		&core.Check{ID: "T01", Quick: 4000, Thorough: 60000, Case: t01, Require: []string{"leading_zero_prefixes", "zero_references"},
			Rule: "each case encodes 3 drawn field sets (zeros, maxima, powers of two, leading zeros favoured) for every scheme and company prefix length, and decodes them under all 8 filter values; distinct = field sets", Assum: []string{gen, "a GRAI with 12-digit prefix has no asset type"}},
		&core.Check{ID: "T02", Quick: 3000, Thorough: 20000, Case: t02, Require: []string{"families", "text_length"},
			Rule: "each case encodes 6-bit text of each length from 4 to 82 characters (fields cut at random) as transport unit, and drawn containers, and decodes them under the ten families; distinct = texts", Assum: []string{gen, "text without the padding character (space)"}},
		&core.Check{ID: "T03", Quick: 6000, Thorough: 100000, Case: t03, Require: []string{"decodable", "undecodable"},
			Rule: "each case decodes 400 reads: valid, cut, extended, re-headed, re-partitioned, flipped, over the digit limit, random; every 50th case every header with every partition and every AFI; distinct = reads", Assum: []string{gen, "a GRAI with 12-digit prefix and a non-zero asset type field is left unjudged (only its form)"}},
		&core.Check{ID: "T04", Quick: 5000, Thorough: 60000, Case: t04, Require: []string{"tags_with_the_fields", "tags_with_another_field"},
			Rule: "each case computes prefixes of 8 field lists per pattern type at every depth, and judges them with tags that have the fields and tags that differ in one; distinct = patterns", Assum: []string{gen}},
		&core.Check{ID: "T05", Quick: 12000, Thorough: 150000, Case: t05, Require: []string{"generated_with_missing_fields", "generated_iso"},
			Rule: "each case generates a tag per scheme and company prefix length with a random subset of fields omitted, and containers and transport units likewise; distinct = generated tags", Assum: []string{gen}},
		&core.Check{ID: "T07", Quick: 16000, Thorough: 400000, Case: t07, Require: []string{"epc_records", "iso_records", "not_printed", "refused_field", "text_refused", "text_missing", "text_too_long", "container_refused", "text_length", "program_runs"},
			Rule: "each case prints a drawn tag per scheme, a container and a transport unit as record and as Go bytes, parses and decodes them again; one tag per scheme, a transport unit and a container with a field that no tag can have (missing, no number, beyond its range, outside the 6-bit set, too long), also as prefix; one 6-bit text; distinct = records", Assum: []string{gen}},
		&core.Check{ID: "T08", Quick: 240, Thorough: 12000, Case: t08, Race: true, Require: []string{"concurrent_decode", "concurrent_pattern", "concurrent_make", "concurrent_draw", "concurrent_malformed"},
			Rule: "each case runs about 270 drawn calls (decode, prefix, tag making, printing, malformed ones among them) with results known beforehand three times in drawn orders from 2 to 8 goroutines, on one translation core or one each, in a binary built with the race detector; distinct = calls", Assum: []string{gen, "what a malformed pattern gives is compared with its first answer"}},
		&core.Check{ID: "T06", Quick: 9000, Thorough: 100000, Case: t06, Require: []string{"refused", "check_digit"},
			Rule: "each case takes 60 drawn container numbers (every 20th case: every letter and digit in every place) through the generator, the pattern prefix and the tag encoder, and 60 wrong ones; distinct = container numbers", Assum: []string{gen, "check digit 10 is written 0; lower case letters are not used"}},
	)
}
