package oracle

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// Rand wraps a source of choices
type Rand struct{ *rand.Rand }

// Digits returns n random digits, sometimes with leading zeros or all nines
func (r Rand) Digits(n int) string {
	if n == 0 {
		return ""
	}
	switch r.Intn(10) {
	case 0:
		return strings.Repeat("0", n)
	case 1:
		return strings.Repeat("9", n)
	case 2:
		return strings.Repeat("0", n-1) + string(rune('0'+r.Intn(10)))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

// Below returns a number in [0, 10^d) and < 2^bits, boundaries favoured
func (r Rand) Below(d int, bits int) *big.Int {
	lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)
	if two := new(big.Int).Lsh(big.NewInt(1), uint(bits)); two.Cmp(lim) < 0 {
		lim = two
	}
	switch r.Intn(8) {
	case 0:
		return big.NewInt(0)
	case 1:
		return new(big.Int).Sub(lim, big.NewInt(1))
	case 2: // a power of two
		v := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(bits)))
		if v.Cmp(lim) < 0 {
			return v
		}
	case 3: // few digits
		v := big.NewInt(int64(r.Intn(100)))
		if v.Cmp(lim) < 0 {
			return v
		}
	}
	return new(big.Int).Rand(r.Rand, lim)
}

// Serial is a 38-bit serial
func (r Rand) Serial() *big.Int { return r.Below(12, 38) }

// SixChars are the characters that 6-bit text can hold, the padding space excluded
const SixChars = "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_"

// Alnum text of length n
func (r Rand) Alnum(n int) string {
	const c = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = c[r.Intn(len(c))]
	}
	return string(b)
}

// SixText is 6-bit text of length n; dots are left out when they would separate fields
func (r Rand) SixText(n int, dots bool) string {
	b := make([]byte, n)
	for i := range b {
		for {
			b[i] = SixChars[r.Intn(len(SixChars))]
			if b[i] == '.' && !dots || b[i] == ':' {
				continue
			}
			break
		}
	}
	return string(b)
}

// Letters of length n
func (r Rand) Letters(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + r.Intn(26))
	}
	return string(b)
}

// World is a pool of related field values, so that patterns nest and share prefixes
type World struct {
	R     Rand
	FVs   []int
	CPs   []string
	Refs  []*big.Int
	Sers  []*big.Int
	OCs   []string
	DIs   []string
	IACs  []string
	CINs  []string
	SNs   []string
	Types []string // pattern types in use
}

// AllTypes of patterns
var AllTypes = []string{"sgtin-96", "sscc-96", "grai-96", "giai-96", "iso17363", "iso17365"}

// NewWorld draws a pool. spread is the number of values per field
func NewWorld(rr *rand.Rand, spread int) *World {
	r := Rand{rr}
	w := &World{R: r}
	n := func() int { return 1 + r.Intn(spread) }
	for i := n(); i > 0; i-- {
		w.FVs = append(w.FVs, r.Intn(8))
	}
	for i := n(); i > 0; i-- {
		w.CPs = append(w.CPs, r.Digits(6+r.Intn(7)))
	}
	for i := n() + 1; i > 0; i-- {
		w.Refs = append(w.Refs, r.Below(1+r.Intn(19), 62))
		w.Sers = append(w.Sers, r.Serial())
	}
	// related numbers, differing late
	w.Refs = append(w.Refs, new(big.Int).Xor(w.Refs[0], big.NewInt(1)))
	w.Sers = append(w.Sers, new(big.Int).Xor(w.Sers[0], big.NewInt(1)), new(big.Int).Xor(w.Sers[0], new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(38)))))
	for i := n(); i > 0; i-- {
		w.OCs = append(w.OCs, r.Letters(3))
		w.DIs = append(w.DIs, []string{"25S", "J", "1J", "5J", "25B", "B"}[r.Intn(6)])
		w.IACs = append(w.IACs, []string{"UN", "OD", "LA", "D", "VTB"}[r.Intn(5)])
		w.CINs = append(w.CINs, r.Alnum(1+r.Intn(9)))
		sn := r.Alnum(1 + r.Intn(14))
		switch r.Intn(12) {
		case 0: // any character
			sn = r.SixText(1+r.Intn(14), false)
		case 1: // as long as a tag can hold
			sn = r.SixText(20+r.Intn(40), false)
		}
		w.SNs = append(w.SNs, sn, sn+r.Alnum(1), r.Digits(1+r.Intn(6)))
	}
	// some worlds have a single type, so that everything shares a prefix
	if r.Intn(3) == 0 {
		w.Types = []string{AllTypes[r.Intn(len(AllTypes))]}
	} else {
		for _, t := range AllTypes {
			if r.Intn(3) > 0 {
				w.Types = append(w.Types, t)
			}
		}
		if len(w.Types) == 0 {
			w.Types = AllTypes
		}
	}
	return w
}

func (w *World) pick(l []string) string { return l[w.R.Intn(len(l))] }

func fitRef(v *big.Int, s *Scheme, part int) *big.Int {
	lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(s.RefDig[part])), nil)
	if two := new(big.Int).Lsh(big.NewInt(1), uint(s.RefBits[part])); two.Cmp(lim) < 0 {
		lim = two
	}
	return new(big.Int).Mod(v, lim)
}

// Tag draws a decodable tag of the world
func (w *World) Tag() Tag {
	return w.TagOf(w.pick(w.Types))
}

// TagOf draws a decodable tag of a pattern type
func (w *World) TagOf(typ string) Tag {
	r := w.R
	switch typ {
	case "iso17363":
		oc := w.pick(w.OCs)
		cat := []string{"U", "U", "U", "J", "Z"}[r.Intn(5)]
		csn := w.csn()
		return ISOTag(0xA9, "7B"+oc+cat+csn+fmt.Sprint(CheckDigit6346(oc+cat+csn)))
	case "iso17365":
		return ISOTag(0xA2, w.pick(w.DIs)+w.pick(w.IACs)+w.pick(w.CINs)+w.pick(w.SNs))
	}
	s := SchemeOf(typ)
	cp := w.pick(w.CPs)
	ref := fitRef(w.Refs[r.Intn(len(w.Refs))], s, 12-len(cp))
	return EPCTag(s, w.FVs[r.Intn(len(w.FVs))], cp, ref, w.Sers[r.Intn(len(w.Sers))])
}

func (w *World) csn() string {
	v := new(big.Int).Mod(w.Refs[w.R.Intn(len(w.Refs))], big.NewInt(1000000))
	return fmt.Sprintf("%06d", v.Int64())
}

// Pattern draws a well-formed pattern of any depth
func (w *World) Pattern() Pat { return w.PatternOf(w.pick(w.Types), 0) }

// PatternOf draws a pattern of a type with depth fields (0: any)
func (w *World) PatternOf(typ string, depth int) Pat {
	r := w.R
	if depth == 0 {
		depth = 1 + r.Intn(Depth(typ))
		if r.Intn(3) > 0 { // favour deep ones
			if d := 1 + r.Intn(Depth(typ)); d > depth {
				depth = d
			}
		}
	}
	var f []string
	switch typ {
	case "iso17363":
		csn := w.csn()
		if r.Intn(4) == 0 { // short serials are padded
			csn = strings.TrimLeft(csn, "0")
			if csn == "" {
				csn = "0"
			}
		}
		f = []string{"7B", w.pick(w.OCs), []string{"U", "U", "U", "J", "Z"}[r.Intn(5)], csn}
	case "iso17365":
		f = []string{w.pick(w.DIs), w.pick(w.IACs), w.pick(w.CINs), w.pick(w.SNs)}
	default:
		s := SchemeOf(typ)
		cp := w.pick(w.CPs)
		part := 12 - len(cp)
		ref := fitRef(w.Refs[r.Intn(len(w.Refs))], s, part).String()
		if r.Intn(2) == 0 && len(ref) < s.RefDig[part] { // as in identities
			ref = strings.Repeat("0", s.RefDig[part]-len(ref)) + ref
		}
		f = []string{fmt.Sprint(w.FVs[r.Intn(len(w.FVs))]), cp, ref}
		if s.Serial {
			f = append(f, w.Sers[r.Intn(len(w.Sers))].String())
		}
	}
	return Pat{Type: typ, Fields: f[:depth]}
}

// Depth is the number of fields of a pattern type
func Depth(typ string) int {
	switch typ {
	case "sscc-96", "giai-96":
		return 3
	}
	return 4
}

// TagFor draws a decodable tag which the pattern matches, if the pattern is of a kind tags can have
func (w *World) TagFor(p Pat) Tag {
	r := w.R
	switch p.Type {
	case "iso17363":
		f := append([]string{}, p.Fields...)
		if len(f) < 2 {
			f = append(f, w.pick(w.OCs))
		}
		if len(f) < 3 {
			f = append(f, "U")
		}
		if len(f) < 4 {
			f = append(f, w.csn())
		}
		f[3] = strings.Repeat("0", 6-len(f[3])) + f[3]
		return ISOTag(0xA9, strings.Join(f, "")+fmt.Sprint(CheckDigit6346(f[1]+f[2]+f[3])))
	case "iso17365":
		t := strings.Join(p.Fields, "")
		if len(p.Fields) < 4 || r.Intn(3) == 0 {
			t += r.Alnum(1 + r.Intn(6))
		}
		return ISOTag(0xA2, t)
	}
	s := SchemeOf(p.Type)
	var fv int
	fmt.Sscan(p.Fields[0], &fv)
	cp := w.pick(w.CPs)
	if len(p.Fields) > 1 {
		cp = p.Fields[1]
	}
	part := 12 - len(cp)
	ref := fitRef(w.Refs[r.Intn(len(w.Refs))], s, part)
	if len(p.Fields) > 2 {
		ref = dec(p.Fields[2])
	}
	ser := w.Sers[r.Intn(len(w.Sers))]
	if len(p.Fields) > 3 {
		ser = dec(p.Fields[3])
	} else if r.Intn(2) == 0 {
		ser = r.Serial()
	}
	return EPCTag(s, fv, cp, ref, ser)
}

// Near flips one bit of a tag's identifier, so that it just fails to match something
func (w *World) Near(t Tag) Tag {
	id := append([]byte{}, t.ID...)
	if len(id) > 0 {
		k := w.R.Intn(len(id) * 8)
		id[k/8] ^= 1 << uint(7-k%8)
	}
	return Tag{PC: t.PC, ID: id}
}

// Malformed draws a pattern which cannot be encoded
func (w *World) Malformed() string {
	r := w.R
	p := w.Pattern()
	epc := AllTypes[r.Intn(4)]
	s := SchemeOf(epc)
	bad := func(f ...string) string { return "urn:epc:pat:" + epc + ":" + strings.Join(f, ".") }
	fv := fmt.Sprint(w.FVs[0])
	cp := w.pick(w.CPs)
	part := 12 - len(cp)
	over := new(big.Int).Lsh(big.NewInt(1), uint(s.RefBits[part]))
	illegal := []string{"{", "|", "}", "~", "\x7f", "\t", " ", "\x00", "€", "日", "`", "\x01"}
	ill := illegal[r.Intn(len(illegal))]
	iso := []string{"iso17363", "iso17365"}[r.Intn(2)]
	switch r.Intn(29) {
	case 0:
		return "urn:epc:pat:" + []string{"sgtin-198", "gid-96", "sgtin", "iso17364", "", "SGTIN-96", "usdod-96", "sgtin-96 "}[r.Intn(8)] + ":" + strings.Join(p.Fields, ".")
	case 1: // too many fields
		p = w.PatternOf(p.Type, Depth(p.Type))
		return p.URN() + "." + r.Digits(1+r.Intn(3))
	case 2: // an empty field
		k := r.Intn(len(p.Fields))
		f := append([]string{}, p.Fields...)
		f[k] = ""
		return "urn:epc:pat:" + p.Type + ":" + strings.Join(f, ".")
	case 3: // trailing separator
		return p.URN() + "."
	case 4: // non-numeric company prefix
		b := []byte(cp)
		b[r.Intn(len(b))] = "AX-+ "[r.Intn(5)]
		return bad(fv, string(b))
	case 5:
		return bad(fv, r.Digits(r.Intn(6)))
	case 6:
		return bad(fv, r.Digits(13+r.Intn(4)))
	case 7:
		return bad(fmt.Sprint(8+r.Intn(300)), cp)
	case 8:
		return bad(fmt.Sprint(8 + r.Intn(300)))
	case 9:
		return bad([]string{"-1", "x", "1.5x", "+1", "0x1", "1e0", " 1", "1_0"}[r.Intn(8)], cp)
	case 10: // reference too large; for giai the excess has to leave any tag out of reach
		if s == GIAI {
			over.Lsh(big.NewInt(1), 63)
		}
		return bad(fv, cp, over.String())
	case 11:
		return bad(fv, cp, strings.Repeat("9", 30))
	case 12:
		return bad(fv, cp, []string{"x", "-1", "+5", "0x5", "1 ", "1e2", "1_0"}[r.Intn(7)])
	case 13:
		if s.Serial {
			return bad(fv, cp, "0", new(big.Int).Lsh(big.NewInt(1), uint(38+r.Intn(40))).String())
		}
		return bad(fv, cp, "0", "0")
	case 14:
		if s.Serial {
			return bad(fv, cp, "0", []string{"x", "-1", "+5", "1 "}[r.Intn(4)])
		}
		return bad(fv, cp, "0", "")
	case 15:
		return "urn:epc:pat:" + iso + ":" + ill
	case 16:
		return "urn:epc:pat:" + iso + ":25S." + w.pick(w.IACs) + ill
	case 17:
		return "urn:epc:pat:iso17365:25S.UN." + r.Alnum(r.Intn(3)) + ill + r.Alnum(r.Intn(3))
	case 18:
		return "urn:epc:pat:iso17365:25S.UN." + r.Alnum(2) + "." + ill + r.Alnum(r.Intn(3))
	case 19: // container number too long
		return "urn:epc:pat:iso17363:7B." + w.pick(w.OCs) + ".U." + r.Digits(7+r.Intn(3))
	case 20: // owner code of the wrong length makes the container number not 10 long
		return "urn:epc:pat:iso17363:7B." + r.Letters(2+2*r.Intn(2)) + ".U." + r.Digits(6)
	case 21: // a bad character in the container number
		b := []byte(r.Digits(6))
		b[r.Intn(6)] = "-_@#?"[r.Intn(5)]
		return "urn:epc:pat:iso17363:7B." + w.pick(w.OCs) + ".U." + string(b)
	case 22:
		return []string{"", ":", "::", "urn:epc:pat:", "urn:epc:pat", "urn:epc:id:sgtin:1234567.123456.1", "http://a/", "urn:epc:pat:sgtin-96", "garbage", "urn:epc:pat:sgtin-96:", "urn:epc:pat::", "urn:epc:tag:sgtin-96:0.1234567.123456.1"}[r.Intn(12)]
	case 23: // an extra colon
		return p.URN() + ":" + r.Digits(2)
	case 24:
		return "urn:epc:pat:" + p.Type + ":"
	case 25, 26, 27: // well-formed but for its beginning
		return w.NotPattern()
	}
	return "urn:epc:pat:" + p.Type + ":."
}

// NotPattern is a pattern but for its beginning
func (w *World) NotPattern() string {
	return []string{"", "urn:epc:tag:", "urn:epc:idpat:", " urn:epc:pat:", "urn:epc:pat", "urn:epcpat:", "epc:pat:", "a:b:c:", ":::", "urn:epc:pat:urn:epc:pat:", "urn-epc-pat:", "::", "pat:"}[w.R.Intn(13)] +
		strings.TrimPrefix(w.Pattern().URN(), "urn:epc:pat:")
}

// Coinciding draws up to n patterns of full depth, written as in identities, with distinct bits:
// whether a tag's bits and whether its text matches one is mostly the same question
func (w *World) Coinciding(n int) []Pat {
	var ps []Pat
	seen := map[string]bool{}
	for i := 0; i < 4*n && len(ps) < n; i++ {
		p := w.PatternOf(w.Types[w.R.Intn(len(w.Types))], 0)
		p = w.PatternOf(p.Type, Depth(p.Type))
		if s := SchemeOf(p.Type); s != nil {
			tg := w.TagFor(p)
			id := EPCIdentity(s, tg.CP, tg.Ref, tg.Ser)
			f := strings.Split(id[strings.LastIndex(id, ":")+1:], ".")
			if len(f)+1 != len(p.Fields) {
				continue // no asset type in identities with 12-digit prefixes
			}
			p = Pat{Type: p.Type, Fields: append([]string{p.Fields[0]}, f...)}
		} else if p.Type == "iso17363" {
			p.Fields[3] = strings.Repeat("0", 6-len(p.Fields[3])) + p.Fields[3]
		}
		if b := p.Bits(); !seen[b] {
			seen[b] = true
			ps = append(ps, p)
		}
	}
	return ps
}

// Matcher knows the bits and the text of patterns
type Matcher struct{ bits, text []string }

// NewMatcher prepares patterns for matching
func NewMatcher(ps []Pat) *Matcher {
	m := &Matcher{}
	for _, p := range ps {
		m.bits, m.text = append(m.bits, p.Bits()), append(m.text, p.Text())
	}
	return m
}

// Match says whether a tag matches any of the patterns, by bits and by text
func (m *Matcher) Match(t Tag) (bits, text bool) {
	id, ok, _ := Decode(t.PC, t.ID)
	id = strings.TrimPrefix(id, "urn:epc:id:")
	for i := range m.bits {
		bits = bits || MatchBits(m.bits[i], t.ID)
		text = text || ok && strings.HasPrefix(id, m.text[i])
	}
	return
}

// Matches says whether a tag matches any of the patterns, by bits and by text
func Matches(ps []Pat, t Tag) (bits, text bool) { return NewMatcher(ps).Match(t) }
