// Package oracle is an independent model of what gosstrak should do, written from the tag data
// standards (EPC TDS 96-bit layouts, 6-bit text of ISO 15962, ISO 6346) and the property statements.
// It shares no code with the code under test.
package oracle

import (
	"fmt"
	"math/big"
	"strings"
)

// Scheme describes one 96-bit EPC scheme
type Scheme struct {
	Name    string // in identities, e.g. sgtin
	Pat     string // in patterns, e.g. sgtin-96
	Header  byte
	RefBits [7]int // by partition value 0..6
	RefDig  [7]int
	Serial  bool // has a 38-bit serial
	PadRef  bool // the reference is zero padded in the identity
	Rsvd    int  // reserved zero bits at the end
}

// CPBits by partition value; the company prefix has 12-p digits
var CPBits = [7]int{40, 37, 34, 30, 27, 24, 20}

// Schemes known
var (
	SGTIN   = &Scheme{Name: "sgtin", Pat: "sgtin-96", Header: 0x30, RefBits: [7]int{4, 7, 10, 14, 17, 20, 24}, RefDig: [7]int{1, 2, 3, 4, 5, 6, 7}, Serial: true, PadRef: true}
	SSCC    = &Scheme{Name: "sscc", Pat: "sscc-96", Header: 0x31, RefBits: [7]int{18, 21, 24, 28, 31, 34, 38}, RefDig: [7]int{5, 6, 7, 8, 9, 10, 11}, PadRef: true, Rsvd: 24}
	GRAI    = &Scheme{Name: "grai", Pat: "grai-96", Header: 0x33, RefBits: [7]int{4, 7, 10, 14, 17, 20, 24}, RefDig: [7]int{0, 1, 2, 3, 4, 5, 6}, Serial: true, PadRef: true}
	GIAI    = &Scheme{Name: "giai", Pat: "giai-96", Header: 0x34, RefBits: [7]int{42, 45, 48, 52, 55, 58, 62}, RefDig: [7]int{13, 14, 15, 16, 17, 18, 19}}
	Schemes = []*Scheme{SGTIN, SSCC, GRAI, GIAI}
)

// AFIs maps application family identifiers to the names in identities
var AFIs = map[byte]string{
	0xA1: "iso17367", 0xA2: "iso17365", 0xA3: "iso17364", 0xA4: "iso17367h", 0xA5: "iso17366",
	0xA6: "iso17366h", 0xA7: "iso17365h", 0xA8: "iso17364h", 0xA9: "iso17363", 0xAA: "iso17363h",
}

// Bin writes v in n bits; it panics if v does not fit (a bug of the harness)
func Bin(v *big.Int, n int) string {
	s := v.Text(2)
	if v.Sign() == 0 {
		s = ""
	}
	if len(s) > n {
		panic(fmt.Sprintf("oracle: %v does not fit in %d bits", v, n))
	}
	return strings.Repeat("0", n-len(s)) + s
}

func dec(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("oracle: not decimal: " + s)
	}
	return v
}

// Six writes text in 6-bit encoding
func Six(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		for k := 5; k >= 0; k-- {
			b.WriteByte('0' + (c>>uint(k))&1)
		}
	}
	return b.String()
}

// CheckDigit6346 computes the ISO 6346 check digit of 10 characters by exact integer arithmetic
func CheckDigit6346(cn string) int {
	sum := 0
	for i := 0; i < 10; i++ {
		c := cn[i]
		v := 0
		if c >= '0' && c <= '9' {
			v = int(c - '0')
		} else {
			// A=10, and 11, 22, 33 are skipped
			v = 10
			for k := byte('A'); k < c; k++ {
				v++
				if v%11 == 0 {
					v++
				}
			}
		}
		sum += v << uint(i)
	}
	return sum % 11 % 10
}

// Pat is a tag pattern: type and leading fields
type Pat struct {
	Type    string
	Fields  []string
	Written string // how it is written, if not as URN says
}

// String is the pattern as given to the code: letters of ISO fields and of the prefix may be in either case
func (p Pat) String() string {
	if p.Written != "" {
		return p.Written
	}
	return p.URN()
}

// Respell writes a pattern in another mixture of cases
func (r Rand) Respell(p Pat) Pat {
	mix := func(s string, f func(string) string) string {
		if r.Intn(2) == 0 {
			return f(s)
		}
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = f(string(b[i]))[0]
			}
		}
		return string(b)
	}
	prefix, fields := "urn:epc:pat:", strings.Join(p.Fields, ".")
	if r.Intn(2) == 0 {
		prefix = mix(prefix, strings.ToUpper)
	}
	if SchemeOf(p.Type) == nil && r.Intn(3) > 0 {
		fields = mix(fields, strings.ToLower)
	}
	p.Written = prefix + p.Type + ":" + fields
	return p
}

// URN is the pattern as text
func (p Pat) URN() string { return "urn:epc:pat:" + p.Type + ":" + strings.Join(p.Fields, ".") }

// SchemeOf returns the EPC scheme of a pattern type, or nil
func SchemeOf(pat string) *Scheme {
	for _, s := range Schemes {
		if s.Pat == pat {
			return s
		}
	}
	return nil
}

// Bits is the bit prefix of a well-formed pattern
func (p Pat) Bits() string {
	switch p.Type {
	case "iso17363":
		b := ""
		for i, f := range p.Fields {
			if i == 3 {
				f = strings.Repeat("0", 6-len(f)) + f
				f += fmt.Sprint(CheckDigit6346(p.Fields[1] + p.Fields[2] + f))
			}
			b += Six(f)
		}
		return b
	case "iso17365":
		return Six(strings.Join(p.Fields, ""))
	}
	s := SchemeOf(p.Type)
	b := Bin(big.NewInt(int64(s.Header)), 8)
	for i, f := range p.Fields {
		switch i {
		case 0:
			b += Bin(dec(f), 3)
		case 1:
			part := 12 - len(f)
			b += Bin(big.NewInt(int64(part)), 3) + Bin(dec(f), CPBits[part])
		case 2:
			b += Bin(dec(f), s.RefBits[12-len(p.Fields[1])])
		case 3:
			b += Bin(dec(f), 38)
		}
	}
	return b
}

// Text is what the legacy engine compares with the scheme and fields of an identity
func (p Pat) Text() string {
	if s := SchemeOf(p.Type); s != nil {
		return s.Name + ":" + strings.Join(p.Fields[1:], ".")
	}
	return p.Type + ":" + strings.Join(p.Fields, "")
}

// MatchBits says whether the pattern's bit prefix leads the identifier
func MatchBits(bits string, id []byte) bool {
	if len(bits) > len(id)*8 {
		return false
	}
	for i := 0; i < len(bits); i++ {
		if (id[i/8]>>uint(7-i%8))&1 != bits[i]-'0' {
			return false
		}
	}
	return true
}

// BitString writes bytes as bits
func BitString(id []byte) string {
	var b strings.Builder
	for _, x := range id {
		fmt.Fprintf(&b, "%08b", x)
	}
	return b.String()
}

// Bytes packs bits whose number is a multiple of 8
func Bytes(bits string) []byte {
	if len(bits)%8 != 0 {
		panic("oracle: bits not whole bytes")
	}
	r := make([]byte, len(bits)/8)
	for i := range bits {
		if bits[i] == '1' {
			r[i/8] |= 1 << uint(7-i%8)
		}
	}
	return r
}

// Tag is a tag read
type Tag struct {
	PC, ID []byte
	// what it was made from, when made by the harness
	Scheme *Scheme
	FV     int
	CP     string // digits
	Ref    *big.Int
	Ser    *big.Int
	ISO    string // 6-bit text
	Desc   string
}

func (t Tag) String() string {
	id, ok, _ := Decode(t.PC, t.ID)
	return fmt.Sprintf("pc=%x id=%x (%s %v)", t.PC, t.ID, id, ok)
}

// EPCTag encodes a 96-bit tag. ser is ignored for schemes without serial
func EPCTag(s *Scheme, fv int, cp string, ref, ser *big.Int) Tag {
	part := 12 - len(cp)
	b := Bin(big.NewInt(int64(s.Header)), 8) + Bin(big.NewInt(int64(fv)), 3) + Bin(big.NewInt(int64(part)), 3) +
		Bin(dec(cp), CPBits[part]) + Bin(ref, s.RefBits[part])
	if s.Serial {
		b += Bin(ser, 38)
	}
	b += strings.Repeat("0", s.Rsvd)
	if len(b) != 96 {
		panic(fmt.Sprintf("oracle: %s %s: %d bits", s.Name, cp, len(b)))
	}
	return Tag{PC: []byte{0x30, 0}, ID: Bytes(b), Scheme: s, FV: fv, CP: cp, Ref: ref, Ser: ser}
}

// Pad16 pads 6-bit text to 16-bit words with the pattern 100000
func Pad16(bits string) string {
	pad := "100000"
	for i := 0; len(bits)%16 != 0; i++ {
		bits += pad[i%6 : i%6+1]
	}
	return bits
}

// ISOTag encodes 6-bit text under an application family
func ISOTag(afi byte, text string) Tag {
	b := Pad16(Six(text))
	words := len(b) / 16
	return Tag{PC: []byte{byte(words&31)<<3 | 1, afi}, ID: Bytes(b), ISO: text}
}

// EPCIdentity is the identity of fields
func EPCIdentity(s *Scheme, cp string, ref, ser *big.Int) string {
	part := 12 - len(cp)
	out := "urn:epc:id:" + s.Name + ":" + cp
	if s.RefDig[part] > 0 {
		r := ref.String()
		if s.PadRef && len(r) < s.RefDig[part] {
			r = strings.Repeat("0", s.RefDig[part]-len(r)) + r
		}
		out += "." + r
	}
	if s.Serial {
		out += "." + ser.String()
	}
	return out
}

// Decode gives the identity of a tag read, whether it is decodable, and whether the standard leaves that open
func Decode(pc, id []byte) (identity string, ok bool, open bool) {
	if len(pc) != 2 {
		return "", false, false
	}
	if pc[0]&1 == 1 {
		name, known := AFIs[pc[1]]
		if !known {
			return "", false, false
		}
		bits := BitString(id)
		var b strings.Builder
		for i := 0; i+6 <= len(bits); i += 6 {
			c := byte(0)
			for k := 0; k < 6; k++ {
				c = c<<1 | (bits[i+k] - '0')
			}
			if c == 0x20 { // padding
				continue
			}
			if c < 0x20 {
				c += 0x40
			}
			b.WriteByte(c)
		}
		if b.Len() == 0 {
			return "", false, false
		}
		return "urn:epc:id:" + name + ":" + b.String(), true, false
	}
	if len(id) != 12 {
		return "", false, false
	}
	var s *Scheme
	for _, x := range Schemes {
		if x.Header == id[0] {
			s = x
		}
	}
	if s == nil {
		return "", false, false
	}
	bits := BitString(id)
	num := func(from, n int) *big.Int {
		v, _ := new(big.Int).SetString(bits[from:from+n], 2)
		return v
	}
	part := int(num(11, 3).Int64())
	if part > 6 {
		return "", false, false
	}
	cp := num(14, CPBits[part])
	ref := num(14+CPBits[part], s.RefBits[part])
	if len(cp.String()) > 12-part {
		return "", false, false
	}
	if s.RefDig[part] == 0 {
		if ref.Sign() != 0 {
			open = true // the asset type field has no digits: left open
		}
	} else if len(ref.String()) > s.RefDig[part] {
		return "", false, false
	}
	cps := cp.String()
	cps = strings.Repeat("0", 12-part-len(cps)) + cps
	var ser *big.Int
	if s.Serial {
		ser = num(58, 38)
	}
	return EPCIdentity(s, cps, ref, ser), true, open
}
