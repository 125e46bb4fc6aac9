package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unsafe"

	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/oracle"
)

var scratch string

func f11(t *core.T) {
	if scratch == "" {
		scratch = filepath.Join(os.Getenv("VERIF_CHILD"), "csv."+os.Getenv("VERIF_SHARD"))
		os.MkdirAll(scratch, 0755)
	}
	w := oracle.NewWorld(t.Rng, 3)
	r := t.Rng
	quote := func(s string) string {
		if strings.ContainsAny(s, ",\"\r\n") || r.Intn(5) == 0 {
			return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
		}
		return s
	}
	mixCase := func(s string) string {
		b := []byte(s)
		for i := range b {
			if r.Intn(3) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	want := filtering.Subscriptions{}
	var file strings.Builder
	nl := []string{"\n", "\r\n"}[r.Intn(2)]
	rows := r.Intn(14)
	large := t.Index%200 == 55
	if large { // more than any buffer holds
		rows = 200 + r.Intn(1500)
	}
	for i := 0; i < rows; i++ {
		var first string
		isURL := true
		switch r.Intn(9) {
		case 0:
			first, isURL = []string{"", "ftp://x/", "# http://a", " http://a/", "urn:epc:pat:sgtin-96:1", "reportURI", "//http", "httq://a"}[r.Intn(8)], false
		case 1:
			first = mixCase("https://secure.example.com:8443/Path?q=1")
		case 2:
			first = mixCase(fmt.Sprintf("http://host%d/x,y", r.Intn(3)))
		default:
			first = fmt.Sprintf("http://host%d.example.com/", r.Intn(4))
			if r.Intn(4) == 0 {
				first = mixCase(first)
			}
		}
		cells := []string{quote(first)}
		n := r.Intn(6)
		if large && r.Intn(200) == 0 {
			n = 500 + r.Intn(3000)
			t.Count("long_rows", 1)
		}
		var pats []string
		for j := 0; j < n; j++ {
			c := w.Pattern().URN()
			isPat := true
			switch r.Intn(8) {
			case 0:
				c, isPat = []string{"", " ", "\turn:epc:pat:sgtin-96:1", "comment", "urn:epc:id:sgtin:1.2.3", "pat:sgtin-96:1", "xurn:epc:pat:sgtin-96:1", " urn:epc:pat:sgtin-96:1", "urn:epc:tag:sgtin-96:1"}[r.Intn(9)], false
			case 1: // a tag pattern whatever its content: loaded verbatim
				c = w.Malformed()
				isPat = strings.HasPrefix(c, "urn:epc:pat:")
				if strings.ContainsAny(c, "\x00") {
					c = "urn:epc:pat:sgtin-96:x y"
					isPat = true
				}
			case 2: // in either case
				if r.Intn(2) == 0 {
					c = mixCase(c[:12]) + c[12:]
					t.Count("patterns_in_mixed_case", 1)
				}
			case 3: // spaces belong to it
				if r.Intn(2) == 0 {
					c += []string{" ", "\t", "  ", "\u00a0"}[r.Intn(4)]
					t.Count("patterns_with_spaces", 1)
				}
			}
			if isPat {
				pats = append(pats, c)
			}
			cells = append(cells, quote(c))
		}
		if len(cells) == 1 && first == "" {
			continue // a blank line is no row
		}
		file.WriteString(strings.Join(cells, ",") + nl)
		if isURL && len(pats) > 0 {
			k := strings.ToLower(first)
			want[k] = append(want[k], pats...)
			t.Count("rows_with_patterns", 1)
		} else {
			t.Count("rows_without", 1)
		}
		if r.Intn(8) == 0 {
			file.WriteString(nl) // blank line
		}
	}
	txt := file.String()
	if r.Intn(4) == 0 {
		txt = strings.TrimSuffix(txt, nl)
	}
	if large {
		t.Count("large_files", 1)
		t.State("file_kib", len(txt)>>10)
	} else {
		t.Note("file:\n%s", txt)
	}
	f := filepath.Join(scratch, "subs.csv")
	if err := os.WriteFile(f, []byte(txt), 0644); err != nil {
		t.Inconclusive("scratch file: %v", err)
		return
	}
	got := filtering.LoadSubscriptionsFromCSVFile(f)
	t.Eval(1)
	// a row with an address but no patterns may or may not leave an empty entry
	for k, v := range got {
		if len(v) == 0 && want[k] == nil {
			delete(got, k)
		}
	}
	if !equalSubs(got, want) {
		if large {
			t.Fail("a file of %d bytes and %d rows is loaded with other destinations or patterns: %s", len(txt), rows, difference(got, want))
			return
		}
		t.Fail("loaded %s, want %s, from file %q", show(got), show(want), txt)
		return
	}
	if len(want) > 0 {
		t.Distinct(txt)
	}
	if !large {
		t.Sample("%q", txt)
	}
}

func difference(got, want filtering.Subscriptions) string {
	for k, v := range want {
		for i, p := range v {
			if i >= len(got[k]) || got[k][i] != p {
				return fmt.Sprintf("pattern %d of %d of %s should be %s, %d were loaded", i, len(v), k, p, len(got[k]))
			}
		}
		if len(got[k]) > len(v) {
			return fmt.Sprintf("%d patterns of %s, want %d", len(got[k]), k, len(v))
		}
	}
	return fmt.Sprintf("%d destinations, want %d", len(got), len(want))
}

// pattern of a filter: required bit by position, in absolute positions
func required(s string, off int) map[int]byte {
	m := map[int]byte{}
	for i := 0; i < len(s); i++ {
		if s[i] != 'x' {
			m[off+i] = s[i]
		}
	}
	return m
}

func matches(m map[int]byte, id []byte) bool {
	for p, b := range m {
		if p/8 >= len(id) || (id[p/8]>>uint(7-p%8))&1 != b-'0' {
			return false
		}
	}
	return true
}

func randFilter(r *rand.Rand, n int) string {
	b := make([]byte, n)
	mode := r.Intn(6)
	for i := range b {
		switch mode {
		case 0:
			b[i] = 'x'
		case 1:
			b[i] = "01"[r.Intn(2)]
		case 2:
			b[i] = "xxxxxxxx01"[r.Intn(10)]
		case 3:
			b[i] = "111x"[r.Intn(4)]
		default:
			b[i] = "01x"[r.Intn(3)]
		}
	}
	return string(b)
}

// near makes an identifier that satisfies a filter, of a length about what it needs, then maybe breaks one bit
func near(r *rand.Rand, m map[int]byte, end int) []byte {
	n := (end+7)/8 + r.Intn(4) - 1
	if r.Intn(6) == 0 {
		n = r.Intn((end+7)/8 + 1)
	}
	if n < 0 {
		n = 0
	}
	id := make([]byte, n)
	r.Read(id)
	for p, b := range m {
		if p/8 < n {
			if b == '1' {
				id[p/8] |= 1 << uint(7-p%8)
			} else {
				id[p/8] &^= 1 << uint(7-p%8)
			}
		}
	}
	if r.Intn(2) == 0 && n > 0 {
		k := r.Intn(n * 8)
		id[k/8] ^= 1 << uint(7-k%8)
	}
	return id
}

func f13(t *core.T) {
	r := t.Rng
	n := 1 + r.Intn(20)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(120)
	}
	off := r.Intn(40)
	if r.Intn(5) == 0 {
		off = 8 * r.Intn(16)
	}
	if r.Intn(25) == 0 { // long ones, and ones far behind
		n, off = 1+r.Intn(700), r.Intn(5000)
		t.Count("long_or_far", 1)
	}
	s := randFilter(r, n)
	if r.Intn(60) == 0 {
		s, n = "", 0
	}
	t.Note("filter %q at %d", s, off)
	f := filtering.NewFilter(s, off)
	m := required(s, off)
	end := off + n
	t.State("offset_residues", fmt.Sprint(off%8, n%8))
	if f.String != s || f.Size != n || f.Offset != off {
		t.Fail("filter %q at %d describes itself as %q, %d bits at %d", s, off, f.String, f.Size, f.Offset)
		return
	}
	t.Eval(1)
	if f.IsTransparent() != (len(m) == 0) {
		t.Fail("filter %q at %d: transparent=%v, with %d required bits", s, off, f.IsTransparent(), len(m))
		return
	}
	if len(m) == 0 {
		t.Count("transparent", 1)
	}
	for i := 0; i < 12; i++ {
		id := near(r, m, end)
		t.Eval(1)
		w := matches(m, id)
		if got := f.Match(id); got != w {
			t.Fail("filter %q at %d on %x (%s): match=%v, want %v", s, off, id, oracle.BitString(id), got, w)
			return
		}
		if w {
			t.Count("matches", 1)
		} else {
			t.Count("mismatches", 1)
		}
	}
	if !f.Match(fullID(r, m, end)) {
		t.Fail("filter %q at %d does not match an identifier with all required bits", s, off)
		return
	}
	if n == 0 {
		return
	}
	for bo := -1; bo <= end/8+2; bo++ {
		t.Eval(1)
		has := bo >= off/8 && bo <= (end-1)/8
		if f.HasByteAt(bo) != has {
			t.Fail("filter %q at %d: HasByteAt(%d)=%v, want %v", s, off, bo, f.HasByteAt(bo), has)
			return
		}
		b, mask, err := f.GetByteAt(bo)
		if (err == nil) != has {
			t.Fail("filter %q at %d: GetByteAt(%d) gives error %v, want present=%v", s, off, bo, err, has)
			return
		}
		if !has {
			continue
		}
		t.Count("bytes_read", 1)
		for k := 0; k < 8; k++ {
			v, req := m[bo*8+k]
			mb := mask>>uint(7-k)&1 == 0 // 0 in the mask: required
			if mb != req {
				t.Fail("filter %q at %d: mask of byte %d is %08b, bit %d required=%v", s, off, bo, mask, k, req)
				return
			}
			if req && (b>>uint(7-k))&1 != v-'0' {
				t.Fail("filter %q at %d: byte %d is %08b, bit %d should be %c", s, off, bo, b, k, v)
				return
			}
		}
	}
	t.Distinct(s, off)
	t.Sample("filter %q at %d", s, off)
}

func fullID(r *rand.Rand, m map[int]byte, end int) []byte {
	id := make([]byte, (end+7)/8+r.Intn(3))
	r.Read(id)
	for p, b := range m {
		if b == '1' {
			id[p/8] |= 1 << uint(7-p%8)
		} else {
			id[p/8] &^= 1 << uint(7-p%8)
		}
	}
	return id
}

// field reads an unexported field by name, or by being the only one of its kind
func field(v reflect.Value, name string, kind reflect.Kind) (reflect.Value, bool) {
	f := v.FieldByName(name)
	if !f.IsValid() || f.Kind() != kind {
		n := 0
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == kind {
				f = v.Field(i)
				n++
			}
		}
		if n != 1 {
			return f, false
		}
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
}

func f14(t *core.T) {
	r := t.Rng
	if t.Index == 0 { // residuals are kept by the text of their filter alone
		a, b := filtering.NewFilter("0x", 0), filtering.NewFilter("0x", 1)
		v := reflect.ValueOf(filtering.NewComposition([]*filtering.FilterObject{a, b})).Elem()
		if vc, ok := field(v, "children", reflect.Map); ok && vc.Len() < 2 {
			t.Finding("same-text-other-offset", "of the filters 0x at 0 and 0x at 1, composed, only one has a residual")
		}
	}
	k := 1 + r.Intn(6)
	// all span byte c, so that they overlap
	c := r.Intn(6)
	if r.Intn(20) == 0 { // many, far behind
		k, c = 1+r.Intn(40), r.Intn(70)
		t.Count("many_or_far", 1)
	}
	reach := c*8 + 72
	type flt struct {
		s   string
		off int
	}
	var fs []flt
	seen := map[string]bool{}
	base := randFilter(r, 40)
	for i := 0; i < 40+k && len(fs) < k; i++ {
		lo := c*8 + 7 - r.Intn(c*8+8) // at or before the last bit of byte c
		if r.Intn(3) == 0 {
			lo = c * 8
		}
		hi := c*8 + 1 + r.Intn(30) // exclusive end, beyond the first bit of byte c
		if hi <= lo {
			hi = lo + 1
		}
		s := randFilter(r, hi-lo)
		if r.Intn(2) == 0 { // mostly equal to the others
			s = base[:(hi-lo)%40]
			if len(s) != hi-lo {
				s = randFilter(r, hi-lo)
			}
			b := []byte(s)
			b[r.Intn(len(b))] = "01x"[r.Intn(3)]
			s = string(b)
		}
		if !seen[s] {
			seen[s] = true
			fs = append(fs, flt{s, lo})
		}
	}
	var objs []*filtering.FilterObject
	for _, f := range fs {
		objs = append(objs, filtering.NewFilter(f.s, f.off))
	}
	t.Note("filters %v", fs)
	cmp := filtering.NewComposition(objs)
	v := reflect.ValueOf(cmp).Elem()
	vf, ok1 := field(v, "filter", reflect.String)
	vo, ok2 := field(v, "offset", reflect.Int)
	vc, ok3 := field(v, "children", reflect.Map)
	if !ok1 || !ok2 || !ok3 {
		t.Inconclusive("the composition's parts cannot be found")
		return
	}
	common := required(vf.String(), int(vo.Int()))
	if len(vf.String()) > 0 {
		t.Count("common_bits_required", len(common))
	}
	for i, f := range fs {
		cv := vc.MapIndex(reflect.ValueOf(f.s))
		if !cv.IsValid() || cv.IsNil() {
			t.Fail("no residual for filter %v among %v", f, fs)
			return
		}
		child := cv.Interface().(*filtering.FilterObject)
		m := required(f.s, f.off)
		cm := required(child.String, child.Offset)
		comp := filtering.NewFilter(vf.String(), int(vo.Int()))
		// the residual requires nothing beyond the original, the common part nothing either: checked by matching
		for j := 0; j < 14; j++ {
			var id []byte
			switch r.Intn(4) {
			case 0: // satisfies another filter
				o := fs[r.Intn(len(fs))]
				id = near(r, required(o.s, o.off), o.off+len(o.s)+16)
			case 1: // satisfies the residual and the common part
				u := map[int]byte{}
				for p, b := range cm {
					u[p] = b
				}
				for p, b := range common {
					u[p] = b
				}
				id = fullID(r, u, reach)
			default:
				id = near(r, m, f.off+len(f.s)+8)
			}
			t.Eval(1)
			w := matches(m, id)
			got := comp.Match(id) && child.Match(id)
			got2 := matches(common, id) && matches(cm, id)
			if got != w || got2 != w {
				t.Fail("filters %v: filter %v on %x: original %v, common part %q at %d and residual %q at %d give %v", fs, f, id, w, vf.String(), vo.Int(), child.String, child.Offset, got)
				return
			}
			if orig := objs[i].Match(id); orig != w {
				t.Fail("composing changed what the original filter %v matches", f)
				return
			}
			if w {
				t.Count("matches", 1)
			} else {
				t.Count("mismatches", 1)
			}
		}
	}
	if len(fs) > 1 {
		t.Count("overlap_partial", 1)
	}
	t.Distinct(fs)
	t.Sample("filters %v -> common %q at %d", fs, vf.String(), vo.Int())
}
