package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/oracle"
)

type ctor struct {
	name string
	mk   func(filtering.Subscriptions) filtering.Engine
	zero func() filtering.Engine
}

var binary = []ctor{
	{"List", filtering.NewList, func() filtering.Engine { return &filtering.List{} }},
	{"PatriciaTrie", filtering.NewPatriciaTrie, func() filtering.Engine { return &filtering.PatriciaTrie{} }},
	{"SplayTree", filtering.NewSplayTree, func() filtering.Engine { return &filtering.SplayTree{} }},
}
var legacy = ctor{"LegacyEngine", filtering.NewLegacyEngine, func() filtering.Engine { return &filtering.LegacyEngine{} }}
var all = append(append([]ctor{}, binary...), legacy)

// entry is one subscription
type entry struct {
	pat  oracle.Pat
	bits string
	uri  string
}

// model is what an engine should hold
type model struct {
	bits map[string]string          // bit prefix -> destination
	text map[string]map[string]bool // destination -> pattern URNs
	pats map[string]oracle.Pat      // by URN
	ext  map[string]int             // how many listed patterns of a destination are the same text; bounds repeats
}

func newModel() *model {
	return &model{bits: map[string]string{}, text: map[string]map[string]bool{}, pats: map[string]oracle.Pat{}, ext: map[string]int{}}
}

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.bits {
		n.bits[k] = v
	}
	for k, v := range m.text {
		n.text[k] = map[string]bool{}
		for p := range v {
			n.text[k][p] = true
		}
	}
	for k, v := range m.pats {
		n.pats[k] = v
	}
	return n
}

func (m *model) add(e entry) {
	m.bits[e.bits] = e.uri
	if m.text[e.uri] == nil {
		m.text[e.uri] = map[string]bool{}
	}
	m.text[e.uri][e.pat.String()] = true
	m.pats[e.pat.String()] = e.pat
}

func (m *model) del(e entry) {
	if m.bits[e.bits] == e.uri {
		delete(m.bits, e.bits)
	}
	delete(m.text[e.uri], e.pat.String())
	if len(m.text[e.uri]) == 0 {
		delete(m.text, e.uri)
	}
}

// wantBits is how many patterns of each destination match a tag in the binary engines
func (m *model) wantBits(tag oracle.Tag) map[string]int {
	w := map[string]int{}
	for b, u := range m.bits {
		if oracle.MatchBits(b, tag.ID) {
			w[u]++
		}
	}
	return w
}

// wantText is how many patterns of each destination match a tag in the text engine
func (m *model) wantText(tag oracle.Tag) map[string]int {
	w := map[string]int{}
	id, ok, _ := oracle.Decode(tag.PC, tag.ID)
	if !ok {
		return w
	}
	id = strings.TrimPrefix(id, "urn:epc:id:")
	for u, ps := range m.text {
		for p := range ps {
			if strings.HasPrefix(id, m.pats[p].Text()) {
				w[u]++
			}
		}
	}
	return w
}

func sameKeys(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if b[k] == 0 {
			return false
		}
	}
	return true
}

func keys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func re(tag oracle.Tag) llrp.ReadEvent {
	return llrp.ReadEvent{ID: append([]byte{}, tag.ID...), PC: append([]byte{}, tag.PC...)}
}

// search runs one search and judges it. It returns false after recording a violation
func search(t *core.T, eng filtering.Engine, name string, tag oracle.Tag, want map[string]int, where string) bool {
	identity, uris, err := eng.Search(re(tag))
	return judge(t, name, tag, want, where, identity, uris, err)
}

func judge(t *core.T, name string, tag oracle.Tag, want map[string]int, where, identity string, uris []string, err error) bool {
	t.Eval(1)
	got := map[string]int{}
	for _, u := range uris {
		got[u]++
	}
	wid, ok, open := oracle.Decode(tag.PC, tag.ID)
	if len(want) > 0 {
		t.Count("matching_searches", 1)
	} else {
		t.Count("nonmatching_searches", 1)
	}
	if open && name == "LegacyEngine" && err != nil {
		return true
	}
	if !sameKeys(got, want) {
		t.Fail("%s %s: tag %v reported to %q, want %q (err %v)", name, where, tag, uris, keys(want), err)
		return false
	}
	for u, n := range got {
		if n > want[u] {
			t.Fail("%s %s: tag %v reported %d times to %s, for %d matching patterns", name, where, tag, n, u, want[u])
			return false
		}
	}
	if len(want) == 0 {
		if err == nil {
			t.Fail("%s %s: tag %v matches nothing, but no error was given", name, where, tag)
			return false
		}
		return true
	}
	if open {
		return true
	}
	if ok && (err != nil || identity != wid) {
		t.Fail("%s %s: tag %v reported as %q (err %v), want %q", name, where, tag, identity, err, wid)
		return false
	}
	if !ok && err == nil {
		t.Fail("%s %s: tag %v has no identity, but no error was given (got %q)", name, where, tag, identity)
		return false
	}
	return true
}

// subs groups entries into a subscription set in random order
func subs(t *core.T, es []entry) filtering.Subscriptions {
	s := filtering.Subscriptions{}
	for _, i := range t.Rng.Perm(len(es)) {
		s[es[i].uri] = append(s[es[i].uri], es[i].pat.String())
	}
	return s
}

func show(s filtering.Subscriptions) string {
	var b strings.Builder
	for _, k := range sortedKeys(s) {
		fmt.Fprintf(&b, "%s=%q ", k, s[k])
	}
	return b.String()
}

func sortedKeys(s filtering.Subscriptions) []string {
	var r []string
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// entries draws up to n subscriptions with distinct bit prefixes over the given destinations
func entries(w *oracle.World, n, uris int) []entry {
	var es []entry
	seen := map[string]bool{}
	for tries := 0; len(es) < n && tries < 6*n+10; tries++ {
		p := w.Pattern()
		b := p.Bits()
		if seen[b] {
			continue
		}
		seen[b] = true
		es = append(es, entry{p, b, uri(w.R.Intn(uris))})
	}
	return es
}

// deepPatterns are patterns of one type that nest as deeply as the type allows
func deepPatterns(w *oracle.World, es []entry, uris int) []entry {
	seen := map[string]bool{}
	for _, e := range es {
		seen[e.bits] = true
	}
	base := w.PatternOf(w.Types[w.R.Intn(len(w.Types))], 0)
	for d := 1; d <= len(base.Fields); d++ {
		p := oracle.Pat{Type: base.Type, Fields: base.Fields[:d]}
		if base.Type == "iso17363" && d == 4 && len(p.Fields[3]) > 6 {
			continue
		}
		b := p.Bits()
		if !seen[b] {
			seen[b] = true
			es = append(es, entry{p, b, uri(w.R.Intn(uris))})
		}
	}
	// 6-bit text nests at every character
	if w.R.Intn(2) == 0 {
		sn := w.R.Alnum(2 + w.R.Intn(8))
		for k := 1; k <= len(sn); k++ {
			p := oracle.Pat{Type: "iso17365", Fields: []string{"25S", "UN", "0433", sn[:k]}}
			b := p.Bits()
			if !seen[b] && w.R.Intn(3) > 0 {
				seen[b] = true
				es = append(es, entry{p, b, uri(w.R.Intn(uris))})
			}
		}
	}
	return es
}

// uri is the i-th destination. Groups of eight differ in little but are eight destinations
func uri(i int) string {
	h := i &^ 7
	switch i & 7 {
	case 1:
		return fmt.Sprintf("http://dest%d.example.com/cap/", h)
	case 2:
		return fmt.Sprintf("https://dest%d.example.com/cap", h)
	case 3:
		return fmt.Sprintf("http://dest%d.example.com/cap%%2F?x=%%d&y=%%s#[z]", h)
	case 4:
		return fmt.Sprintf("http://dest%d.example.com:80/cap", h)
	case 5:
		return fmt.Sprintf("http://Dest%d.example.com/Cap", h)
	case 6:
		return fmt.Sprintf("http%d", h)
	case 7:
		return fmt.Sprintf("http://dest%d.example.com/ünï,日本\"/%0300d", h, i)
	}
	return fmt.Sprintf("http://dest%d.example.com/cap", h)
}

// lowered gives the destinations of subscriptions the form they have once loaded from a file
func lowered(es []entry) []entry {
	r := append([]entry{}, es...)
	for i := range r {
		if l := strings.ToLower(r[i].uri); l != r[i].uri {
			r[i].uri = l + "#lowered"
		}
	}
	return r
}

// size draws the size of a set: mostly small, sometimes large
func size(t *core.T) int {
	switch t.Rng.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3, 4:
		return 20 + t.Rng.Intn(60)
	case 5:
		if t.Rng.Intn(3) == 0 {
			return 100 + t.Rng.Intn(80)
		}
	}
	return 2 + t.Rng.Intn(12)
}

// tags draws tag reads related to the entries: matching, nearly matching, unrelated
func tags(w *oracle.World, es []entry, n int) []oracle.Tag {
	var ts []oracle.Tag
	for i := 0; i < n; i++ {
		switch k := w.R.Intn(10); {
		case k < 6 && len(es) > 0:
			ts = append(ts, w.TagFor(es[w.R.Intn(len(es))].pat))
		case k < 8:
			ts = append(ts, w.Tag())
		case k == 8 && len(es) > 0:
			ts = append(ts, w.Near(w.TagFor(es[w.R.Intn(len(es))].pat)))
		default:
			ts = append(ts, w.TagOf(oracle.AllTypes[w.R.Intn(len(oracle.AllTypes))]))
		}
		if w.R.Intn(12) == 0 { // the same identifier as that of a tag of another family
			last := ts[len(ts)-1]
			if len(last.PC) == 2 {
				x := oracle.Tag{PC: []byte{last.PC[0], byte(0xA0 + w.R.Intn(12))}, ID: last.ID}
				if w.R.Intn(4) == 0 {
					x.PC[0] ^= 1
				}
				ts = append(ts, x)
			}
		}
	}
	return ts
}

func modelOf(es []entry) *model {
	m := newModel()
	for _, e := range es {
		m.add(e)
	}
	return m
}

func want(m *model, name string, tag oracle.Tag) map[string]int {
	if name == "LegacyEngine" {
		return m.wantText(tag)
	}
	return m.wantBits(tag)
}

// nontrivial counts matches of several patterns by one tag: nesting was exercised
func observe(t *core.T, m *model, ts []oracle.Tag) {
	for _, tag := range ts {
		n := 0
		for b := range m.bits {
			if oracle.MatchBits(b, tag.ID) {
				n++
			}
		}
		if n > 1 {
			t.Count("nested_matches", 1)
		}
	}
}

// dense is a pool whose prefixes nest and branch as much as possible: short texts over few characters
func dense(w *oracle.World, n, uris int) []entry {
	chars := []string{"01", "0@", "01P", "AB2", "?_1"}[w.R.Intn(5)]
	max := 1 + w.R.Intn(5)
	var es []entry
	seen := map[string]bool{}
	for tries := 0; len(es) < n && tries < 10*n; tries++ {
		l := 1 + w.R.Intn(max)
		b := make([]byte, l)
		for i := range b {
			b[i] = chars[w.R.Intn(len(chars))]
		}
		// any split into fields gives the same bits
		f := []string{string(b)}
		for k := 0; k < 3 && len(f[len(f)-1]) > 1 && w.R.Intn(2) == 0; k++ {
			last := f[len(f)-1]
			c := 1 + w.R.Intn(len(last)-1)
			f = append(f[:len(f)-1], last[:c], last[c:])
		}
		p := oracle.Pat{Type: "iso17365", Fields: f}
		bits := p.Bits()
		if !seen[bits] {
			seen[bits] = true
			es = append(es, entry{p, bits, uri(w.R.Intn(uris))})
		}
	}
	return es
}

// pool draws a set of subscriptions, of one of several shapes, and tags to probe it
func pool(t *core.T, n int) (*oracle.World, []entry) {
	w := oracle.NewWorld(t.Rng, 3)
	uris := 1 + t.Rng.Intn(8)
	if t.Rng.Intn(3) == 0 {
		uris = 200
	}
	var es []entry
	switch t.Rng.Intn(4) {
	case 0:
		es = dense(w, n, uris)
	case 1:
		es = dense(w, n/2, uris)
		seen := map[string]bool{}
		for _, e := range es {
			seen[e.bits] = true
		}
		for _, e := range entries(w, n-n/2, uris) {
			if !seen[e.bits] {
				es = append(es, e)
			}
		}
	case 2:
		es = entries(w, n, uris)
		if n > 0 {
			es = deepPatterns(w, es, uris)
		}
	default:
		es = entries(w, n, uris)
	}
	t.Rng.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	if t.Rng.Intn(6) == 0 {
		respell(t, w, es)
	}
	return w, es
}

// respell writes some of the patterns in other mixtures of cases
func respell(t *core.T, w *oracle.World, es []entry) {
	for i := range es {
		if w.R.Intn(2) == 0 {
			es[i].pat = w.R.Respell(es[i].pat)
			t.Count("respelled", 1)
		}
	}
}
