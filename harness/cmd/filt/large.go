package main

import (
	"fmt"

	"verifharness/core"
	"verifharness/oracle"
)

// large draws hundreds of subscriptions, most of them side by side
func large(t *core.T) (*oracle.World, []entry) {
	w := oracle.NewWorld(t.Rng, 40)
	uris := 1 + t.Rng.Intn(500)
	n := 300 + t.Rng.Intn(t.N(600, 2500))
	var es []entry
	seen := map[string]bool{}
	short := 0
	for tries := 0; len(es) < n && tries < 8*n; tries++ {
		p := w.Pattern()
		b := p.Bits()
		if seen[b] {
			continue
		}
		if len(p.Fields) < 3 { // few that everything is nested in: the tree takes long to nest hundreds
			if short++; short > 8 {
				continue
			}
		}
		seen[b] = true
		es = append(es, entry{p, b, uri(w.R.Intn(uris))})
	}
	t.Rng.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return w, es
}

// inLarge has every engine built from a large set, searched, updated and searched again
func inLarge(t *core.T) {
	w, es := large(t)
	start := es[:len(es)-t.Rng.Intn(40)]
	ops, _ := history(t, es, start, 6)
	ts := tags(w, es, 200)
	t.Note("%d subscriptions, %d at the start", len(es), len(start))
	for _, c := range all {
		eng := c.mk(subs(t, start))
		m := modelOf(start)
		if !probe(t, eng, c.name, m, ts, "built from a large set") {
			return
		}
		for i, o := range ops {
			apply(eng, m, o)
			if !probe(t, eng, c.name, m, ts[:60], fmt.Sprintf("a large set after op %d", i)) {
				return
			}
		}
		data, err := eng.MarshalBinary()
		if err != nil {
			t.Fail("%s: saving %d subscriptions: %v", c.name, len(m.bits), err)
			return
		}
		copy := c.zero()
		if err := copy.UnmarshalBinary(data); err != nil {
			t.Fail("%s: restoring %d subscriptions: %v", c.name, len(m.bits), err)
			return
		}
		if !probe(t, copy, c.name, m, ts[:100], "a large set restored") {
			return
		}
	}
	t.Count("large_sets", 1)
	t.State("large_set_sizes", len(es))
	t.Distinct(len(es), ts)
	t.Sample("a set of %d subscriptions, %d updates, 200 tags", len(es), len(ops))
}
