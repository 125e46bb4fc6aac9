package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/oracle"
)

func f01(t *core.T) {
	if t.Index%400 == 133 {
		inLarge(t)
		return
	}
	w, es := pool(t, size(t))
	m := modelOf(es)
	s := subs(t, es)
	t.Note("subscriptions: %s", show(s))
	ts := tags(w, es, 12+2*len(es))
	observe(t, m, ts)
	for _, c := range binary {
		eng := c.mk(s)
		if eng.Name() != c.name {
			t.Fail("%s names itself %q", c.name, eng.Name())
		}
		for _, tag := range ts {
			if !search(t, eng, c.name, tag, m.wantBits(tag), "built from the set") {
				return
			}
		}
		t.State("structures", c.name+eng.Dump())
	}
	if len(es) > 1 {
		t.Distinct(show(s), ts)
	}
	t.Sample("%d subscriptions %s ; tag %v -> %v", len(es), show(s), ts[0], keys(m.wantBits(ts[0])))
}

func f02(t *core.T) {
	w, es := pool(t, size(t))
	m := modelOf(es)
	// destinations may share a pattern here
	for i := 0; i < len(es)/3; i++ {
		e := es[t.Rng.Intn(len(es))]
		e.uri = uri(300 + t.Rng.Intn(5))
		if !m.text[e.uri][e.pat.String()] {
			m.add(e)
			es = append(es, e)
		}
	}
	s := subs(t, es)
	if t.Rng.Intn(3) == 0 { // patterns of unknown type match nothing
		for i := 0; i < 3; i++ {
			tg := w.Tag()
			id, _, _ := oracle.Decode(tg.PC, tg.ID)
			p := strings.SplitN(strings.TrimPrefix(id, "urn:epc:id:"), ":", 2)
			x := []string{"urn:epc:pat:" + p[0] + ":" + p[1], "urn:epc:pat:sgtin-198:0." + p[1], "urn:epc:pat:gid-96:" + p[1], "urn:epc:pat::" + p[1], "urn:epc:pat:" + p[0] + ":"}[t.Rng.Intn(5)]
			if p[0] == "iso17363" || p[0] == "iso17365" {
				x = strings.Replace(x, ":"+p[0]+":", ":iso17367:", 1)
			}
			s[uri(400)] = append(s[uri(400)], x)
		}
	}
	if t.Rng.Intn(3) == 0 { // strings which are no patterns at all match nothing, wherever they stand
		for i := 1 + t.Rng.Intn(4); i > 0; i-- {
			x := []string{"", ":", "garbage", "urn:epc:pat", "urn:epc:pat:sgtin-96", "urn:epc:id:sgtin", "http://a/", "sgtin-96:3.1", ":::", "a:b:c:d:e:f", "urn:epc:pat:sgtin-96:3:4"}[t.Rng.Intn(11)]
			if t.Rng.Intn(2) == 0 {
				x = w.NotPattern()
			}
			u := uri(401)
			if len(es) > 0 && t.Rng.Intn(4) > 0 {
				u = es[t.Rng.Intn(len(es))].uri
			}
			k := t.Rng.Intn(len(s[u]) + 1)
			s[u] = append(s[u][:k:k], append([]string{x}, s[u][k:]...)...)
			t.Count("no_patterns", 1)
		}
	}
	t.Note("subscriptions: %s", show(s))
	eng := filtering.NewLegacyEngine(s)
	ts := tags(w, es, 20+2*len(es))
	for i := range ts {
		if t.Rng.Intn(12) == 0 { // the filter value does not matter
			if ts[i].Scheme != nil {
				x := ts[i]
				ts[i] = oracle.EPCTag(x.Scheme, t.Rng.Intn(8), x.CP, x.Ref, x.Ser)
			}
		}
		if t.Rng.Intn(25) == 0 { // another family with the same text
			if ts[i].ISO != "" {
				ts[i] = oracle.ISOTag(byte(0xA1+t.Rng.Intn(12)), ts[i].ISO)
			}
		}
		if t.Rng.Intn(25) == 0 {
			ts[i].ID = ts[i].ID[:t.Rng.Intn(len(ts[i].ID)+1)]
		}
	}
	for _, tag := range ts {
		identity, uris, err := eng.Search(re(tag))
		wt := m.wantText(tag)
		if !judge(t, "LegacyEngine", tag, wt, "built from the set", identity, uris, err) {
			return
		}
	}
	if len(es) > 1 {
		t.Distinct(show(s), ts)
	}
	t.Sample("%s ; tag %v -> %v", show(s), ts[0], keys(m.wantText(ts[0])))
}

func f03(t *core.T) {
	n := size(t)
	if n > 60 {
		n = 60
	}
	w, es := pool(t, n)
	m := modelOf(es)
	s := subs(t, es)
	t.Note("subscriptions: %s", show(s))
	ts := tags(w, es, 6+len(es))
	hist := t.N(150, 600)
	if t.Index%100 == 33 {
		hist *= 20
	}
	if t.Index%1000 == 777 { // more searches than 16 bits can count
		f03endless(t, s, m, ts)
		return
	}
	seq := make([]oracle.Tag, hist)
	mode := t.Rng.Intn(4)
	for i := range seq {
		switch mode {
		case 0: // uniform
			seq[i] = ts[t.Rng.Intn(len(ts))]
		case 1: // skewed
			seq[i] = ts[t.Rng.Intn(1+t.Rng.Intn(len(ts)))]
		case 2: // alternating among a few
			k := 1 + t.Rng.Intn(3)
			seq[i] = ts[(i*k)%len(ts)]
		default: // bursts
			if i > 0 && t.Rng.Intn(4) > 0 {
				seq[i] = seq[i-1]
			} else {
				seq[i] = ts[t.Rng.Intn(len(ts))]
			}
		}
	}
	for _, c := range all {
		eng := c.mk(s)
		for k, tag := range seq {
			if !search(t, eng, c.name, tag, want(m, c.name, tag), fmt.Sprintf("after %d searches", k)) {
				for j := 0; j < k && j < 200; j++ {
					t.Note("search %d: %v", j, seq[j])
				}
				return
			}
			if c.name == "SplayTree" && k%10 == 0 {
				t.State("tree_shapes", eng.Dump())
			}
		}
		t.Count("searches_in_histories", len(seq))
		if len(es) == 0 {
			continue
		}
		// the searches leave nothing behind that an update could bring to light: a twin that was not searched is updated alike
		ops, _ := history(t, es, es, 1+t.Rng.Intn(4))
		for i, o := range ops {
			for k := t.Rng.Intn(6); k > 0; k-- {
				eng.Search(re(seq[t.Rng.Intn(len(seq))]))
			}
			last := ts[t.Rng.Intn(len(ts))]
			eng.Search(re(last))
			t.Note("%s: searched for %v, then op %d %s: %s", c.name, last, i, []string{"add", "delete"}[o.kind], show(o.s))
			apply(eng, nil, o)
			twin := c.mk(s)
			for _, x := range ops[:i+1] {
				apply(twin, nil, x)
			}
			for _, tag := range append([]oracle.Tag{last}, ts...) {
				i1, u1, e1 := eng.Search(re(tag))
				i2, u2, e2 := twin.Search(re(tag))
				t.Eval(1)
				if i1 != i2 || !sameKeys(count(u1), count(u2)) || (e1 == nil) != (e2 == nil) {
					t.Fail("%s: tag %v is reported as %q to %q (err %v) by the engine that was searched before the updates, and as %q to %q (err %v) by one that was not", c.name, tag, i1, u1, e1, i2, u2, e2)
					return
				}
			}
			t.Count("updates_between_searches", 1)
		}
	}
	if len(es) > 1 {
		t.Distinct(show(s), seq)
	}
	t.Sample("history mode %d of %d searches over %d tags on %s", mode, len(seq), len(ts), show(s))
}

func count(uris []string) map[string]int {
	m := map[string]int{}
	for _, u := range uris {
		m[u]++
	}
	return m
}

// probe searches every tag on an engine and compares with the model
func probe(t *core.T, eng filtering.Engine, name string, m *model, ts []oracle.Tag, where string) bool {
	for _, tag := range ts {
		if !search(t, eng, name, tag, want(m, name, tag), where) {
			return false
		}
	}
	return true
}

func f04(t *core.T) {
	if t.Index%300 == 100 {
		inLarge(t)
		return
	}
	n := size(t)
	if n > 80 {
		n = 80
	}
	w, es := pool(t, n)
	ts := tags(w, es, 8+len(es))
	init := 0
	if len(es) > 0 {
		init = t.Rng.Intn(len(es) + 1)
	}
	if t.Rng.Intn(3) == 0 {
		init = 0
	}
	switch t.Rng.Intn(4) { // order of additions
	case 0: // long first
		sortEntries(es, func(a, b entry) bool { return len(a.bits) > len(b.bits) })
	case 1: // short first
		sortEntries(es, func(a, b entry) bool { return len(a.bits) < len(b.bits) })
	}
	var batches [][]entry
	for i := init; i < len(es); {
		k := 1
		if t.Rng.Intn(2) == 0 {
			k = 1 + t.Rng.Intn(5)
		}
		if i+k > len(es) {
			k = len(es) - i
		}
		b := append([]entry{}, es[i:i+k]...)
		i += k
		if i > 0 && t.Rng.Intn(3) == 0 { // again what is already there
			b = append(b, es[t.Rng.Intn(i)])
		}
		batches = append(batches, b)
	}
	if len(es) > 0 && t.Rng.Intn(2) == 0 {
		batches = append(batches, []entry{es[t.Rng.Intn(len(es))]})
	}
	batches = append(batches, nil) // an empty addition
	if len(es) > init+1 {
		t.Distinct(es, init, batches)
	}
	t.Sample("initial %d of %d, %d additions: %s", init, len(es), len(batches), show(subs(t, es)))
	s0 := subs(t, es[:init])
	t.Note("initial: %s", show(s0))
	var bs []filtering.Subscriptions
	for i, b := range batches {
		bs = append(bs, subs(t, dedupe(b)))
		t.Note("add %d: %s", i, show(bs[i]))
	}
	for _, c := range all {
		m := modelOf(es[:init])
		eng := c.mk(s0)
		for i, b := range batches {
			if t.Rng.Intn(2) == 0 { // searches in between
				if !probe(t, eng, c.name, m, ts[:len(ts)/2], fmt.Sprintf("before addition %d", i)) {
					return
				}
			}
			eng.AddSubscription(bs[i])
			for _, e := range b {
				m.add(e)
			}
			t.Count("additions", len(b))
			if i%3 == 0 || len(batches) < 8 {
				if !probe(t, eng, c.name, m, ts, fmt.Sprintf("after addition %d", i)) {
					return
				}
			}
		}
		if !probe(t, eng, c.name, m, ts, "after all additions") {
			return
		}
		t.State("structures", c.name+eng.Dump())
	}
}

func dedupe(es []entry) []entry {
	seen := map[string]bool{}
	var r []entry
	for _, e := range es {
		if !seen[e.bits+e.uri] {
			seen[e.bits+e.uri] = true
			r = append(r, e)
		}
	}
	return r
}

func sortEntries(es []entry, less func(a, b entry) bool) {
	for i := 1; i < len(es); i++ {
		for j := i; j > 0 && less(es[j], es[j-1]); j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
}

type op struct {
	kind int // 0 add, 1 delete, 2 search
	es   []entry
	s    filtering.Subscriptions
}

// history draws a mixed update history over a pool; the model at its end is returned
func history(t *core.T, es []entry, start []entry, steps int) (ops []op, end *model) {
	m := modelOf(start)
	cur := map[string]entry{} // bits -> present
	for _, e := range start {
		cur[e.bits] = e
	}
	for i := 0; i < steps; i++ {
		k := 1
		if t.Rng.Intn(3) == 0 {
			k = 1 + t.Rng.Intn(4)
		}
		var o op
		r := t.Rng.Intn(20)
		switch {
		case r == 0: // delete everything
			o.kind = 1
			for _, e := range es {
				if x, ok := cur[e.bits]; ok {
					o.es = append(o.es, x)
				}
			}
		case r < 10: // add
			o.kind = 0
			used := map[string]bool{}
			for j := 0; j < k && len(es) > 0; j++ {
				e := es[t.Rng.Intn(len(es))]
				if used[e.bits] {
					continue
				}
				used[e.bits] = true
				if x, ok := cur[e.bits]; ok {
					o.es = append(o.es, x) // present already
					continue
				}
				if t.Rng.Intn(3) == 0 { // for another destination
					e.uri = uri(500 + t.Rng.Intn(4))
				}
				o.es = append(o.es, e)
			}
		default: // delete
			o.kind = 1
			used := map[string]bool{}
			for j := 0; j < k && len(es) > 0; j++ {
				e := es[t.Rng.Intn(len(es))]
				if used[e.bits] {
					continue
				}
				used[e.bits] = true
				x, ok := cur[e.bits]
				switch {
				case ok && t.Rng.Intn(6) == 0: // under a destination that does not hold it
					x.uri = uri(600 + t.Rng.Intn(4))
					o.es = append(o.es, x)
				case ok:
					o.es = append(o.es, x)
				default: // not present
					o.es = append(o.es, e)
				}
			}
		}
		o.s = subs(t, o.es)
		for _, e := range o.es {
			if o.kind == 0 {
				m.add(e)
				cur[e.bits] = e
			} else {
				m.del(e)
				if x, ok := cur[e.bits]; ok && x.uri == e.uri {
					delete(cur, e.bits)
				}
			}
		}
		ops = append(ops, o)
	}
	return ops, m
}

func apply(eng filtering.Engine, m *model, o op) {
	if o.kind == 0 {
		eng.AddSubscription(o.s)
	} else {
		eng.DeleteSubscription(o.s)
	}
	if m == nil {
		return
	}
	for _, e := range o.es {
		if o.kind == 0 {
			m.add(e)
		} else {
			m.del(e)
		}
	}
}

func f05(t *core.T) {
	if t.Index%250 == 83 {
		inLarge(t)
		return
	}
	n := 2 + t.Rng.Intn(12)
	if t.Rng.Intn(8) == 0 {
		n = 30 + t.Rng.Intn(40)
	}
	w, es := pool(t, n)
	start := es[:t.Rng.Intn(len(es)+1)]
	ts := tags(w, es, 6+2*len(es))
	ops, _ := history(t, es, start, 4+t.Rng.Intn(t.N(24, 60)))
	s0 := subs(t, start)
	t.Note("initial: %s", show(s0))
	for i, o := range ops {
		t.Note("op %d %s: %s", i, []string{"add", "delete"}[o.kind], show(o.s))
	}
	for _, c := range all {
		m := modelOf(start)
		eng := c.mk(s0)
		for i, o := range ops {
			apply(eng, m, o)
			t.Count([]string{"additions", "deletions"}[o.kind], len(o.es))
			if len(m.bits) == 0 {
				t.Count("times_emptied", 1)
			}
			k := len(ts)
			if i%2 == 1 && k > 10 {
				k = 10
			}
			if !probe(t, eng, c.name, m, ts[:k], fmt.Sprintf("after op %d", i)) {
				return
			}
			if i%4 == 0 {
				t.State("structures", c.name+eng.Dump())
			}
		}
		if !probe(t, eng, c.name, m, ts, "at the end") {
			return
		}
		// as built anew from what remains
		var rest []entry
		for _, p := range m.pats {
			b := p.Bits()
			if u, ok := m.bits[b]; ok && m.text[u][p.String()] {
				rest = append(rest, entry{p, b, u})
			}
		}
		fresh := c.mk(subs(t, rest))
		if !probe(t, fresh, c.name, m, ts, "built anew from the remaining subscriptions") {
			return
		}
	}
	t.Distinct(s0, ops)
	t.Sample("%d initial, %d operations: %s", len(start), len(ops), show(s0))
}

// f16 churns a small window of subscriptions for long: what an engine keeps must follow what it holds
// f03endless searches engines 70000 times and more
func f03endless(t *core.T, s filtering.Subscriptions, m *model, ts []oracle.Tag) {
	n := 70000 + t.Rng.Intn(5000)
	for _, c := range all {
		eng := c.mk(s)
		wants := make([]map[string]int, len(ts))
		for i, tag := range ts {
			wants[i] = want(m, c.name, tag)
		}
		for k := 0; k < n; k++ {
			i := t.Rng.Intn(1 + t.Rng.Intn(len(ts)))
			if k%16 == 0 || k > n-400 {
				if !search(t, eng, c.name, ts[i], wants[i], fmt.Sprintf("after %d searches", k)) {
					return
				}
				continue
			}
			if _, uris, _ := eng.Search(re(ts[i])); len(uris) < len(wants[i]) || len(uris) > 0 && len(wants[i]) == 0 {
				t.Fail("%s after %d searches: tag %v reported to %q, want %q", c.name, k, ts[i], uris, keys(wants[i]))
				return
			}
		}
		t.Count("searches_in_histories", n)
		t.Count("endless_histories", 1)
	}
	t.Distinct("endless", s)
}

func f16(t *core.T) {
	w, es := pool(t, 2+t.Rng.Intn(12))
	window := 1 + t.Rng.Intn(14)
	steps := t.N(5000, 20000)
	if len(es) > window {
		es = es[:window]
	}
	held := append([]entry{}, es...)
	has := map[string]bool{}
	for _, e := range held {
		has[e.bits] = true
	}
	engs := make([]filtering.Engine, len(all))
	s0 := subs(t, held)
	for i, c := range all {
		engs[i] = c.mk(s0)
	}
	order := t.Rng.Intn(3) // which to delete: any, oldest, newest most often
	style := t.Rng.Intn(4)
	t.Note("initial: %s; window %d, style %d, deletion order %d", show(s0), window, style, order)
	made := 0
	fresh := func() (entry, bool) {
		var p oracle.Pat
		switch k := t.Rng.Intn(4); {
		case k == 0 && style != 1, style == 2:
			p = w.Pattern()
		case k == 1 && len(held) > 0: // below or above one that is held
			h := held[t.Rng.Intn(len(held))].pat
			if h.Type != "iso17365" {
				if len(h.Fields) < 2 {
					return entry{}, false
				}
				p = oracle.Pat{Type: h.Type, Fields: h.Fields[:1+t.Rng.Intn(len(h.Fields)-1)]}
				break
			}
			x := strings.Join(h.Fields, "")
			if t.Rng.Intn(2) == 0 && len(x) < 12 {
				x += w.R.SixText(1+t.Rng.Intn(2), false)
			} else {
				x = x[:1+t.Rng.Intn(len(x))]
			}
			p = oracle.Pat{Type: "iso17365", Fields: []string{x}}
		case k == 2:
			p = oracle.Pat{Type: "iso17365", Fields: []string{w.R.Alnum(1 + t.Rng.Intn(9))}}
		default:
			chars := "0P@1A"
			b := make([]byte, 1+t.Rng.Intn(6))
			for i := range b {
				b[i] = chars[t.Rng.Intn(len(chars))]
			}
			p = oracle.Pat{Type: "iso17365", Fields: []string{string(b)}}
		}
		b := p.Bits()
		u := t.Rng.Intn(6)
		if style != 3 && t.Rng.Intn(2) == 0 { // a new destination
			u = 1000 + made
		}
		made++
		return entry{p, b, uri(u)}, b != "" && !has[b]
	}
	var mem runtime.MemStats
	heap := func() uint64 {
		runtime.GC()
		runtime.ReadMemStats(&mem)
		return mem.HeapAlloc
	}
	var base uint64
	check := func(i int) bool {
		m := modelOf(held)
		ts := tags(w, held, 6)
		for k, c := range all {
			anew := c.mk(subs(t, held))
			a, err1 := engs[k].MarshalBinary()
			b, err2 := anew.MarshalBinary()
			if err1 != nil || err2 != nil {
				t.Fail("%s: saving fails: %v, %v", c.name, err1, err2)
				return false
			}
			t.Eval(2)
			if len(a) > 3*len(b)+6000 {
				t.Fail("%s: after %d updates, with %d subscriptions held, saving takes %d bytes; built anew from them it takes %d. Held: %s\n%s", c.name, i, len(held), len(a), len(b), show(subs(t, held)), engs[k].Dump())
				return false
			}
			if x, y := strings.Count(engs[k].Dump(), "\n"), strings.Count(anew.Dump(), "\n"); x > 3*y+30 {
				t.Fail("%s: after %d updates, with %d subscriptions held, the dump has %d lines; built anew from them it has %d\n%s", c.name, i, len(held), x, y, engs[k].Dump())
				return false
			}
			if !probe(t, engs[k], c.name, m, ts, fmt.Sprintf("after %d updates", i)) {
				return false
			}
		}
		t.Count("size_comparisons", len(all))
		return true
	}
	for i := 0; i < steps; i++ {
		if i%100 == 99 {
			w = oracle.NewWorld(t.Rng, 3)
		}
		var o op
		switch r := t.Rng.Intn(40); {
		case r == 0 && t.Rng.Intn(10) == 0 && len(held) > 0: // everything
			o.kind, o.es = 1, append([]entry{}, held...)
			t.Count("times_emptied", 1)
		case r == 1 && len(held) > 0: // one held already
			o.es = []entry{held[t.Rng.Intn(len(held))]}
		case r == 2: // one not held
			e, ok := fresh()
			if !ok {
				continue
			}
			o.kind, o.es = 1, []entry{e}
		case r == 3 && len(held) > 0: // of another destination
			e := held[t.Rng.Intn(len(held))]
			e.uri = uri(700)
			o.kind, o.es = 1, []entry{e}
		case len(held) > window || (len(held) > 0 && r < 12):
			k := t.Rng.Intn(len(held))
			if order == 1 && t.Rng.Intn(4) > 0 {
				k = 0
			} else if order == 2 && t.Rng.Intn(4) > 0 {
				k = len(held) - 1
			}
			o.kind, o.es = 1, []entry{held[k]}
		default:
			for k := 1 + t.Rng.Intn(2)*t.Rng.Intn(3); k > 0; k-- {
				e, ok := fresh()
				if !ok {
					continue
				}
				dup := false
				for _, x := range o.es {
					dup = dup || x.bits == e.bits
				}
				if !dup {
					o.es = append(o.es, e)
				}
			}
		}
		if len(o.es) == 0 {
			continue
		}
		o.s = subs(t, o.es)
		for k := range all {
			apply(engs[k], nil, o)
		}
		t.Count([]string{"additions", "deletions"}[o.kind], len(o.es))
		for _, e := range o.es {
			if o.kind == 0 {
				if !has[e.bits] {
					has[e.bits] = true
					held = append(held, e)
				}
				continue
			}
			for k, h := range held {
				if h.bits == e.bits && h.uri == e.uri {
					held = append(held[:k:k], held[k+1:]...)
					delete(has, e.bits)
					break
				}
			}
		}
		if t.Rng.Intn(4) == 0 {
			for _, tag := range tags(w, held, 4) {
				for k := range all {
					engs[k].Search(re(tag))
				}
				t.Count("searches_between", len(all))
			}
		}
		if len(held) > 0 && i%2 == 0 { // tags never seen before, also ones that match
			tag := w.TagFor(held[t.Rng.Intn(len(held))].pat)
			if n := len(tag.ID); n >= 8 && t.Rng.Intn(2) == 0 {
				t.Rng.Read(tag.ID[n-4:])
			}
			for k := range all {
				engs[k].Search(re(tag))
			}
			t.Count("searches_between", len(all))
		}
		if i == steps/4 {
			base = heap()
		}
		if i%(steps/10) == steps/10-1 && !check(i+1) {
			return
		}
	}
	if !check(steps) {
		return
	}
	if h := heap(); h > base+(400<<10)+uint64(t.N(0, 1200<<10)) {
		t.Fail("the heap in use grew from %d to %d bytes over %d updates, with %d subscriptions held", base, h, steps-steps/4, len(held))
		return
	} else if h > base {
		t.State("heap_growth_kib", fmt.Sprint((h-base)>>10))
	} else {
		t.State("heap_growth_kib", "none")
	}
	runtime.KeepAlive(engs)
	t.Distinct(s0, window, style, held)
	t.Sample("%d updates over a window of %d, %d held at the end: %s", steps, window, len(held), show(subs(t, held)))
}

func f06(t *core.T) {
	if t.Index%200 == 66 {
		inLarge(t)
		return
	}
	if t.Index%13 == 5 {
		f06elsewhere(t)
		return
	}
	n := size(t)
	if n > 60 {
		n = 60
	}
	w, es := pool(t, n)
	start := es[:t.Rng.Intn(len(es)+1)]
	ts := tags(w, es, 8+2*len(es))
	before, _ := history(t, es, start, t.Rng.Intn(8))
	mid := modelOf(start)
	for _, o := range before {
		for _, e := range o.es {
			if o.kind == 0 {
				mid.add(e)
			} else {
				mid.del(e)
			}
		}
	}
	var held []entry
	for _, p := range mid.pats {
		b := p.Bits()
		if u, ok := mid.bits[b]; ok && mid.text[u][p.String()] {
			held = append(held, entry{p, b, u})
		}
	}
	after, _ := history(t, es, held, 1+t.Rng.Intn(6))
	other := entries(oracle.NewWorld(t.Rng, 3), t.Rng.Intn(8), 4)
	t.Note("initial %s", show(subs(t, start)))
	for i, o := range before {
		t.Note("before save %d %s %s", i, []string{"add", "delete"}[o.kind], show(o.s))
	}
	for i, o := range after {
		t.Note("after restore %d %s %s", i, []string{"add", "delete"}[o.kind], show(o.s))
	}
	for _, c := range all {
		eng := c.mk(subs(t, start))
		m := modelOf(start)
		for _, o := range before {
			apply(eng, m, o)
		}
		for i := 0; i < t.Rng.Intn(30); i++ {
			eng.Search(re(ts[t.Rng.Intn(len(ts))]))
		}
		data, err := eng.MarshalBinary()
		if err != nil {
			t.Fail("%s: saving fails: %v", c.name, err)
			return
		}
		t.Count("saves", 1)
		keep := append([]byte{}, data...)
		var viaGob bytes.Buffer
		if err := gob.NewEncoder(&viaGob).Encode(eng); err != nil {
			t.Fail("%s: gob encoding fails: %v", c.name, err)
			return
		}
		// targets: empty ones, one already filled, and one restored twice
		targets := []filtering.Engine{c.zero(), c.mk(filtering.Subscriptions{}), c.mk(subs(t, other)), c.mk(subs(t, es))}
		names := []string{"zero value", "empty engine", "engine filled with others", "engine filled with the pool"}
		for k, x := range targets {
			if k == 3 {
				if err := gob.NewDecoder(bytes.NewReader(viaGob.Bytes())).Decode(x); err != nil {
					t.Fail("%s: gob decoding fails: %v", c.name, err)
					return
				}
			} else if err := x.UnmarshalBinary(data); err != nil {
				t.Fail("%s: restoring into %s fails: %v", c.name, names[k], err)
				return
			}
			t.Count("restores", 1)
			if !bytes.Equal(keep, data) {
				t.Fail("%s: restoring changed the saved data", c.name)
				return
			}
			if x.Name() != eng.Name() {
				t.Fail("%s: restored engine is named %s", c.name, x.Name())
			}
			if !probe(t, x, c.name, m, ts, "restored into "+names[k]) {
				return
			}
		}
		if !probe(t, eng, c.name, m, ts, "the saved engine") {
			return
		}
		// the same further updates on all
		m2 := m.clone()
		for i, o := range after {
			apply(eng, m2, o)
			for k, x := range targets {
				if k == 0 && t.Rng.Intn(2) == 0 && i == 0 {
					// a restore again replaces what was there
					if err := x.UnmarshalBinary(data); err != nil {
						t.Fail("%s: restoring again fails: %v", c.name, err)
						return
					}
				}
				apply(x, nil, o)
				if !probe(t, x, c.name, m2, ts[:len(ts)/2+1], fmt.Sprintf("restored into %s, after update %d", names[k], i)) {
					return
				}
			}
		}
		if !probe(t, eng, c.name, m2, ts, "the saved engine, after updates") {
			return
		}
		// what was saved is as of then
		x := c.zero()
		if err := x.UnmarshalBinary(data); err != nil {
			t.Fail("%s: restoring later fails: %v", c.name, err)
			return
		}
		if !probe(t, x, c.name, m, ts, "restored later from the earlier save") {
			return
		}
	}
	if len(held) > 1 {
		t.Distinct(start, before, after)
	}
	t.Sample("%d initial, %d updates, save, restore into 4 targets, %d further updates", len(start), len(before), len(after))
}

func f07(t *core.T) {
	n := t.Rng.Intn(14)
	_, es := pool(t, n)
	start := es[:t.Rng.Intn(len(es)+1)]
	ops, _ := history(t, es, start, t.Rng.Intn(6))
	saved := map[string][]byte{}
	t.Note("initial %s", show(subs(t, start)))
	for _, c := range all {
		eng := c.mk(subs(t, start))
		for _, o := range ops {
			apply(eng, nil, o)
		}
		d, err := eng.MarshalBinary()
		if err != nil {
			t.Fail("%s: saving fails: %v", c.name, err)
			return
		}
		saved[c.name] = d
	}
	for _, c := range all {
		d := saved[c.name]
		// cut short
		step := 1
		if len(d) > 1500 {
			step = 1 + len(d)/1500
		}
		for k := 0; k < len(d); k += step {
			for _, x := range []filtering.Engine{c.zero(), c.mk(subs(t, es))} {
				t.Eval(1)
				if err := x.UnmarshalBinary(append([]byte{}, d[:k]...)); err == nil {
					t.Fail("%s: data cut to %d of %d bytes is accepted: %x", c.name, k, len(d), d[:k])
					return
				}
				if k%16 != 0 {
					break
				}
			}
			t.Count("truncations_refused", 1)
		}
		// of another kind
		for _, o := range all {
			if o.name == c.name {
				continue
			}
			t.Eval(1)
			if err := c.zero().UnmarshalBinary(saved[o.name]); err == nil {
				t.Fail("%s accepts data saved by %s", c.name, o.name)
				return
			}
			if err := c.mk(subs(t, es)).UnmarshalBinary(saved[o.name]); err == nil {
				t.Fail("filled %s accepts data saved by %s", c.name, o.name)
				return
			}
			t.Count("foreign_refused", 2)
		}
		// corrupted: only a normal return is required
		for k := 0; k < t.N(60, 300); k++ {
			x := append([]byte{}, d...)
			for j := 1 + t.Rng.Intn(4); j > 0; j-- {
				p := t.Rng.Intn(len(x))
				switch t.Rng.Intn(4) {
				case 0:
					x[p] ^= 1 << uint(t.Rng.Intn(8))
				case 1:
					x[p] = []byte{0, 255, 127, 128, 248, 1}[t.Rng.Intn(6)]
				case 2:
					x = append(x[:p:p], x[p+1:]...)
				case 3:
					x = append(x[:p:p], append([]byte{byte(t.Rng.Intn(256))}, x[p:]...)...)
				}
				if len(x) == 0 {
					break
				}
			}
			t.Eval(1)
			if err := c.zero().UnmarshalBinary(x); err != nil {
				t.Count("corruptions_refused", 1)
			} else {
				t.Count("corruptions_accepted", 1)
			}
		}
		for k := 0; k < 20; k++ {
			x := make([]byte, t.Rng.Intn(64))
			t.Rng.Read(x)
			c.zero().UnmarshalBinary(x)
			t.Eval(1)
		}
		t.Distinct(c.name, d)
	}
	// a subscription set
	s := subs(t, es)
	d, err := s.MarshalBinary()
	if err != nil {
		t.Fail("saving a subscription set fails: %v", err)
		return
	}
	for k := 0; k < len(d); k++ {
		t.Eval(1)
		if err := (filtering.Subscriptions{}).UnmarshalBinary(append([]byte{}, d[:k]...)); err == nil {
			t.Fail("subscription set data cut to %d of %d bytes is accepted: %s", k, len(d), show(s))
			return
		}
		t.Count("set_truncations_refused", 1)
	}
	for k := 0; k < 60; k++ {
		x := append([]byte{}, d...)
		x[t.Rng.Intn(len(x))] ^= byte(1 + t.Rng.Intn(255))
		(filtering.Subscriptions{}).UnmarshalBinary(x)
		t.Eval(1)
	}
	t.Sample("%d subscriptions; saved sizes List %d, PatriciaTrie %d, SplayTree %d, Legacy %d, every cut point", len(es), len(saved["List"]), len(saved["PatriciaTrie"]), len(saved["SplayTree"]), len(saved["LegacyEngine"]))
}

func f08(t *core.T) {
	n := size(t)
	if n > 40 {
		n = 40
	}
	w, es := pool(t, n)
	m := modelOf(es)
	ts := tags(w, es, 10+2*len(es))
	bad := func(k int) filtering.Subscriptions {
		s := filtering.Subscriptions{}
		for i := 0; i < k; i++ {
			x := w.Malformed()
			u := uri(700 + t.Rng.Intn(3))
			if t.Rng.Intn(2) == 0 && len(es) > 0 {
				u = es[t.Rng.Intn(len(es))].uri
			}
			s[u] = append(s[u], x)
			t.Count("malformed_patterns", 1)
			t.State("malformed_texts", x)
		}
		return s
	}
	mix := func(a, b filtering.Subscriptions) filtering.Subscriptions {
		r := filtering.Subscriptions{}
		for k, v := range a {
			r[k] = append(r[k], v...)
		}
		for k, v := range b {
			r[k] = append(r[k], v...)
		}
		for _, v := range r {
			t.Rng.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
		}
		return r
	}
	b1, b2, b3, b4 := bad(1+t.Rng.Intn(12)), bad(1+t.Rng.Intn(12)), bad(1+t.Rng.Intn(12)), bad(1+t.Rng.Intn(3))
	half := len(es) / 2
	s1 := mix(subs(t, es[:half]), b1)
	s2 := mix(subs(t, es[half:]), b2)
	rm := subs(t, es[:half])
	t.Note("build with %s", show(s1))
	t.Note("add %s", show(s2))
	t.Note("delete %s", show(b3))
	for _, c := range binary {
		eng := c.mk(s1)
		m1 := modelOf(es[:half])
		if !probe(t, eng, c.name, m1, ts, "built with malformed patterns") {
			return
		}
		eng.AddSubscription(s2)
		if !probe(t, eng, c.name, m, ts, "after adding malformed patterns") {
			return
		}
		eng.DeleteSubscription(b3)
		eng.DeleteSubscription(mix(b1, b2))
		if !probe(t, eng, c.name, m, ts, "after deleting malformed patterns") {
			return
		}
		eng.DeleteSubscription(mix(rm, b4))
		m2 := modelOf(es[half:])
		if !probe(t, eng, c.name, m2, ts, "after deleting well-formed and malformed patterns") {
			return
		}
		// nothing but malformed patterns
		eng = c.mk(b4)
		if !probe(t, eng, c.name, newModel(), ts, "built from malformed patterns only") {
			return
		}
		eng.AddSubscription(subs(t, es))
		if !probe(t, eng, c.name, m, ts, "built from malformed patterns only, then filled") {
			return
		}
	}
	// the text engine, too, still reports what the well-formed ones ask for; what it makes of the others is its own affair
	eng := legacy.mk(s1)
	ml := modelOf(es[:half])
	beside := func(m *model, bad []filtering.Subscriptions, where string) bool {
		for _, tag := range ts {
			_, uris, err := eng.Search(re(tag))
			_, _, open := oracle.Decode(tag.PC, tag.ID)
			got := map[string]bool{}
			for _, u := range uris {
				got[u] = true
			}
			w := m.wantText(tag)
			t.Eval(1)
			for u := range w {
				if !got[u] && !open {
					t.Fail("LegacyEngine %s: tag %v is not reported to %s, only to %q (err %v)", where, tag, u, uris, err)
					return false
				}
			}
			for u := range got {
				may := w[u] > 0
				for _, b := range bad {
					may = may || len(b[u]) > 0
				}
				if !may {
					t.Fail("LegacyEngine %s: tag %v is reported to %s", where, tag, u)
					return false
				}
			}
			t.Count("text_searches_beside_malformed", 1)
		}
		return true
	}
	if !beside(ml, []filtering.Subscriptions{b1}, "built with malformed patterns") {
		return
	}
	eng.AddSubscription(s2)
	if !beside(m, []filtering.Subscriptions{b1, b2}, "after adding malformed patterns") {
		return
	}
	eng.DeleteSubscription(b3)
	eng.DeleteSubscription(mix(b1, b2))
	if !beside(m, []filtering.Subscriptions{b1, b2}, "after deleting malformed patterns") {
		return
	}
	eng.DeleteSubscription(mix(rm, b4))
	if !beside(modelOf(es[half:]), []filtering.Subscriptions{b1, b2}, "after deleting well-formed and malformed patterns") {
		return
	}
	t.Distinct(s1, s2, b3)
	t.Sample("malformed beside %d well-formed: %s", len(es), show(b1))
}

func f09(t *core.T) {
	n := size(t)
	if n > 60 {
		n = 60
	}
	w, es := pool(t, n)
	m := modelOf(es)
	s := subs(t, es)
	t.Note("subscriptions: %s", show(s))
	good := tags(w, es, 6)
	var ts []oracle.Tag
	for i := 0; i < t.N(60, 200); i++ {
		var x oracle.Tag
		l := t.Rng.Intn(33)
		if t.Rng.Intn(20) == 0 {
			l = t.Rng.Intn(200)
		}
		id := make([]byte, l)
		t.Rng.Read(id)
		switch t.Rng.Intn(6) {
		case 0: // random
		case 1: // a prefix of a real tag
			if len(es) > 0 {
				g := w.TagFor(es[t.Rng.Intn(len(es))].pat)
				id = append([]byte{}, g.ID[:t.Rng.Intn(len(g.ID)+1)]...)
			}
		case 2: // a real tag, continued
			if len(es) > 0 {
				g := w.TagFor(es[t.Rng.Intn(len(es))].pat)
				id = append(append([]byte{}, g.ID...), id...)
			}
		case 3: // exactly the bits of a pattern, whole bytes of it, or one bit less
			if len(es) > 0 {
				b := es[t.Rng.Intn(len(es))].bits
				b = b[:len(b)-len(b)%8]
				if len(b) >= 8 && t.Rng.Intn(2) == 0 {
					b = b[:len(b)-8]
				}
				id = oracle.Bytes(b)
			}
		case 4: // header then random
			if l > 0 {
				id[0] = []byte{0x30, 0x31, 0x33, 0x34, 0x35, 0x2f}[t.Rng.Intn(6)]
			}
		case 5: // all ones or zeros
			for k := range id {
				id[k] = byte(-(t.Rng.Intn(2) & 1))
				if k > 0 {
					id[k] = id[0]
				}
			}
		}
		x.ID = id
		switch t.Rng.Intn(6) {
		case 0:
			x.PC = make([]byte, t.Rng.Intn(5))
			t.Rng.Read(x.PC)
		case 1:
			x.PC = nil
		case 2:
			x.PC = []byte{byte(t.Rng.Intn(256)), byte(t.Rng.Intn(256))}
		case 3:
			x.PC = []byte{1, byte(0xA0 + t.Rng.Intn(12))}
		default:
			x.PC = []byte{0x30, 0}
		}
		if t.Rng.Intn(30) == 0 {
			x.ID = nil
		}
		ts = append(ts, x)
	}
	for _, c := range all {
		eng := c.mk(s)
		for i, tag := range ts {
			if !search(t, eng, c.name, tag, want(m, c.name, tag), "with arbitrary tag bytes") {
				return
			}
			t.State("identifier_lengths", len(tag.ID))
			if i%15 == 0 && !probe(t, eng, c.name, m, good, "after arbitrary tag bytes") {
				return
			}
		}
		if !probe(t, eng, c.name, m, good, "after arbitrary tag bytes") {
			return
		}
		t.Count("hostile_reads", len(ts))
	}
	t.Distinct(s, ts)
	t.Sample("%d subscriptions, e.g. tag pc=%x id=%x", len(es), ts[0].PC, ts[0].ID)
}

func equalSubs(a, b filtering.Subscriptions) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		x, ok := b[k]
		if !ok || len(x) != len(v) {
			return false
		}
		for i := range v {
			if v[i] != x[i] {
				return false
			}
		}
	}
	return true
}

func deepCopy(a filtering.Subscriptions) filtering.Subscriptions {
	r := filtering.Subscriptions{}
	for k, v := range a {
		r[k] = append([]string{}, v...)
	}
	return r
}

// shared gives each destination's slice spare capacity filled with sentinels
func shared(t *core.T, s filtering.Subscriptions) (filtering.Subscriptions, map[string][]string) {
	r := filtering.Subscriptions{}
	back := map[string][]string{}
	for k, v := range s {
		b := make([]string, len(v)+4)
		copy(b, v)
		for i := len(v); i < len(b); i++ {
			b[i] = "sentinel"
		}
		back[k] = b
		r[k] = b[:len(v)]
	}
	return r, back
}

func f10(t *core.T) {
	n := size(t)
	if n > 30 {
		n = 30
	}
	w, es := pool(t, n)
	if t.Rng.Intn(4) > 0 { // few destinations, so that slices are appended to
		for i := range es {
			es[i].uri = uri(t.Rng.Intn(3))
		}
	}
	ts := tags(w, es, 8+2*len(es))
	start := es[:t.Rng.Intn(len(es)+1)]
	ops, _ := history(t, es, start, 2+t.Rng.Intn(10))
	t.Note("initial %s", show(subs(t, start)))
	for i, o := range ops {
		t.Note("op %d %s: %s", i, []string{"add", "delete"}[o.kind], show(o.s))
	}
	for _, c := range all {
		m := modelOf(start)
		s0, back := shared(t, subs(t, start))
		if t.Rng.Intn(4) == 0 {
			s0[uri(900)] = []string{}
		}
		copy0 := deepCopy(s0)
		check := func(where string, s, was filtering.Subscriptions, back map[string][]string) bool {
			t.Eval(1)
			t.Count("isolation_checks", 1)
			if !equalSubs(s, was) {
				t.Fail("%s %s: the caller's set changed from %s to %s", c.name, where, show(was), show(s))
				return false
			}
			for k, b := range back {
				for i := len(was[k]); i < len(b); i++ {
					if b[i] != "sentinel" {
						t.Fail("%s %s: memory after the caller's slice for %s was overwritten with %q", c.name, where, k, b[i])
						return false
					}
				}
			}
			return true
		}
		eng := c.mk(s0)
		if !check("building", s0, copy0, back) {
			return
		}
		probe(t, eng, c.name, m, ts, "built")
		if !check("searching", s0, copy0, back) {
			return
		}
		for i, o := range ops {
			so, bo := shared(t, o.s)
			was := deepCopy(so)
			if o.kind == 0 {
				eng.AddSubscription(so)
			} else {
				eng.DeleteSubscription(so)
			}
			apply2(m, o)
			w := fmt.Sprintf("op %d", i)
			if !check(w, so, was, bo) || !check(w+" (initial set)", s0, copy0, back) {
				return
			}
			// the caller reuses its sets
			if t.Rng.Intn(2) == 0 {
				scribble(t, so, bo)
				if !probe(t, eng, c.name, m, ts[:len(ts)/2], w+", after the caller changed the set it had passed") {
					return
				}
			}
			if i == len(ops)/2 {
				scribble(t, s0, back)
				copy0 = deepCopy(s0)
				back = nil
			}
		}
		if !probe(t, eng, c.name, m, ts, "after the caller changed its sets") {
			return
		}
		data, _ := eng.MarshalBinary()
		check("saving", s0, copy0, back)
		x := c.mk(s0)
		x.UnmarshalBinary(data)
		check("restoring", s0, copy0, back)
		if !probe(t, x, c.name, m, ts, "restored") {
			return
		}
		// two engines from one set do not influence each other
		s1 := subs(t, start)
		a, b := c.mk(s1), c.mk(s1)
		ma := modelOf(start)
		for _, o := range ops {
			apply(a, ma, o)
		}
		if !probe(t, b, c.name, modelOf(start), ts, "untouched twin") || !probe(t, a, c.name, ma, ts, "updated twin") {
			return
		}
		t.Count("twins", 1)
	}
	// copies and saved sets
	s := subs(t, es)
	if t.Rng.Intn(3) == 0 {
		s[uri(901)] = []string{}
	}
	if t.Rng.Intn(3) == 0 {
		s[""] = []string{"", "x"}
	}
	was := deepCopy(s)
	cl := s.Clone()
	t.Eval(1)
	if !equalSubs(cl, s) {
		t.Fail("a copy differs: %s, want %s", show(cl), show(s))
		return
	}
	scribble(t, cl, nil)
	if !equalSubs(s, was) {
		t.Fail("changing a copy changed the original")
		return
	}
	cl = s.Clone()
	for k := range s {
		if len(s[k]) > 0 {
			s[k][0] = "changed"
		}
		s[k] = append(s[k], "more")
	}
	if !equalSubs(cl, was) {
		t.Fail("changing the original changed the copy")
		return
	}
	data, err := was.MarshalBinary()
	if err != nil {
		t.Fail("saving a set: %v", err)
		return
	}
	got := filtering.Subscriptions{}
	if err := got.UnmarshalBinary(data); err != nil || !equalSubs(got, was) {
		t.Fail("a saved and restored set is %s (err %v), want %s", show(got), err, show(was))
		return
	}
	// the lists of a copied or restored set do not share memory either
	for i, x := range []filtering.Subscriptions{got, was.Clone()} {
		ref := deepCopy(was)
		for _, k := range sortedKeys(x) {
			x[k] = append(x[k], "one more for "+k)
			ref[k] = append(ref[k], "one more for "+k)
			if len(x[k]) > 1 && t.Rng.Intn(2) == 0 {
				x[k][0], ref[k][0] = "changed", "changed"
			}
		}
		if !equalSubs(x, ref) {
			t.Fail("appending to the lists of a %s set gave %s, want %s", []string{"restored", "copied"}[i], show(x), show(ref))
			return
		}
	}
	t.Count("set_round_trips", 1)
	if len(es) > 1 {
		t.Distinct(es, ops)
	}
	t.Sample("%d initial, %d updates with sentinel-guarded slices", len(start), len(ops))
}

func apply2(m *model, o op) {
	for _, e := range o.es {
		if o.kind == 0 {
			m.add(e)
		} else {
			m.del(e)
		}
	}
}

// scribble changes everything the caller can change in its set
func scribble(t *core.T, s filtering.Subscriptions, back map[string][]string) {
	for k := range s {
		for i := range s[k] {
			s[k][i] = "urn:epc:pat:sgtin-96:7"
		}
		s[k] = append(s[k], "urn:epc:pat:iso17365:0")
		for i := range back[k] {
			back[k][i] = "urn:epc:pat:sscc-96:0"
		}
		if t.Rng.Intn(3) == 0 {
			delete(s, k)
		}
	}
	s[uri(950)] = []string{"urn:epc:pat:giai-96:1"}
}

// coinciding draws fully specified patterns, on which text and bit semantics coincide
func coinciding(w *oracle.World, n, uris int) []entry {
	var es []entry
	for _, p := range w.Coinciding(n) {
		es = append(es, entry{p, p.Bits(), uri(w.R.Intn(uris))})
	}
	return es
}

func f12(t *core.T) {
	w := oracle.NewWorld(t.Rng, 3)
	w.FVs = w.FVs[:1]
	n := size(t)
	if n > 80 {
		n = 80
	}
	es := coinciding(w, n, 1+t.Rng.Intn(20))
	if t.Rng.Intn(4) == 0 {
		respell(t, w, es)
	}
	start := es[:t.Rng.Intn(len(es)+1)]
	ops, _ := history(t, es, start, t.Rng.Intn(10))
	s0 := subs(t, start)
	t.Note("initial %s", show(s0))
	for i, o := range ops {
		t.Note("op %d %s: %s", i, []string{"add", "delete"}[o.kind], show(o.s))
	}
	ts := tags(w, es, 10+2*len(es))
	m := modelOf(start)
	var names []string
	engs := map[string]filtering.Engine{}
	for name, mk := range filtering.AvailableEngines {
		engs[name] = mk(s0)
		names = append(names, name)
		if engs[name].Name() != name {
			t.Fail("engine registered as %q names itself %q", name, engs[name].Name())
		}
	}
	if len(engs) < 2 {
		t.Fail("%d engines registered", len(engs))
		return
	}
	compare := func(where string) bool {
		for _, tag := range ts {
			wb, wt := m.wantBits(tag), m.wantText(tag)
			if !sameKeys(wb, wt) { // text and bit semantics differ on this tag
				t.Count("skipped_not_coinciding", 1)
				continue
			}
			var first string
			for i, name := range names {
				id, uris, err := engs[name].Search(re(tag))
				w := wb
				if name == "LegacyEngine" { // a destination may be listed once per pattern of its own that matches as text
					w = wt
				}
				if !judge(t, name, tag, w, where, id, uris, err) {
					return false
				}
				if len(wb) == 0 {
					id = "" // without a match only the error and the absence of destinations count
				}
				set := map[string]int{}
				for _, u := range uris {
					set[u]++
				}
				ans := fmt.Sprint(id, keys(set), err != nil)
				if i == 0 {
					first = ans
				} else if ans != first {
					t.Fail("%s: %s and %s disagree on tag %v: %s / %s", where, names[0], name, tag, first, ans)
					return false
				}
			}
			t.Count("comparisons", 1)
		}
		return true
	}
	if !compare("initially") {
		return
	}
	for i, o := range ops {
		for _, e := range engs {
			apply(e, nil, o)
		}
		apply2(m, o)
		if !compare(fmt.Sprintf("after op %d", i)) {
			return
		}
	}
	if len(es) > 1 {
		t.Distinct(start, ops)
	}
	t.Sample("%d subscriptions of fully specified patterns, %d updates: %s", len(es), len(ops), show(s0))
}

// f15: destinations sharing a pattern
func f15(t *core.T) {
	n := 1 + t.Rng.Intn(8)
	w, es := pool(t, n)
	if len(es) == 0 {
		return
	}
	// which patterns are shared, by how many
	holders := map[string]map[string]bool{}
	pats := map[string]oracle.Pat{}
	for _, e := range es {
		holders[e.bits] = map[string]bool{e.uri: true}
		pats[e.bits] = e.pat
	}
	var extra []entry
	for i := 0; i < 1+t.Rng.Intn(3); i++ {
		e := es[t.Rng.Intn(len(es))]
		for j := 0; j < 1+t.Rng.Intn(2); j++ {
			x := e
			x.uri = uri(300 + t.Rng.Intn(6))
			if !holders[x.bits][x.uri] {
				holders[x.bits][x.uri] = true
				extra = append(extra, x)
			}
		}
	}
	later := t.Rng.Intn(2) == 0
	ts := tags(w, es, 10)
	for _, e := range extra {
		ts = append(ts, w.TagFor(e.pat))
	}
	t.Note("patterns %s", show(subs(t, es)))
	t.Note("sharers (added later: %v) %s", later, show(subs(t, extra)))
	for _, c := range all {
		var eng filtering.Engine
		if later {
			eng = c.mk(subs(t, es))
			for _, e := range extra {
				eng.AddSubscription(subs(t, []entry{e}))
			}
		} else {
			eng = c.mk(subs(t, append(append([]entry{}, es...), extra...)))
		}
		for _, tag := range ts {
			_, uris, err := eng.Search(re(tag))
			t.Eval(1)
			got := map[string]bool{}
			for _, u := range uris {
				got[u] = true
			}
			wantAll := map[string]bool{}
			some := true
			id, ok, _ := oracle.Decode(tag.PC, tag.ID)
			for b, us := range holders {
				match := oracle.MatchBits(b, tag.ID)
				if c.name == "LegacyEngine" {
					match = ok && strings.HasPrefix(strings.TrimPrefix(id, "urn:epc:id:"), pats[b].Text())
				}
				if !match {
					continue
				}
				one := false
				for u := range us {
					wantAll[u] = true
					one = one || got[u]
				}
				if len(us) > 1 {
					t.Count("shared_matches", 1)
				}
				some = some && one
			}
			for u := range got {
				if !wantAll[u] {
					t.Fail("%s: tag %v reported to %s, which holds no matching pattern (later=%v, err %v)", c.name, tag, u, later, err)
					return
				}
			}
			if !some {
				t.Fail("%s: a pattern matching tag %v is reported to none of its destinations; got %q, holders %v (later=%v)", c.name, tag, uris, holders, later)
				return
			}
			if len(got) != len(wantAll) { // some of the sharers are missing
				when := "at-build"
				if later {
					when = "by-addition"
				}
				if c.name == "LegacyEngine" {
					t.Fail("%s: tag %v reported to %q, not to all holders %v of the shared pattern (%s)", c.name, tag, uris, wantAll, when)
					return
				}
				t.Finding(c.name+":"+when, fmt.Sprintf("%s reports a tag to only one of the destinations sharing a pattern (%s)", c.name, strings.Replace(when, "-", " ", 1)))
			}
		}
	}
	t.Distinct(es, extra, later)
	t.Sample("%d patterns, %d sharers, added later: %v", len(es), len(extra), later)
}

func main() {
	if f := os.Getenv("VERIF_ELSEWHERE"); f != "" {
		elsewhere(f)
	}
	eng := "engines of /repo/filtering built for real; oracle: bit/text prefix model in harness/oracle"
	core.Main(
		&core.Check{ID: "F01", Quick: 6000, Thorough: 400000, Case: f01, Require: []string{"large_sets", "matching_searches", "nonmatching_searches", "nested_matches"},
			Rule: "a case is one generated subscription set (0-180 patterns of all types and depths, from pools that nest and share prefixes) searched with 12+2n related tags on 3 engines; non-trivial: two or more subscriptions; evaluations are judged searches", Assum: []string{eng}},
		&core.Check{ID: "F02", Quick: 24000, Thorough: 600000, Case: f02, Require: []string{"no_patterns", "matching_searches", "nonmatching_searches"},
			Rule: "a case is one generated set, some patterns shared by destinations, some of unknown type, searched with related, truncated and re-familied tags; non-trivial: two or more subscriptions", Assum: []string{eng}},
		&core.Check{ID: "F03", Quick: 4000, Thorough: 60000, Case: f03, Require: []string{"matching_searches", "updates_between_searches", "tree_shapes", "endless_histories"},
			Rule: "a case is one set and a history of 150 (600, sometimes twenty times as many or over 70000) searches, uniform, skewed, alternating or in bursts, each judged, on 4 engines; non-trivial: two or more subscriptions", Assum: []string{eng}},
		&core.Check{ID: "F04", Quick: 4000, Thorough: 120000, Case: f04, Require: []string{"large_sets", "matching_searches", "additions"},
			Rule: "a case is an initial set and an order and batching of additions (random, longest first, shortest first, repeats), probed in between, on 4 engines; non-trivial: two or more additions", Assum: []string{eng}},
		&core.Check{ID: "F05", Quick: 4000, Thorough: 100000, Case: f05, Require: []string{"large_sets", "matching_searches", "additions", "deletions", "times_emptied"},
			Rule: "a case is an initial set and a mixed history of additions and deletions (present, absent, foreign, all) probed after each, on 4 engines, compared with the model and with a fresh build at the end", Assum: []string{eng}},
		&core.Check{ID: "F06", Quick: 2400, Thorough: 60000, Case: f06, Require: []string{"large_sets", "matching_searches", "saves", "restores", "restored_in_another_process"},
			Rule: "a case is an engine state (set, updates, searches), its save, restores into four targets and identical further updates on all; in every thirteenth case the restores, searches and further updates are done by another process, and what that one saves is restored here; non-trivial: two or more subscriptions held", Assum: []string{eng}},
		&core.Check{ID: "F07", Quick: 400, Thorough: 4000, Case: f07, MemLimit: 8 << 30, Require: []string{"truncations_refused", "foreign_refused", "set_truncations_refused", "corruptions_refused"},
			Rule: "a case is the saved data of 4 engines in one state: every cut point, every other kind, random corruptions; distinct by saved data", Assum: []string{eng}},
		&core.Check{ID: "F08", Quick: 8000, Thorough: 100000, Case: f08, Require: []string{"text_searches_beside_malformed", "matching_searches", "malformed_patterns", "malformed_texts"},
			Rule: "a case mixes 4 draws of malformed patterns of 26 classes with a well-formed set at build, add and delete on 3 engines; distinct by the sets", Assum: []string{eng}},
		&core.Check{ID: "F09", Quick: 10000, Thorough: 80000, Case: f09, Require: []string{"matching_searches", "hostile_reads", "identifier_lengths"},
			Rule: "a case is a set searched with 60 (200) hostile reads: random, truncated, extended, exact-length, odd protocol-control bytes, on 4 engines, with good tags in between; distinct by set and reads", Assum: []string{eng}},
		&core.Check{ID: "F10", Quick: 6000, Thorough: 80000, Case: f10, Require: []string{"isolation_checks", "twins", "set_round_trips"},
			Rule: "a case is an update history on 4 engines with the caller's slices guarded by sentinels and scribbled over afterwards, plus copy and save of sets; non-trivial: two or more subscriptions", Assum: []string{eng}},
		&core.Check{ID: "F11", Quick: 20000, Thorough: 100000, Case: f11, Require: []string{"rows_with_patterns", "rows_without"},
			Rule: "a case is one generated CSV file written to a scratch directory and loaded; non-trivial: at least one row with patterns"},
		&core.Check{ID: "F12", Quick: 6000, Thorough: 100000, Case: f12, Require: []string{"matching_searches", "comparisons"},
			Rule: "a case is a set of fully specified patterns, an update history and related tags on every registered engine; tags on which text and bit semantics differ are skipped and counted; non-trivial: two or more subscriptions", Assum: []string{eng}},
		&core.Check{ID: "F13", Quick: 200000, Thorough: 800000, Case: f13, Require: []string{"matches", "mismatches", "bytes_read", "transparent", "offset_residues"},
			Rule: "a case is one filter string of 0,1,x at a bit offset, checked bit by bit against identifiers of every nearby length; distinct by string and offset"},
		&core.Check{ID: "F14", Quick: 60000, Thorough: 400000, Case: f14, Require: []string{"matches", "mismatches", "overlap_partial"},
			Rule: "a case is a set of 1-6 overlapping filters, composed, and identifiers close to them; distinct by the set"},
		&core.Check{ID: "F15", Quick: 30000, Thorough: 100000, Case: f15, Require: []string{"shared_matches"},
			Rule: "a case is a set in which 1-6 destinations share patterns, at build or by later addition, on 4 engines; distinct by set", Assum: []string{eng}},
		&core.Check{ID: "F17", Quick: 5000, Thorough: 60000, Case: f17, Require: []string{"reads_intact", "answers_kept", "answers_overwritten", "answers_checked_later", "matching_searches"},
			Rule: "each case builds every engine from drawn subscriptions and searches drawn reads in changing orders before, between and after updates; reads lie in guarded buffers that are overwritten afterwards, answers are either kept and compared later or overwritten up to their capacity; distinct = subscriptions and updates", Assum: []string{"a caller may keep and change what a search returned"}},
		&core.Check{ID: "F18", Quick: 4000, Thorough: 40000, Case: f18, Require: []string{"dumps_of_bits", "dumps_of_patterns", "nodes_without_destination", "byte_forms_restored", "cut_parts_refused", "matching_searches"},
			Rule: "each case reads back the dump of every engine as built, around each of 1-10 updates with searches in between, and as restored, and compares what it says with what is held; the byte form of the set is saved and restored flat and nested; distinct = subscriptions and updates", Assum: []string{"a dump has a line per node, indented by two below its parent, as the code prints it; nodes without destination may occur"}},
		&core.Check{ID: "F19", Quick: 3000, Thorough: 60000, Case: f19, Require: []string{"matching_searches", "identities_reported"},
			Rule: "each case loads 1-4 subscription files (drawn, or every 41st case one of the benchmark sets of the repository), applies them as sets, additions and deletions to every engine with saving and restoring in between, and searches the tags as they come out of framed reader reports; distinct = files and tags", Assum: []string{eng}},
		&core.Check{ID: "F16", Quick: 240, Thorough: 1200, Case: f16, Require: []string{"matching_searches", "additions", "deletions", "times_emptied", "size_comparisons"},
			Rule: "a case is 5000 (20000) updates on 4 engines over a window of 1-15 fresh and nested subscriptions; ten times saved size and dump are compared with an engine built anew from what is held, and the heap in use at the end with that after a quarter; distinct by start, window and end", Assum: []string{eng}},
		&core.Check{ID: "F20", Quick: 1500, Thorough: 30000, Case: f20, Race: true, Require: []string{"matching_searches", "side_by_side", "interleaved", "saved_and_restored", "dumps_of_bits", "dumps_of_patterns", "sets_restored", "files_loaded", "filters_matched", "same_patterns_for_others"},
			Rule: "each case runs 2 to 8 lanes, each an engine (or subscription sets, files and filters) with a history of its own, both at once from a goroutine each and interleaved on one, in a binary built with the race detector; every answer is judged afterwards by the lane's own history; distinct = histories", Assum: []string{"no two goroutines use the same engine"}},
		r01, r02, r03, r05, r04check,
	)
}
