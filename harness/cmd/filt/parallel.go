package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"

	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/oracle"
)

// lane is what one goroutine, or one strand of an interleaving, does with objects of its own: do runs the next step
// and keeps what it saw, judge is called once all lanes are done. Nothing is shared while they run, the monitors
// included, so that the race detector orders the lanes by nothing but the code under test
type lane struct {
	name  string
	steps []func()
	desc  string
	judge func(where string) bool
	next  int
}

// engineLane takes one engine through updates, searches, dumps, saves and restores
func engineLane(t *core.T, c ctor, es []entry, w *oracle.World) *lane {
	start := es[:t.Rng.Intn(len(es)+1)]
	ts := tags(w, es, 8+len(es))
	ops, _ := history(t, es, start, 3+t.Rng.Intn(8))
	t.Note("lane %s: initial %s", c.name, show(subs(t, start)))
	l := &lane{name: c.name, desc: show(subs(t, start))}
	m := modelOf(start)
	var checks []func(where string) bool
	var eng filtering.Engine
	s0 := subs(t, start)
	l.steps = append(l.steps, func() { eng = c.mk(s0) })
	ask := func(tag oracle.Tag) {
		var identity string
		var uris []string
		var err error
		read := re(tag)
		l.steps = append(l.steps, func() { identity, uris, err = eng.Search(read) })
		now := want(m, c.name, tag)
		checks = append(checks, func(where string) bool {
			return judge(t, c.name, tag, now, where, identity, append([]string{}, uris...), err)
		})
	}
	for i := 0; i < 6; i++ {
		ask(ts[t.Rng.Intn(len(ts))])
	}
	for i, o := range ops {
		o := o
		t.Note("lane %s: op %d %s %s", c.name, i, []string{"add", "delete"}[o.kind], show(o.s))
		l.steps = append(l.steps, func() { apply(eng, nil, o) })
		apply2(m, o)
		for k := 0; k < 4+t.Rng.Intn(6); k++ {
			ask(ts[t.Rng.Intn(len(ts))])
		}
		switch t.Rng.Intn(4) {
		case 0: // go on with what was restored
			var err error
			into := c.zero
			if t.Rng.Intn(2) == 0 {
				into = func() filtering.Engine { return c.mk(s0) }
			}
			l.steps = append(l.steps, func() {
				var data []byte
				if data, err = eng.MarshalBinary(); err == nil {
					x := into()
					if err = x.UnmarshalBinary(data); err == nil {
						eng = x
					}
				}
			})
			checks = append(checks, func(where string) bool {
				if err != nil {
					t.Fail("%s %s: saving and restoring: %v", c.name, where, err)
				}
				t.Count("saved_and_restored", 1)
				return err == nil
			})
		case 1:
			var d string
			l.steps = append(l.steps, func() { d = eng.Dump() })
			now := m.clone()
			checks = append(checks, func(where string) bool { return judgeDump(t, d, c.name, now, where) })
		}
	}
	for _, tag := range ts {
		ask(tag)
	}
	l.judge = func(where string) bool {
		for _, f := range checks {
			if !f(where) {
				return false
			}
		}
		return true
	}
	return l
}

// setLane loads, copies, converts and saves subscription sets
func setLane(t *core.T, dir string, n int, es []entry) *lane {
	es = lowered(es)
	s := subs(t, es)
	l := &lane{name: "sets", desc: show(s)}
	file := filepath.Join(dir, fmt.Sprintf("%d.csv", n))
	if !subsFile(t, file, es) {
		return nil
	}
	var checks []func(where string) bool
	bits := modelOf(es).bits
	for i := 0; i < 6; i++ {
		var got filtering.Subscriptions
		var held map[string]string
		var err error
		kind := t.Rng.Intn(4)
		l.steps = append(l.steps, func() {
			switch kind {
			case 0:
				got = s.Clone()
			case 1:
				var buf bytes.Buffer
				got = filtering.Subscriptions{}
				if err = gob.NewEncoder(&buf).Encode(s); err == nil {
					err = gob.NewDecoder(&buf).Decode(&got)
				}
			case 2:
				got = filtering.LoadSubscriptionsFromCSVFile(file)
			default:
				held = map[string]string{}
				for b, p := range s.ToByteSubscriptions() {
					held[b] = p.ReportURI
				}
			}
		})
		checks = append(checks, func(where string) bool {
			t.Eval(1)
			if err == nil && kind == 3 {
				err = sameBits(held, bits)
			}
			if err != nil {
				t.Fail("sets %s: kind %d: %v", where, kind, err)
				return false
			}
			switch kind {
			case 2: // a row for each part of a destination's patterns, in the order they were drawn
				t.Count("files_loaded", 1)
				gm, wm := map[string]bool{}, map[string]bool{}
				for u, ps := range got {
					for _, p := range ps {
						gm[u+" "+p] = true
					}
				}
				for u, ps := range s {
					for _, p := range ps {
						wm[u+" "+p] = true
					}
				}
				for k := range wm {
					if !gm[k] {
						t.Fail("sets %s: %s was not loaded", where, k)
						return false
					}
				}
				for k := range gm {
					if !wm[k] {
						t.Fail("sets %s: %s was loaded, but is not in the file", where, k)
						return false
					}
				}
			case 0, 1:
				t.Count("sets_restored", 1)
				if !equalSubs(got, s) {
					t.Fail("sets %s: kind %d gave %s, want %s", where, kind, show(got), show(s))
					return false
				}
			}
			return true
		})
	}
	l.judge = func(where string) bool {
		for _, f := range checks {
			if !f(where) {
				return false
			}
		}
		return true
	}
	return l
}

// filterLane makes filters and matches identifiers against them
func filterLane(t *core.T) *lane {
	r := t.Rng
	l := &lane{name: "filters"}
	var checks []func(where string) bool
	for i := 0; i < 12; i++ {
		n, off := 1+r.Intn(60), r.Intn(40)
		s := randFilter(r, n)
		m := required(s, off)
		var ids [][]byte
		for k := 0; k < 6; k++ {
			ids = append(ids, near(r, m, off+n))
		}
		got := make([]bool, len(ids))
		var f *filtering.FilterObject
		l.steps = append(l.steps, func() { f = filtering.NewFilter(s, off) })
		for k := range ids {
			k := k
			l.steps = append(l.steps, func() { got[k] = f.Match(ids[k]) })
		}
		l.desc += s
		checks = append(checks, func(where string) bool {
			for k, id := range ids {
				t.Eval(1)
				t.Count("filters_matched", 1)
				if w := matches(m, id); w != got[k] {
					t.Fail("filters %s: %q at %d on %x: match=%v, want %v", where, s, off, id, got[k], w)
					return false
				}
			}
			return true
		})
	}
	l.judge = func(where string) bool {
		for _, f := range checks {
			if !f(where) {
				return false
			}
		}
		return true
	}
	return l
}

func f20(t *core.T) {
	r := t.Rng
	dir, err := os.MkdirTemp("", "lanes-")
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	build := func() []*lane {
		var ls []*lane
		var w *oracle.World
		var es []entry
		for i, n := 0, 2+r.Intn(7); i < n; i++ {
			if es == nil || r.Intn(2) == 0 {
				w, es = pool(t, 3+r.Intn(14))
			} else { // the same patterns, for other destinations
				x := append([]entry{}, es...)
				for k := range x {
					x[k].uri = fmt.Sprintf("http://lane%d.example.com/%d", i, r.Intn(4))
				}
				r.Shuffle(len(x), func(a, b int) { x[a], x[b] = x[b], x[a] })
				es = x
				t.Count("same_patterns_for_others", 1)
			}
			switch k := r.Intn(8); {
			case k == 0:
				ls = append(ls, filterLane(t))
			case k == 1:
				l := setLane(t, dir, i, es)
				if l == nil {
					return nil
				}
				ls = append(ls, l)
			default:
				ls = append(ls, engineLane(t, all[r.Intn(len(all))], es, w))
			}
		}
		return ls
	}
	// interleaved, a few steps of each at a time
	ls := build()
	if ls == nil {
		return
	}
	left := append([]*lane{}, ls...)
	for len(left) > 0 {
		i := r.Intn(len(left))
		l := left[i]
		for k := 1 + r.Intn(4); k > 0 && l.next < len(l.steps); k-- {
			l.steps[l.next]()
			l.next++
		}
		if l.next == len(l.steps) {
			left = append(left[:i], left[i+1:]...)
		}
	}
	for _, l := range ls {
		if !l.judge(fmt.Sprintf("interleaved with %d others", len(ls)-1)) {
			return
		}
	}
	t.Count("interleaved", len(ls))
	// at once
	if ls = build(); ls == nil {
		return
	}
	yields := make([][]bool, len(ls))
	steps := 0
	for i, l := range ls {
		yields[i] = make([]bool, len(l.steps))
		for k := range yields[i] {
			yields[i][k] = r.Intn(3) == 0
		}
		steps += len(l.steps)
	}
	died := make([]string, len(ls))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i, l := range ls {
		wg.Add(1)
		go func(i int, l *lane) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					died[i] = fmt.Sprint(p)
				}
			}()
			<-gate
			for k, f := range l.steps {
				f()
				if yields[i][k] {
					runtime.Gosched()
				}
			}
		}(i, l)
	}
	close(gate)
	wg.Wait()
	for i, l := range ls {
		if died[i] != "" {
			t.Fail("%s beside %d others: panic: %s", l.name, len(ls)-1, died[i])
			return
		}
		if !l.judge(fmt.Sprintf("beside %d others", len(ls)-1)) {
			return
		}
	}
	t.Count("side_by_side", len(ls))
	desc := ""
	for _, l := range ls {
		desc += l.name + l.desc
	}
	t.Distinct(desc)
	t.Sample("%d lanes at once, %d steps", len(ls), steps)
}
