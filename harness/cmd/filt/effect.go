package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/iomz/go-llrp"

	"verifharness/core"
	"verifharness/oracle"
)

// answer is what one search gave, kept by its caller
type answer struct {
	where    string
	tag      oracle.Tag
	uris     []string // as given
	was      []string // what it held then
	identity string
	id       string
}

// event is a read whose bytes lie in the middle of a larger buffer, as those of an access report do
func event(r *rand.Rand, tag oracle.Tag, buf []byte) (e llrp.ReadEvent, intact func() string) {
	if need := 8 + len(tag.PC) + 8 + len(tag.ID) + 24; len(buf) < need || r.Intn(4) == 0 {
		buf = make([]byte, need)
	}
	for i := range buf {
		buf[i] = byte(0xA0 ^ i*7)
	}
	pc, id := 8, 8+len(tag.PC)+8
	copy(buf[pc:], tag.PC)
	copy(buf[id:], tag.ID)
	e.PC, e.ID = buf[pc:pc+len(tag.PC)], buf[id:id+len(tag.ID)]
	if r.Intn(4) == 0 {
		e.PC, e.ID = e.PC[:len(e.PC):len(e.PC)], e.ID[:len(e.ID):len(e.ID)]
	}
	was := append([]byte{}, buf...)
	return e, func() string {
		if !bytes.Equal(buf, was) {
			return fmt.Sprintf("the buffer of the read (word at %d, identifier at %d) changed from %x to %x", pc, id, was, buf)
		}
		return ""
	}
}

// f17: a search changes nothing, and what it gives is the caller's
func f17(t *core.T) {
	n := size(t)
	if n > 60 {
		n = 60
	}
	w, es := pool(t, n)
	if t.Rng.Intn(3) > 0 { // several patterns of one destination and several destinations of one tag
		for i := range es {
			es[i].uri = uri(t.Rng.Intn(6))
		}
	}
	start := es[:t.Rng.Intn(len(es)+1)]
	if t.Rng.Intn(3) > 0 {
		start = es
	}
	ops, _ := history(t, es, start, 1+t.Rng.Intn(8))
	ts := tags(w, es, 10+2*len(es))
	for i := 0; i < 6; i++ { // reads that are no tags
		x := oracle.Tag{ID: make([]byte, t.Rng.Intn(20)), PC: make([]byte, t.Rng.Intn(4))}
		t.Rng.Read(x.ID)
		t.Rng.Read(x.PC)
		ts = append(ts, x)
	}
	t.Note("initial %s", show(subs(t, start)))
	for i, o := range ops {
		t.Note("op %d %s: %s", i, []string{"add", "delete"}[o.kind], show(o.s))
	}
	body := make([]byte, 100) // most reads come in the same buffer, one after the other
	for _, c := range all {
		eng := c.mk(subs(t, start))
		m := modelOf(start)
		var kept []answer
		one := func(tag oracle.Tag, where string) bool {
			e, intact := event(t.Rng, tag, body)
			identity, uris, err := eng.Search(e)
			if d := intact(); d != "" {
				t.Fail("%s %s: searching %v: %s", c.name, where, tag, d)
				return false
			}
			t.Count("reads_intact", 1)
			if !judge(t, c.name, tag, want(m, c.name, tag), where, identity, uris, err) {
				return false
			}
			if len(uris) > 0 && t.Rng.Intn(3) == 0 {
				t.Count("answers_kept", 1)
				kept = append(kept, answer{where, tag, uris, append([]string{}, uris...), identity, string(append([]byte{}, identity...))})
			} else if len(uris) > 0 { // the caller uses what it was given
				t.Count("answers_overwritten", 1)
				u := uris[:cap(uris)]
				for i := range u {
					u[i] = "overwritten"
				}
			}
			// the buffer is used for the next report
			for i := range e.ID {
				e.ID[i] ^= 0xFF
			}
			for i := range e.PC {
				e.PC[i] ^= 0xFF
			}
			return true
		}
		stable := func(where string) bool {
			for _, a := range kept {
				t.Eval(1)
				if a.identity != a.id {
					t.Fail("%s %s: the identity given for %v %s changed from %q to %q", c.name, where, a.tag, a.where, a.id, a.identity)
					return false
				}
				for i := range a.was {
					if a.uris[i] != a.was[i] {
						t.Fail("%s %s: the destinations given for %v %s changed from %q to %q", c.name, where, a.tag, a.where, a.was, a.uris)
						return false
					}
				}
			}
			t.Count("answers_checked_later", len(kept))
			return true
		}
		round := func(where string, k int) bool {
			for _, i := range t.Rng.Perm(len(ts)) {
				if k == 0 {
					break
				}
				k--
				if !one(ts[i], where) {
					return false
				}
			}
			return stable(where)
		}
		if !round("built", -1) || !round("searched again", -1) {
			return
		}
		for i, o := range ops {
			apply(eng, m, o)
			w := fmt.Sprintf("after update %d", i)
			if !stable(w) || !round(w, len(ts)/2) {
				return
			}
		}
		if !round("at the end", -1) {
			return
		}
	}
	if len(es) > 1 {
		t.Distinct(es, ops)
	}
	t.Sample("%d patterns, %d updates, %d reads searched over and over", len(es), len(ops), len(ts))
}
