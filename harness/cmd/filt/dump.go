package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
)

var dumpLine = regexp.MustCompile(`^( *)(ok|ng|)--([01]*)\((\d+) (\d+)\) ?(?:-> )?(\S*)$`)

// shown reads what the dump of a binary engine says it holds: destinations by full bit prefix
func shown(dump string) (held map[string]string, nodes int, err error) {
	held = map[string]string{}
	type node struct{ before, bits string }
	var path []node
	for _, l := range strings.Split(strings.TrimSuffix(dump, "\n"), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := dumpLine.FindStringSubmatch(l)
		if m == nil {
			return nil, 0, fmt.Errorf("the line %q cannot be read", l)
		}
		nodes++
		depth := len(m[1]) / 2
		if depth > len(path) {
			return nil, 0, fmt.Errorf("the line %q is indented too far", l)
		}
		path = path[:depth]
		before := ""
		if depth > 0 {
			p := path[depth-1]
			before = p.before + p.bits
			if m[2] == "ng" { // stands beside the node above
				before = p.before
			}
		}
		path = append(path, node{before, m[3]})
		off, _ := strconv.Atoi(m[4])
		size, _ := strconv.Atoi(m[5])
		if off != len(before) || size != len(m[3]) {
			return nil, 0, fmt.Errorf("the line %q names offset %d and size %d, but stands at %d and has %d bits", l, off, size, len(before), len(m[3]))
		}
		if m[6] == "" {
			continue
		}
		full := before + m[3]
		if was, ok := held[full]; ok {
			return nil, 0, fmt.Errorf("%s is shown twice, for %s and %s", full, was, m[6])
		}
		held[full] = m[6]
	}
	return held, nodes, nil
}

var textLine = regexp.MustCompile(`^--(\S+) \[(.*)\]$`)

// shownText does it for the text engine: patterns by destination
func shownText(dump string) (map[string]map[string]bool, error) {
	held := map[string]map[string]bool{}
	for _, l := range strings.Split(strings.TrimSuffix(dump, "\n"), "\n") {
		if l == "" {
			continue
		}
		m := textLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("the line %q cannot be read", l)
		}
		ps := map[string]bool{}
		for _, q := range strings.Fields(m[2]) {
			p, err := strconv.Unquote(q)
			if err != nil {
				return nil, fmt.Errorf("the line %q cannot be read", l)
			}
			ps[p] = true
		}
		if held[m[1]] != nil {
			return nil, fmt.Errorf("%s is shown twice", m[1])
		}
		held[m[1]] = ps
	}
	return held, nil
}

// inDump judges an engine's dump
func inDump(t *core.T, eng filtering.Engine, name string, m *model, where string) bool {
	t.Eval(1)
	d := eng.Dump()
	if d2 := eng.Dump(); d2 != d {
		t.Fail("%s %s: two dumps in a row differ: %q and %q", name, where, d, d2)
		return false
	}
	if n := eng.Name(); n != name {
		t.Fail("%s %s is named %s", name, where, n)
		return false
	}
	return judgeDump(t, d, name, m, where)
}

// judgeDump compares a dump with what is held
func judgeDump(t *core.T, d, name string, m *model, where string) bool {
	if name == "LegacyEngine" {
		held, err := shownText(d)
		if err == nil {
			err = sameText(held, m.text)
		}
		if err != nil {
			t.Fail("%s %s: %v in the dump\n%s", name, where, err, d)
			return false
		}
		t.Count("dumps_of_patterns", 1)
		return true
	}
	held, nodes, err := shown(d)
	if err == nil {
		err = sameBits(held, m.bits)
	}
	if err != nil {
		t.Fail("%s %s: %v in the dump\n%s", name, where, err, d)
		return false
	}
	t.Count("dumps_of_bits", 1)
	if nodes > len(held) {
		t.Count("nodes_without_destination", nodes-len(held))
	}
	return true
}

func sameBits(held, want map[string]string) error {
	for b, u := range want {
		if held[b] != u {
			return fmt.Errorf("%s of %s is %q", b, u, held[b])
		}
	}
	for b, u := range held {
		if want[b] != u {
			return fmt.Errorf("%s of %s is not held", b, u)
		}
	}
	return nil
}

func sameText(held, want map[string]map[string]bool) error {
	for u, ps := range want {
		for p := range ps {
			if !held[u][p] {
				return fmt.Errorf("%s of %s is missing", p, u)
			}
		}
	}
	for u, ps := range held {
		for p := range ps {
			if !want[u][p] {
				return fmt.Errorf("%s of %s is not held", p, u)
			}
		}
	}
	return nil
}

// byteForm judges the byte form of a set, and of a nested one made of it, and their saving
func byteForm(t *core.T, es []entry, m *model) bool {
	flat := subs(t, es).ToByteSubscriptions()
	t.Eval(1)
	held := map[string]string{}
	for b, p := range flat {
		if p == nil || p.Offset != 0 || len(p.Subset) != 0 {
			t.Fail("the byte form has %s: %+v", b, p)
			return false
		}
		held[b] = p.ReportURI
	}
	if err := sameBits(held, m.bits); err != nil {
		t.Fail("%v in the byte form", err)
		return false
	}
	if ks := flat.Keys(); len(ks) != len(flat) || !sort.StringsAreSorted(ks) {
		t.Fail("the keys of the byte form are %q", ks)
		return false
	}
	// nest some of them under the longest others that are their prefixes
	nested := filtering.ByteSubscriptions{}
	var nest func(into filtering.ByteSubscriptions, ks []string, off int)
	nest = func(into filtering.ByteSubscriptions, ks []string, off int) {
		for i := 0; i < len(ks); {
			j := i + 1
			for j < len(ks) && strings.HasPrefix(ks[j], ks[i]) && t.Rng.Intn(8) > 0 {
				j++
			}
			p := &filtering.PartialSubscription{Offset: off, ReportURI: m.bits[ks[i]], Subset: filtering.ByteSubscriptions{}}
			into[ks[i][off:]] = p
			nest(p.Subset, ks[i+1:j], len(ks[i]))
			i = j
		}
	}
	nest(nested, flat.Keys(), 0)
	want := map[string]bool{}
	lines(nested, 0, want)
	for _, b := range []filtering.ByteSubscriptions{flat, nested} {
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(b); err != nil {
			t.Fail("saving the byte form: %v", err)
			return false
		}
		got := filtering.ByteSubscriptions{}
		if err := gob.NewDecoder(&buf).Decode(&got); err != nil {
			t.Fail("restoring the byte form: %v", err)
			return false
		}
		if g, w := got.Dump(), b.Dump(); g != w {
			t.Fail("the byte form was restored as\n%sinstead of\n%s", g, w)
			return false
		}
		if d := differs(got, b); d != "" {
			t.Fail("the byte form was not restored: %s", d)
			return false
		}
		t.Count("byte_forms_restored", 1)
	}
	got := map[string]bool{}
	for _, l := range strings.Split(nested.Dump(), "\n") {
		if l != "" {
			got[l] = true
		}
	}
	for l := range want {
		if !got[l] {
			t.Fail("the dump of the byte form misses %q:\n%s", l, nested.Dump())
			return false
		}
	}
	if len(got) != len(want) {
		t.Fail("the dump of the byte form has more than %d lines:\n%s", len(want), nested.Dump())
		return false
	}
	// one of them cut short
	for b, p := range nested {
		data, err := p.MarshalBinary()
		if err != nil {
			t.Fail("saving %s of the byte form: %v", b, err)
			return false
		}
		for k := 0; k < 12; k++ {
			cut := t.Rng.Intn(len(data))
			if err := new(filtering.PartialSubscription).UnmarshalBinary(data[:cut:cut]); err == nil {
				t.Fail("%d of %d bytes of a saved part of the byte form were restored without an error", cut, len(data))
				return false
			}
			t.Count("cut_parts_refused", 1)
		}
		break
	}
	return true
}

func lines(b filtering.ByteSubscriptions, indent int, into map[string]bool) {
	for k, p := range b {
		into[fmt.Sprintf("%s--%s %d %s", strings.Repeat(" ", indent), k, p.Offset, p.ReportURI)] = true
		lines(p.Subset, indent+2, into)
	}
}

func differs(a, b filtering.ByteSubscriptions) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries instead of %d", len(a), len(b))
	}
	for k, p := range b {
		q := a[k]
		if q == nil || q.Offset != p.Offset || q.ReportURI != p.ReportURI {
			return fmt.Sprintf("%s is %+v instead of %+v", k, q, p)
		}
		if d := differs(q.Subset, p.Subset); d != "" {
			return d
		}
	}
	return ""
}

// f18: what an engine shows of itself is what it holds
func f18(t *core.T) {
	n := size(t)
	if n > 80 {
		n = 80
	}
	w, es := pool(t, n)
	start := es
	if t.Rng.Intn(3) == 0 {
		start = es[:t.Rng.Intn(len(es)+1)]
	}
	ops, _ := history(t, es, start, 1+t.Rng.Intn(10))
	ts := tags(w, es, 10)
	t.Note("initial %s", show(subs(t, start)))
	for i, o := range ops {
		t.Note("op %d %s: %s", i, []string{"add", "delete"}[o.kind], show(o.s))
	}
	if !byteForm(t, es, modelOf(es)) {
		return
	}
	for _, c := range all {
		eng := c.mk(subs(t, start))
		m := modelOf(start)
		if !inDump(t, eng, c.name, m, "as built") {
			return
		}
		for i, o := range ops {
			for k := t.Rng.Intn(4); k > 0; k-- {
				eng.Search(re(ts[t.Rng.Intn(len(ts))]))
			}
			if !inDump(t, eng, c.name, m, fmt.Sprintf("before update %d", i)) {
				return
			}
			apply(eng, m, o)
			if !inDump(t, eng, c.name, m, fmt.Sprintf("after update %d", i)) {
				return
			}
		}
		// showing it changes nothing
		for k := 0; k < 4; k++ {
			tag := ts[t.Rng.Intn(len(ts))]
			if !search(t, eng, c.name, tag, want(m, c.name, tag), "after its dumps") {
				return
			}
		}
		data, err := eng.MarshalBinary()
		if err != nil {
			t.Fail("%s: saving: %v", c.name, err)
			return
		}
		copy := c.zero()
		if t.Rng.Intn(2) == 0 {
			copy = c.mk(subs(t, es))
		}
		if err := copy.UnmarshalBinary(data); err != nil {
			t.Fail("%s: restoring: %v", c.name, err)
			return
		}
		if !inDump(t, copy, c.name, m, "as restored") {
			return
		}
		if a, b := eng.Dump(), copy.Dump(); a != b {
			t.Fail("%s: the restored engine shows\n%sinstead of\n%s", c.name, b, a)
			return
		}
	}
	for name, mk := range filtering.AvailableEngines {
		if got := mk(subs(t, start)).Name(); got != name {
			t.Fail("the engine registered as %s is named %s", name, got)
			return
		}
	}
	if len(es) > 1 {
		t.Distinct(es, ops)
	}
	t.Sample("%d patterns, %d updates", len(es), len(ops))
}
