package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/iomz/gosstrak/scheme"
	"github.com/iomz/gosstrak/tdt"

	"verifharness/core"
	"verifharness/oracle"
)

// op is a call whose result is known beforehand
type op struct {
	kind, desc string
	run        func(c *tdt.Core) string // "" or what was wrong
}

func decodeOp(tag oracle.Tag) op {
	want, ok, open := oracle.Decode(tag.PC, tag.ID)
	pc, id := append([]byte{}, tag.PC...), append([]byte{}, tag.ID...)
	return op{"decode", fmt.Sprintf("decoding %x %x", pc, id), func(c *tdt.Core) string {
		got, err := c.Translate(tag.PC, tag.ID)
		switch {
		case !bytes.Equal(pc, tag.PC) || !bytes.Equal(id, tag.ID):
			return fmt.Sprintf("changed its input to %x %x", tag.PC, tag.ID)
		case open:
		case ok && (err != nil || got != want):
			return fmt.Sprintf("gave %q (%v), want %q", got, err, want)
		case !ok && err == nil:
			return fmt.Sprintf("gave %q, want an error", got)
		}
		return ""
	}}
}

func patternOp(p oracle.Pat) op {
	want, fields := p.Bits(), append([]string{}, p.Fields...)
	return op{"pattern", "the prefix of " + p.URN(), func(*tdt.Core) string {
		got, err := tdt.MakePrefixFilterString(p.Type, p.Fields)
		if err != nil || got != want {
			return fmt.Sprintf("is %q (%v), want %q", got, err, want)
		}
		if strings.Join(fields, "\x00") != strings.Join(p.Fields, "\x00") {
			return fmt.Sprintf("changed the fields to %q", p.Fields)
		}
		return ""
	}}
}

func refusedOp(urn string) op {
	e := strings.SplitN(strings.TrimPrefix(urn, "urn:epc:pat:"), ":", 2)
	for len(e) < 2 {
		e = append(e, "")
	}
	fields := strings.Split(e[1], ".")
	first, ferr := tdt.MakePrefixFilterString(e[0], append([]string{}, fields...))
	return op{"malformed", fmt.Sprintf("the prefix of %q", urn), func(*tdt.Core) string {
		got, err := tdt.MakePrefixFilterString(e[0], fields)
		if got != first || (err == nil) != (ferr == nil) {
			return fmt.Sprintf("is %q (%v), was %q (%v)", got, err, first, ferr)
		}
		return ""
	}}
}

func epcOp(r oracle.Rand, s *oracle.Scheme) op {
	cp := r.Digits(6 + r.Intn(7))
	part := 12 - len(cp)
	ref, ser, fv := r.Below(s.RefDig[part], s.RefBits[part]), r.Serial(), fmt.Sprint(r.Intn(8))
	rs, ss := padTo(r, ref, s.RefDig[part]), padTo(r, ser, 12)
	want := "3000," + oracle.BitString(oracle.EPCTag(s, int(fv[0]-'0'), cp, ref, ser).ID)
	return op{"make", fmt.Sprintf("making %s %s.%s.%s.%s", s.Pat, fv, cp, rs, ss), func(*tdt.Core) string {
		if got := scheme.PrintID(makeEPC(s, false, fv, cp, rs, ss)); got != want {
			return fmt.Sprintf("gave %q, want %q", got, want)
		}
		return ""
	}}
}

// drawnOp leaves fields to the generator: the result is a tag with the given ones
func drawnOp(r oracle.Rand, s *oracle.Scheme) op {
	cp, fv := r.Digits(6+r.Intn(6)), fmt.Sprint(r.Intn(8))
	want := oracle.Pat{Type: s.Pat, Fields: []string{fv, cp}}.Bits()
	return op{"draw", fmt.Sprintf("making a %s %s.%s with other fields drawn", s.Pat, fv, cp), func(*tdt.Core) string {
		id, err := makeTag(s, fv, cp, "", "")
		if err != nil || len(id) != 12 || !oracle.MatchBits(want, id) {
			return fmt.Sprintf("gave %x (%v), want the prefix %s", id, err, want)
		}
		return ""
	}}
}

func isoOp(r oracle.Rand) op {
	if r.Intn(2) == 0 {
		oc, cat, csn := r.Letters(3), []string{"U", "J", "Z"}[r.Intn(3)], r.Digits(6)
		cn := oc + cat + csn
		cd := oracle.CheckDigit6346(cn)
		tag := oracle.ISOTag(0xA9, "7B"+cn+fmt.Sprint(cd))
		want := fmt.Sprintf("%x,%s", tag.PC, oracle.BitString(tag.ID))
		return op{"make", "making the container " + cn, func(*tdt.Core) string {
			if got, err := scheme.GetISO6346CD(cn); err != nil || got != cd {
				return fmt.Sprintf("gave the check digit %d (%v), want %d", got, err, cd)
			}
			if got := scheme.PrintID(scheme.MakeISO(false, "17363", oc, cat, csn, "", "", "", "")); got != want {
				return fmt.Sprintf("gave %q, want %q", got, want)
			}
			return ""
		}}
	}
	f := []string{r.Alnum(1 + r.Intn(3)), r.Alnum(1 + r.Intn(3)), r.SixText(1+r.Intn(12), true), r.SixText(1+r.Intn(40), true)}
	tag := oracle.ISOTag(0xA2, strings.Join(f, ""))
	want := fmt.Sprintf("%x,%s", tag.PC, oracle.BitString(tag.ID))
	return op{"make", fmt.Sprintf("making the transport unit %q", f), func(*tdt.Core) string {
		if got := scheme.PrintID(scheme.MakeISO(false, "17365", "", "", "", f[0], f[1], f[2], f[3])); got != want {
			return fmt.Sprintf("gave %q, want %q", got, want)
		}
		return ""
	}}
}

// t08 runs calls with known results from several goroutines at once
func t08(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	w := oracle.NewWorld(t.Rng, 4)
	w.Types = oracle.AllTypes
	var ops []op
	for i := 0; i < 60; i++ {
		tag := w.Tag()
		if r.Intn(4) == 0 {
			r.Read(tag.ID)
		}
		ops = append(ops, decodeOp(tag), patternOp(w.Pattern()), isoOp(r))
		s := oracle.Schemes[r.Intn(4)]
		ops = append(ops, epcOp(r, s))
		if i%4 == 0 {
			ops = append(ops, drawnOp(r, s), refusedOp(w.Malformed()))
		}
	}
	if t.Index%80 == 3 { // more calls than 16 bits can count, on one core
		c := tdt.NewCore()
		for k := 0; k < 70000; {
			o := ops[t.Rng.Intn(len(ops))]
			if o.kind != "decode" && t.Rng.Intn(32) > 0 {
				continue
			}
			k++
			if d := o.run(c); d != "" {
				t.Fail("call %d on one core: %s %s", k, o.desc, d)
				return
			}
			t.Count("calls_on_one_core", 1)
		}
	}
	shared := tdt.NewCore()
	workers := 2 + r.Intn(7)
	own := r.Intn(3) == 0
	var wg sync.WaitGroup
	var mu sync.Mutex
	start := make(chan struct{})
	for g := 0; g < workers; g++ {
		wg.Add(1)
		seed := t.Rng.Int63()
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			c := shared
			if own {
				c = tdt.NewCore()
			}
			n := map[string]int{}
			<-start
			for round := 0; round < 3; round++ {
				for _, k := range rr.Perm(len(ops)) {
					if d := ops[k].run(c); d != "" {
						mu.Lock()
						t.Fail("%d goroutines, round %d: %s %s", workers, round, ops[k].desc, d)
						mu.Unlock()
						return
					}
					n[ops[k].kind]++
				}
			}
			mu.Lock()
			for k, v := range n {
				t.Count("concurrent_"+k, v)
				t.Eval(v)
			}
			mu.Unlock()
		}()
	}
	close(start)
	wg.Wait()
	for _, o := range ops {
		t.Distinct(o.desc)
	}
	t.State("workers", fmt.Sprint(workers, own))
	t.Sample("%d goroutines, %d different calls, among them %s", workers, len(ops), ops[0].desc)
}
