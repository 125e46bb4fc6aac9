package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/oracle"
)

// away is what another process is asked to restore, search and update
type away struct {
	Engine  string
	Data    []byte
	Set     []byte // a saved subscription set
	Tags    []oracle.Tag
	Kinds   []int
	Updates []map[string][]string
}

// back is what it gave: the answers after the restore and after each update, and what it saved in the end
type back struct {
	Err     string
	Answers [][]reply
	Dump    string
	Data    []byte
	Set     map[string][]string
}

type reply struct {
	Identity string
	URIs     []string
	Err      string
}

// elsewhere is the other process: it has built no engine and seen no subscription when it restores what it was given
func elsewhere(file string) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var jobs []away
	if err := gob.NewDecoder(f).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f.Close()
	var out []back
	for _, j := range jobs {
		out = append(out, j.do())
	}
	o, err := os.Create(file + ".back")
	if err == nil {
		err = gob.NewEncoder(o).Encode(out)
		o.Close()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

func (j *away) do() (b back) {
	var eng filtering.Engine
	for _, c := range all {
		if c.name == j.Engine {
			eng = c.zero()
		}
	}
	if err := eng.UnmarshalBinary(j.Data); err != nil {
		b.Err = err.Error()
		return
	}
	ask := func() {
		var as []reply
		for _, tag := range j.Tags {
			id, uris, err := eng.Search(re(tag))
			a := reply{Identity: id, URIs: uris}
			if err != nil {
				a.Err = "error: " + err.Error()
			}
			as = append(as, a)
		}
		b.Answers = append(b.Answers, as)
	}
	ask()
	b.Dump = eng.Dump()
	for i, s := range j.Updates {
		if j.Kinds[i] == 0 {
			eng.AddSubscription(s)
		} else {
			eng.DeleteSubscription(s)
		}
		ask()
	}
	set := filtering.Subscriptions{}
	if err := gob.NewDecoder(bytes.NewReader(j.Set)).Decode(&set); err != nil {
		b.Err = err.Error()
		return
	}
	b.Set = set
	var err error
	if b.Data, err = eng.MarshalBinary(); err != nil {
		b.Err = err.Error()
	}
	return
}

// f06elsewhere saves engines and restores them in another process
func f06elsewhere(t *core.T) {
	dir, err := os.MkdirTemp("", "elsewhere-")
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	type side struct {
		name string
		m    *model
		ops  []op
		set  filtering.Subscriptions
	}
	var jobs []away
	var sides []side
	for _, i := range t.Rng.Perm(len(all)) {
		c := all[i]
		w, es := pool(t, 2+t.Rng.Intn(20))
		start := es[:t.Rng.Intn(len(es)+1)]
		ts := tags(w, es, 8+2*len(es))
		ops, _ := history(t, es, start, 1+t.Rng.Intn(6))
		cut := t.Rng.Intn(len(ops) + 1)
		set := subs(t, start)
		t.Note("%s: initial %s", c.name, show(set))
		for i, o := range ops {
			t.Note("%s: op %d (%v in the other process) %s %s", c.name, i, i >= cut, []string{"add", "delete"}[o.kind], show(o.s))
		}
		eng := c.mk(set)
		m := modelOf(start)
		for _, o := range ops[:cut] {
			apply(eng, m, o)
			eng.Search(re(ts[t.Rng.Intn(len(ts))]))
		}
		j := away{Engine: c.name, Tags: ts}
		if j.Data, err = eng.MarshalBinary(); err != nil {
			t.Fail("%s: saving: %v", c.name, err)
			return
		}
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(set); err != nil {
			t.Fail("saving a set: %v", err)
			return
		}
		j.Set = buf.Bytes()
		for _, o := range ops[cut:] {
			j.Kinds, j.Updates = append(j.Kinds, o.kind), append(j.Updates, o.s)
		}
		jobs = append(jobs, j)
		sides = append(sides, side{c.name, m, ops[cut:], set})
	}
	file := filepath.Join(dir, "jobs")
	f, err := os.Create(file)
	if err == nil {
		err = gob.NewEncoder(f).Encode(jobs)
		f.Close()
	}
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	cmd := exec.Command(os.Args[0])
	var log bytes.Buffer
	cmd.Stderr = &log
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_CHILD=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_ELSEWHERE="+file)
	if err := cmd.Start(); err != nil {
		t.Inconclusive("%v", err)
		return
	}
	late := time.AfterFunc(5*time.Minute, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !late.Stop() {
		t.Inconclusive("the other process took more than five minutes")
		return
	}
	if err != nil {
		s := log.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		t.Fail("restoring in another process: %v: %s", err, s)
		return
	}
	var backs []back
	if f, err = os.Open(file + ".back"); err == nil {
		err = gob.NewDecoder(f).Decode(&backs)
		f.Close()
	}
	if err != nil || len(backs) != len(jobs) {
		t.Inconclusive("%d answers: %v", len(backs), err)
		return
	}
	for i, b := range backs {
		s, c := sides[i], jobs[i]
		if b.Err != "" {
			t.Fail("%s: restoring in another process: %s", s.name, b.Err)
			return
		}
		t.Count("restored_in_another_process", 1)
		if !judgeDump(t, b.Dump, s.name, s.m, "restored in another process") {
			return
		}
		for k, as := range b.Answers {
			where := "restored in another process"
			if k > 0 {
				apply2(s.m, s.ops[k-1])
				where += fmt.Sprintf(", after update %d there", k-1)
			}
			for n, a := range as {
				var err error
				if a.Err != "" {
					err = fmt.Errorf("%s", a.Err)
				}
				if !judge(t, s.name, c.Tags[n], want(s.m, s.name, c.Tags[n]), where, a.Identity, a.URIs, err) {
					return
				}
			}
		}
		if !equalSubs(b.Set, s.set) {
			t.Fail("a set restored in another process is %s, want %s", show(b.Set), show(s.set))
			return
		}
		for _, x := range all {
			if x.name != s.name {
				continue
			}
			eng := x.zero()
			if err := eng.UnmarshalBinary(b.Data); err != nil {
				t.Fail("%s: restoring what another process saved: %v", s.name, err)
				return
			}
			if !probe(t, eng, s.name, s.m, c.Tags, "saved by another process") {
				return
			}
		}
	}
	t.Distinct(t.Index, "elsewhere")
}
