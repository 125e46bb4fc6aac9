package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/core"
	"verifharness/fcrun"
	"verifharness/hostile"
)

// usage is what a running program holds
type usage struct {
	live, stacks     int // MiB, as the collector of the program reports them
	sockets, threads int
}

func (u usage) String() string {
	return fmt.Sprintf("live heap %d MB, stacks %d MB, %d sockets, %d threads", u.live, u.stacks, u.sockets, u.threads)
}

var gcLine = regexp.MustCompile(`(?m)^gc (\d+) @.*, \d+->\d+->(\d+) MB, \d+ MB goal, (\d+) MB stacks`)

// collections reads the program's last collections from the end of what it printed
func collections(f *fcrun.FC) [][]string {
	h, err := os.Open(f.StderrName())
	if err != nil {
		return nil
	}
	defer h.Close()
	if st, err := h.Stat(); err == nil && st.Size() > 1<<18 {
		h.Seek(-1<<18, io.SeekEnd)
	}
	b, _ := io.ReadAll(h)
	return gcLine.FindAllStringSubmatch(string(b), -1)
}

// measure has the program collect a few more times, kept going by stir, and returns the least it kept
func measure(t *core.T, f *fcrun.FC, stir func() bool) (u usage, ok bool) {
	last := func() int {
		if cs := collections(f); len(cs) > 0 {
			n, _ := strconv.Atoi(cs[len(cs)-1][1])
			return n
		}
		return 0
	}
	from := last()
	ok = true
	if !f.Wait(400, "collecting garbage while there is work", func() bool {
		ok = ok && stir()
		return !ok || last() >= from+6
	}) || !ok {
		return u, false
	}
	u.live, u.stacks = 1<<30, 1<<30
	for _, c := range collections(f) {
		n, _ := strconv.Atoi(c[1])
		if n <= from+1 {
			continue
		}
		if v, _ := strconv.Atoi(c[2]); v < u.live {
			u.live = v
		}
		if v, _ := strconv.Atoi(c[3]); v < u.stacks {
			u.stacks = v
		}
	}
	u.sockets = sockets(f.Pid)
	es, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*", f.Pid))
	u.threads = len(es)
	t.Count("collections_observed", 5)
	return u, true
}

// goroutines ends the program and counts what it was doing
func goroutines(f *fcrun.FC) (n int, most string) {
	before := len(f.Stderr())
	syscall.Kill(f.Pid, syscall.SIGQUIT)
	if core.Wait(f.Pid, 200, f.Exited) != core.Happened {
		return 0, ""
	}
	by := map[string]int{}
	s := f.Stderr()
	if before < len(s) {
		s = s[before:]
	}
	for _, g := range strings.Split(s, "\n\n") {
		if i := strings.Index(g, "goroutine "); i == 0 || i > 0 && g[i-1] == '\n' {
			n++
			at := ""
			for _, l := range strings.Split(g[i:], "\n") {
				if strings.HasPrefix(l, "created by ") {
					at = l
				}
			}
			by[at]++
			if by[at] > by[most] {
				most = at
			}
		}
	}
	return n, fmt.Sprintf("%d %s", by[most], most)
}

// clients has conforming clients served, a few at a time
func clients(t *core.T, f *fcrun.FC, n int) bool {
	var next atomic.Int64
	var wg sync.WaitGroup
	var first atomic.Value
	for k := 0; k < 6; k++ {
		rng := rand.New(rand.NewSource(t.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for next.Add(1) <= int64(n) && first.Load() == nil && !f.Exited() {
				if err := hostile.Echo(rng, f.Mgmt, 1+rng.Intn(2)); err != nil {
					first.CompareAndSwap(nil, err)
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !f.Wait(300, "serving conforming clients", func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}) {
		return false
	}
	if err, _ := first.Load().(error); err != nil {
		t.Fail("a conforming client was not served: %v", err)
		return false
	}
	t.Count("clients_served", n)
	return true
}

// grown judges what a program holds after more of the same work
func grown(t *core.T, f *fcrun.FC, work string, a, b usage) bool {
	t.Eval(4)
	t.State("live_heap_mb", b.live)
	t.State("threads", b.threads)
	switch {
	case b.live > a.live+3+a.live/4:
		t.Fail("the live heap grew from %d to %d MB over %s", a.live, b.live, work)
	case b.stacks > a.stacks+3:
		t.Fail("the stacks grew from %d to %d MB over %s", a.stacks, b.stacks, work)
	case b.sockets > a.sockets+4:
		t.Fail("the sockets grew from %d to %d over %s", a.sockets, b.sockets, work)
	case b.threads > a.threads+40:
		t.Fail("the threads grew from %d to %d over %s", a.threads, b.threads, work)
	default:
		return true
	}
	return false
}

func e04(t *core.T) {
	if t.Index%4 == 3 {
		e04capture(t)
		return
	}
	w, ps, hit := fcrun.World(t.Rng, 5+t.Rng.Intn(60))
	f := fcrun.Start(t, fcrun.Config{Bin: fcBin, MessageID: uint32(t.Rng.Intn(1 << 20)), Interval: 1, Patterns: ps, URIs: 1 + t.Rng.Intn(20),
		Env: []string{"GODEBUG=gctrace=1", "GOGC=30"}})
	if f == nil {
		return
	}
	defer f.Stop()
	base, ok := f.Warm(t.Rng, hit)
	if !ok {
		return
	}
	few := append(fcrun.Tags(w, ps, 200), hit)
	size := []int{2000, 400, 20}[t.Index%3]
	seen := map[string]bool{}
	report := func() []byte {
		n := 1 + t.Rng.Intn(2*size)
		ts := fcrun.NewTags(w, ps, n) // mostly new ones
		if t.Index%4 == 1 {           // mostly the same ones
			ts = ts[:0]
		}
		for len(ts) < n {
			ts = append(ts, few[t.Rng.Intn(len(few))])
		}
		for _, tag := range ts {
			seen[string(tag.ID)] = true
		}
		return f.Report(t.Rng, ts)
	}
	send := func(tags int) bool {
		for from, _, _ := f.Sent(); ; {
			now, _, _ := f.Sent()
			if now-from >= int64(tags) {
				return true
			}
			b := append(report(), f.Keepalive(t.Rng)...)
			if t.Rng.Intn(4) == 0 {
				b = append(b, f.Event(t.Rng)...)
			}
			b = append(b, f.ConfigResponse(t.Rng)...)
			if !f.Send(t.Rng, b, 0) {
				return false
			}
		}
	}
	// control sends messages without tags
	control := func(rounds int) bool {
		for ; rounds > 0; rounds -= 100 {
			var b []byte
			for i := 0; i < 100; i++ {
				b = append(b, f.Keepalive(t.Rng)...)
				b = append(b, f.Event(t.Rng)...)
				b = append(b, f.ConfigResponse(t.Rng)...)
				b = append(b, f.Report(t.Rng, nil)...)
			}
			if !f.Send(t.Rng, b, 0) || rounds%10000 == 0 && !f.Barrier(t.Rng) {
				return false
			}
			t.Count("control_messages", 400)
		}
		return true
	}
	stir := func() bool { return send(400) && f.Barrier(t.Rng) }
	before := sockets(f.Pid)
	if !clients(t, f, 100) || !send(t.N(40000, 100000)) || !f.Barrier(t.Rng) || !released(t, f, before) {
		return
	}
	a, ok := measure(t, f, stir)
	if !ok {
		return
	}
	tags := t.N(240000, 2500000)
	conns := t.N(800, 8000)
	if size == 20 {
		tags /= 4
	}
	half := make(chan bool, 1)
	go func() { half <- clients(t, f, conns) }()
	ok = control(t.N(160000, 400000)) && send(tags)
	if !<-half || !ok || !f.Barrier(t.Rng) || !released(t, f, before) {
		return
	}
	b, ok := measure(t, f, stir)
	if !ok || !grown(t, f, fmt.Sprintf("%d tags, %d keepalives, notifications, configuration responses and empty reports each, and %d management connections", tags, t.N(160000, 400000), conns), a, b) {
		return
	}
	if !f.Settle(t.Rng, base) {
		return
	}
	n, most := goroutines(f)
	t.Eval(1)
	t.State("goroutines_at_end", n)
	if n > 250 {
		t.Fail("after %d tags and %d management connections that were closed there are %d goroutines, of which %s", tags, conns, n, most)
		return
	}
	t.Count("steady_runs", 1)
	t.Count("different_tags", len(seen))
	x, y, z := f.Sent()
	t.Distinct("steady", x, y, z)
	t.Sample("%d subscriptions; %d tags sent, %d matching, %d answers, %d management connections: from %v to %v, %d goroutines at the end", len(ps), x, y, z, conns, a, b, n)
}

// e04capture does the same to the capture endpoint
func e04capture(t *core.T) {
	f := capture(t, "export GODEBUG=gctrace=1 GOGC=30; ")
	if f == nil {
		return
	}
	defer f.Stop()
	before := sockets(f.Pid)
	stir := func() bool { return clients(t, f, 20) }
	if !clients(t, f, 200) || !released(t, f, before) {
		return
	}
	a, ok := measure(t, f, stir)
	if !ok {
		return
	}
	conns := t.N(2500, 30000)
	if !clients(t, f, conns) || !released(t, f, before) {
		return
	}
	b, ok := measure(t, f, stir)
	if !ok || !released(t, f, before) {
		return
	}
	b.sockets = a.sockets // judged by released
	if !grown(t, f, fmt.Sprintf("%d connections", conns), a, b) {
		return
	}
	time.Sleep(100 * time.Millisecond)
	n, most := goroutines(f)
	t.Eval(1)
	t.State("goroutines_at_end", n)
	if n > 150 {
		t.Fail("after %d connections that were closed there are %d goroutines, of which %s", conns, n, most)
		return
	}
	t.Count("steady_captures", 1)
	t.Distinct("capture", t.Index, conns)
	t.Sample("capture endpoint, %d connections: from %v to %v, %d goroutines at the end", conns, a, b, n)
}
