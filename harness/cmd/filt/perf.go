package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
)

// timing makes the engines of a scenario take a drawn time for a search, and records how long each took at least
type timing struct {
	mu    sync.Mutex
	cost  map[string]time.Duration // of a search beyond that of the real engine; negative: sleep instead of spinning
	inner map[string][]int64       // of each search, in ns, in order
}

type timed struct {
	filtering.Engine
	name string
	tm   *timing
}

func (p *timed) Search(re llrp.ReadEvent) (string, []string, error) {
	p.tm.mu.Lock()
	d := p.tm.cost[p.name]
	p.tm.mu.Unlock()
	start := time.Now()
	id, uris, err := p.Engine.Search(re)
	if d < 0 {
		time.Sleep(-d)
	}
	took := time.Since(start)
	for took < d {
		took = time.Since(start)
	}
	p.tm.mu.Lock()
	p.tm.inner[p.name] = append(p.tm.inner[p.name], int64(took))
	p.tm.mu.Unlock()
	return id, uris, err
}

// figures follows the interval reports of one engine, and judges each throughput by the searches it is about:
// those are known from the event counts, since searches are counted in order
type figures struct {
	name     string
	at       int   // searches reported so far
	n        int64 // of the interval reported last
	reported bool  // its throughput was
}

const slack = 1e-3 // relative

// take judges a report; inner and outer are lower and upper bounds of the time each search took, in ns
func (f *figures) take(t *core.T, m filtering.ManagementMessage, inner, outer []int64) string {
	sums := func() (lo, hi int64, ok bool) {
		a := f.at - int(f.n)
		if a < 0 || f.at > len(inner) || f.at > len(outer) {
			return 0, 0, false
		}
		for _, x := range inner[a:f.at] {
			lo += x
		}
		for _, x := range outer[a:f.at] {
			hi += x
		}
		return lo, hi, true
	}
	switch m.Type {
	case filtering.TrafficStatus:
		if lo, _, ok := sums(); ok && f.n > 0 && lo >= 1000 && !f.reported {
			return fmt.Sprintf("%s: no throughput was reported for an interval with %d searches, which took %d ns at least", f.name, f.n, lo)
		}
		f.n, f.reported = m.EventCount, false
		f.at += int(m.EventCount)
	case filtering.EngineStatus:
		lo, hi, ok := sums()
		if !ok {
			return fmt.Sprintf("%s: %d events were reported, but only %d searches made", f.name, f.at, len(inner))
		}
		if f.reported || f.n == 0 {
			return fmt.Sprintf("%s: a throughput of %v was reported for an interval with %d searches (twice: %v)", f.name, m.CurrentThroughput, f.n, f.reported)
		}
		f.reported = true
		us := float64(f.n) / m.CurrentThroughput * 1000 // ns for all of them
		t.Eval(1)
		t.Count("throughputs_judged", 1)
		if lo < f.n*1000 {
			t.Count("throughputs_beyond_one_in_a_microsecond", 1)
		}
		if us < float64(lo)*(1-slack) || us > float64(hi)*(1+slack) {
			return fmt.Sprintf("%s: a throughput of %v in a microsecond was reported for %d searches, which took between %d and %d ns", f.name, m.CurrentThroughput, f.n, lo, hi)
		}
		// how sharp the judgement was: the widest factor between the bounds, as a power of two
		w := 0
		for x := float64(hi) / float64(lo+1); x > 1.05 && w < 20; x /= 2 {
			w++
		}
		t.State("bounds_within_power_of_two", w)
	}
	return ""
}

// judgeFigures judges an engine's interval reports. The count and the throughput of an interval may come in either
// order, as long as it is always the same
func judgeFigures(t *core.T, name string, ms []filtering.ManagementMessage, inner, outer []int64) string {
	try := func(ms []filtering.ManagementMessage) string {
		f := &figures{name: name}
		for _, m := range ms {
			if bad := f.take(t, m, inner, outer); bad != "" {
				return bad
			}
		}
		return ""
	}
	bad := try(ms)
	if bad == "" {
		return ""
	}
	var turned []filtering.ManagementMessage
	var held []filtering.ManagementMessage
	for _, m := range ms {
		switch m.Type {
		case filtering.EngineStatus:
			held = append(held, m)
		case filtering.TrafficStatus:
			turned = append(append(turned, m), held...)
			held = nil
		}
	}
	if try(turned) == "" {
		return ""
	}
	return bad
}

var costs = []time.Duration{0, 200, 500, 900, 1500, 4 * time.Microsecond, 30 * time.Microsecond, 300 * time.Microsecond, -time.Millisecond}

// a generator alone
func r05generator(t *core.T, rng *rand.Rand) {
	w, es, _ := coincidingPool(rng, []int{1, 2, 30}[rng.Intn(3)])
	name := names(rng)[0]
	sub := subsRng(rng, es)
	sc := newScenario()
	tm := &timing{cost: map[string]time.Duration{}, inner: map[string][]int64{}}
	sc.tm = tm
	mark(sub, sc)
	ch := make(chan filtering.ManagementMessage)
	eg := filtering.NewEngineGenerator(name, filtering.AvailableEngines[name], 1, ch)
	var mu sync.Mutex
	var ms []filtering.ManagementMessage
	generated := false
	go func() {
		for m := range ch {
			mu.Lock()
			if m.Type == filtering.OnEngineGenerated {
				generated = true
			} else {
				ms = append(ms, m)
			}
			mu.Unlock()
		}
	}()
	eg.FSM.Event(context.Background(), "init", sub)
	if !waiting(t, core.Wait(0, 100, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return generated
	}), "%s was not generated", name) {
		return
	}
	ts := tags(w, es, 20)
	var outer []int64
	end := time.Now().Add(time.Duration(3000+rng.Intn(1500)) * time.Millisecond)
	used := []time.Duration{}
	for time.Now().Before(end) {
		c := costs[rng.Intn(len(costs))]
		used = append(used, c)
		tm.mu.Lock()
		tm.cost[name] = c
		tm.mu.Unlock()
		for k := []int{1, 20, 400, 5000}[rng.Intn(4)]; k > 0 && time.Now().Before(end); k-- {
			tag := re(ts[rng.Intn(len(ts))])
			start := time.Now()
			eg.Search(tag)
			outer = append(outer, int64(time.Since(start)))
		}
		time.Sleep([]time.Duration{0, time.Millisecond, 30 * time.Millisecond, 1100 * time.Millisecond}[rng.Intn(4)])
	}
	settled := func() int { // reports of traffic since the last search
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for i := len(ms) - 1; i >= 0 && n < 3; i-- {
			if ms[i].Type == filtering.TrafficStatus {
				if ms[i].EventCount > 0 {
					break
				}
				n++
			}
		}
		return n
	}
	if !waiting(t, core.Wait(0, 200, func() bool { return settled() >= 2 }), "generator %s: no further interval reports", name) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	tm.mu.Lock()
	defer tm.mu.Unlock()
	if bad := judgeFigures(t, name, ms, tm.inner[name], outer); bad != "" {
		t.Fail("generator with searches of %v: %s", used, bad)
		return
	}
	t.Count("searches", len(outer))
	t.State("generators", fmt.Sprint(name, len(es)))
	t.Distinct(name, show(sub), used)
	t.Sample("generator %s: %d searches of %v, %d reports", name, len(outer), used, len(ms))
}

// r05factory lets the engines' costs change and judges every announcement on the interval
func r05factory(t *core.T, rng *rand.Rand) {
	installOnce.Do(install)
	w, es, m := coincidingPool(rng, 10)
	sub := subsRng(rng, es)
	sc := newScenario()
	tm := &timing{cost: map[string]time.Duration{}, inner: map[string][]int64{}}
	sc.tm = tm
	mark(sub, sc)
	ts := coincidingTags(w, es, m, 20)
	mc := make(chan filtering.ManagementMessage, []int{0, 1, 128}[rng.Intn(3)])
	ef := filtering.NewEngineFactory(sub, 1, mc)
	own := &owner{}
	go own.read(mc, nil)
	var phases []string
	draw := func() { // another order of the engines by cost
		ns := names(rng)
		cs := rng.Perm(len(costs))[:len(ns)]
		sort.Ints(cs)
		tm.mu.Lock()
		defer tm.mu.Unlock()
		s := ""
		for i, n := range ns {
			tm.cost[n] = costs[cs[i]]
			s += fmt.Sprintf(" %s=%v", n, costs[cs[i]])
		}
		phases = append(phases, s)
	}
	draw()
	go ef.Run()
	if !waiting(t, core.Wait(0, 200, func() bool { return ef.IsActive() && sc.ndone() == len(real) }), "the engines were not generated") {
		return
	}
	count := func(typ filtering.ManagementMessageType, from int) map[string]int {
		r := map[string]int{}
		for _, x := range own.all()[from:] {
			if x.Type == typ {
				r[x.EngineName]++
			}
		}
		return r
	}
	var outer []int64 // of the searches made on the factory: above that of each engine
	judgeFrom := -1
	start := time.Now()
	for ph := 0; ph < 3; {
		for k := 0; k < 200; k++ {
			tag := re(ts[rng.Intn(len(ts))])
			s := time.Now()
			ef.Search(tag)
			outer = append(outer, int64(time.Since(s)))
			if time.Since(s) > 100*time.Millisecond {
				break
			}
		}
		time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
		all := own.all()
		from := 0
		if judgeFrom >= 0 {
			from = judgeFrom
		}
		traffic := count(filtering.TrafficStatus, from)
		least := 1 << 30
		for n := range real {
			if traffic[n] < least {
				least = traffic[n]
			}
		}
		switch {
		case judgeFrom < 0 && least >= 3: // all announcements for generated engines are long over
			judgeFrom = len(all)
		case judgeFrom >= 0 && least >= 3*(ph+1):
			ph++
			draw()
		}
		if time.Since(start) > 100*time.Second {
			t.Inconclusive("too few interval reports in 100 s")
			return
		}
	}
	msgs := own.all()
	tm.mu.Lock()
	defer tm.mu.Unlock()
	// each figure, by the searches it is about. An engine that became ready later has not seen the first ones
	outs := map[string][]int64{}
	for n := range real {
		in := tm.inner[n]
		// outer[i] belongs to the i-th search on the factory; an engine that came late has seen the last of them
		if len(in) > len(outer) {
			t.Fail("%d searches on %s for %d on the factory", len(in), n, len(outer))
			return
		}
		outs[n] = outer[len(outer)-len(in):]
		var ms []filtering.ManagementMessage
		for _, x := range msgs {
			if x.EngineName == n {
				ms = append(ms, x)
			}
		}
		if bad := judgeFigures(t, n, ms, in, outs[n]); bad != "" {
			t.Fail("factory with searches of%v: %s", phases, bad)
			return
		}
	}
	since := map[string]int{}    // interval reports since the last announcement
	last := map[string]float64{} // at the previous announcement
	cand := map[string][]float64{}
	for i, x := range msgs {
		switch x.Type {
		case filtering.TrafficStatus:
			since[x.EngineName]++
			quiet := len(since) == len(real)
			for _, k := range since {
				quiet = quiet && k >= 6
			}
			if quiet && i >= judgeFrom {
				t.Fail("factory with searches of%v: no selection was announced for six intervals, as each engine reported them", phases)
				return
			}
		case filtering.EngineStatus:
			cand[x.EngineName] = append(cand[x.EngineName], x.CurrentThroughput)
		case filtering.SelectedEngine:
			since = map[string]int{}
			if i >= judgeFrom {
				t.Eval(1)
				lo, hi := map[string]float64{}, map[string]float64{}
				best := ""
				for n := range real {
					c := append([]float64{last[n]}, cand[n]...)
					for _, y := range msgs[i:] { // it may be known before it is passed on
						if y.Type == filtering.EngineStatus && y.EngineName == n {
							c = append(c, y.CurrentThroughput)
							break
						}
					}
					sort.Float64s(c)
					lo[n], hi[n] = c[0], c[len(c)-1]
					if best == "" || lo[n] > lo[best] {
						best = n
					}
				}
				if lo[best] > 0 && hi[x.EngineName] < lo[best] {
					t.Fail("factory with searches of%v: %s was selected on an interval, with a throughput of at most %v, while %s had one of at least %v", phases, x.EngineName, hi[x.EngineName], best, lo[best])
					return
				}
				t.Count("selections_judged", 1)
				sharp := true
				for n := range real {
					sharp = sharp && (n == x.EngineName || hi[n] < lo[x.EngineName])
				}
				if sharp {
					t.Count("selections_with_one_answer", 1)
				}
				t.State("selected", x.EngineName)
			}
			for n, c := range cand {
				last[n] = c[len(c)-1]
			}
			cand = map[string][]float64{}
		}
	}
	t.Count("factory_searches", len(outer))
	t.Distinct("factory", phases)
	t.Sample("factory with searches of%v: %d searches, announced %q", phases, len(outer), own.selected())
}

var r05 = &core.Check{ID: "R05", Shards: 8, Whole: func(t *core.T) {
	installOnce.Do(install)
	for round := 0; round < t.N(2, 30) && !t.Failed(); round++ {
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			rng := rand.New(rand.NewSource(t.Rng.Int63()))
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				if k < 3 {
					r05generator(t, rng)
				} else {
					r05factory(t, rng)
				}
			}(k)
		}
		wg.Wait()
	}
}, Require: []string{"searches", "factory_searches", "throughputs_judged", "throughputs_beyond_one_in_a_microsecond", "selections_judged", "selections_with_one_answer", "selected"},
	Rule:  "8 processes each run 3 engine generators and a factory side by side on the 1 s interval, twice (30 times in the thorough tier), with engines that take a drawn time for a search, from that of the real engine alone to a millisecond, which changes; the throughput of each interval is judged by the time the searches it is about took, measured inside and outside the engine; each selection on an interval by the throughputs reported before and after it; an evaluation is a throughput or a selection",
	Assum: []string{"one searching goroutine per factory or generator, as in the middleware", "engines are the real ones behind a timing wrapper", "throughput is in searches per microsecond"}}
