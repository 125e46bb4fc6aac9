package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/fcrun"
	"verifharness/hostile"
	"verifharness/oracle"
)

// scenario is what the engine constructors of one factory do. The constructors in AvailableEngines
// are replaced once per process by ones that consult the scenario in force.
type scenario struct {
	mu    sync.Mutex
	gates map[string]chan struct{} // closed to let the engine be generated
	done  map[string]bool          // generated
	calls map[string]int64         // searches on the engine
	hits  map[string]int64         // those which reported something
	delay map[string]time.Duration // of a search
	tm    *timing                  // the engines are timed, and nothing else
}

func newScenario() *scenario {
	return &scenario{gates: map[string]chan struct{}{}, done: map[string]bool{}, calls: map[string]int64{}, hits: map[string]int64{}, delay: map[string]time.Duration{}}
}

func (s *scenario) isDone(name string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.done[name]
}

func (s *scenario) ndone() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.done)
}

// inForce by the destination set's marker, so that factories may run side by side
var (
	inForce   = map[string]*scenario{}
	inForceMu sync.Mutex
)

const marker = "http://marker.example.com/"

func scenarioOf(sub filtering.Subscriptions) *scenario {
	inForceMu.Lock()
	defer inForceMu.Unlock()
	for k := range sub {
		if s := inForce[k]; s != nil {
			return s
		}
	}
	return nil
}

// mark adds a destination which identifies the scenario, subscribed to a pattern that matches no drawn tag
func mark(sub filtering.Subscriptions, s *scenario) {
	inForceMu.Lock()
	defer inForceMu.Unlock()
	k := fmt.Sprintf("%s%d", marker, len(inForce))
	inForce[k] = s
	sub[k] = []string{"urn:epc:pat:iso17365:ZZZ.ZZ.ZZZZZZZ.ZZZZZZ"}
}

type spy struct {
	filtering.Engine
	name string
	s    *scenario
}

func (p *spy) Search(re llrp.ReadEvent) (string, []string, error) {
	p.s.mu.Lock()
	p.s.calls[p.name]++
	d := p.s.delay[p.name]
	p.s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	id, uris, err := p.Engine.Search(re)
	if len(uris) > 0 {
		p.s.mu.Lock()
		p.s.hits[p.name]++
		p.s.mu.Unlock()
	}
	return id, uris, err
}

var real map[string]filtering.EngineConstructor

func install() {
	real = map[string]filtering.EngineConstructor{}
	for name, mk := range filtering.AvailableEngines {
		real[name] = mk
	}
	for name, mk := range real {
		name, mk := name, mk
		filtering.AvailableEngines[name] = func(sub filtering.Subscriptions) filtering.Engine {
			s := scenarioOf(sub)
			if s == nil {
				return mk(sub)
			}
			s.mu.Lock()
			g := s.gates[name]
			s.mu.Unlock()
			if g != nil {
				<-g
			}
			e := mk(sub)
			s.mu.Lock()
			s.done[name] = true
			s.mu.Unlock()
			if s.tm != nil {
				return &timed{Engine: e, name: name, tm: s.tm}
			}
			return &spy{Engine: e, name: name, s: s}
		}
	}
}

var installOnce sync.Once

var priority = map[string]int{"LegacyEngine": 0, "List": 1, "SplayTree": 2, "PatriciaTrie": 3}

// coincidingTags draws tags on which text and bit semantics coincide
func coincidingTags(w *oracle.World, es []entry, m *model, n int) []oracle.Tag {
	var ts []oracle.Tag
	for i := 0; len(ts) < n && i < 20*n; i++ {
		for _, tag := range tags(w, es, 1) {
			if sameKeys(m.wantBits(tag), m.wantText(tag)) {
				ts = append(ts, tag)
			}
		}
	}
	return ts
}

// bounds is the number of patterns of each destination that may be reported by any engine
func bounds(m *model, tag oracle.Tag) map[string]int {
	b, x := m.wantBits(tag), m.wantText(tag)
	for k, v := range x {
		if v > b[k] {
			b[k] = v
		}
	}
	return b
}

func coincidingPool(rng *rand.Rand, max int) (*oracle.World, []entry, *model) {
	w := oracle.NewWorld(rng, 3)
	w.FVs = w.FVs[:1]
	n := rng.Intn(max)
	if rng.Intn(8) == 0 {
		n = 0
	}
	es := coinciding(w, n, 1+rng.Intn(12))
	return w, es, modelOf(es)
}

func subsRng(rng *rand.Rand, es []entry) filtering.Subscriptions {
	s := filtering.Subscriptions{}
	for _, i := range rng.Perm(len(es)) {
		s[es[i].uri] = append(s[es[i].uri], es[i].pat.String())
	}
	return s
}

// owner reads a management channel as long as the process lives
type owner struct {
	mu   sync.Mutex
	msgs []filtering.ManagementMessage
}

func (o *owner) read(mc chan filtering.ManagementMessage, pause func() time.Duration) {
	for m := range mc {
		o.mu.Lock()
		o.msgs = append(o.msgs, m)
		o.mu.Unlock()
		if pause != nil {
			time.Sleep(pause())
		}
	}
}

func (o *owner) all() []filtering.ManagementMessage {
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]filtering.ManagementMessage{}, o.msgs...)
}

func (o *owner) selected() []string {
	var r []string
	for _, m := range o.all() {
		if m.Type == filtering.SelectedEngine {
			r = append(r, m.EngineName)
		}
	}
	return r
}

// waiting judges the outcome of a wait
func waiting(t *core.T, o core.Outcome, f string, a ...interface{}) bool {
	switch o {
	case core.Stuck:
		t.Fail(f, a...)
		return false
	case core.TooSlow:
		t.Inconclusive(f, a...)
		return false
	}
	return true
}

// a factory that is being driven by one searching goroutine, as the middleware does
type driven struct {
	t     *core.T
	ef    *filtering.EngineFactory
	sc    *scenario
	own   *owner
	ts    []oracle.Tag
	m     *model
	job   chan int // index of the tag to search
	ans   chan string
	names int
	using atomic.Value // name of the engine which must be in use, empty if it may be any
}

// divergingTags draws tags that text and bits treat differently: they tell which engine answered
func divergingTags(w *oracle.World, es []entry, m *model, n int) []oracle.Tag {
	var ts []oracle.Tag
	for i := 0; len(ts) < n && len(es) > 0 && i < 10*n; i++ {
		tag := w.TagFor(es[w.R.Intn(len(es))].pat)
		if x := tag; x.Scheme != nil {
			tag = oracle.EPCTag(x.Scheme, w.R.Intn(8), x.CP, x.Ref, x.Ser)
		}
		if !sameKeys(m.wantBits(tag), m.wantText(tag)) {
			ts = append(ts, tag)
		}
	}
	return ts
}

func drive(t *core.T, rng *rand.Rand, max, interval int, pause func() time.Duration) *driven {
	installOnce.Do(install)
	w, es, m := coincidingPool(rng, max)
	sub := subsRng(rng, es)
	sc := newScenario()
	mark(sub, sc)
	t.Note("subscriptions %s", show(sub))
	d := &driven{t: t, sc: sc, own: &owner{}, ts: coincidingTags(w, es, m, 10+len(es)), m: m, job: make(chan int), ans: make(chan string), names: len(real)}
	d.using.Store("")
	d.ts = append(d.ts, divergingTags(w, es, m, 2+len(es)/2)...)
	mc := make(chan filtering.ManagementMessage, []int{0, 1, 128}[rng.Intn(3)])
	d.ef = filtering.NewEngineFactory(sub, interval, mc)
	late := time.Duration(0) // the owner may take its time before it reads
	if pause != nil && rng.Intn(3) == 0 {
		late = time.Duration(rng.Intn(200)) * time.Millisecond
		t.State("late_owners", late/(40*time.Millisecond))
	}
	go func() {
		time.Sleep(late)
		d.own.read(mc, pause)
	}()
	go func() {
		for i := range d.job {
			d.ans <- d.search(i)
		}
	}()
	return d
}

// search makes one search and says what is wrong with its answer; before is whether the factory was active before it
func (d *driven) search(i int) (wrong string) {
	tag := d.ts[i]
	using := d.using.Load().(string)
	before := d.ef.IsActive()
	id, uris, err := d.ef.Search(re(tag))
	after := d.ef.IsActive()
	if before && !after {
		return "the factory became inactive"
	}
	if !before && err != nil && id == "" && len(uris) == 0 {
		d.t.Count("searches_before_active", 1)
		return ""
	}
	if !before && !after {
		return fmt.Sprintf("tag %v: reported as %q to %q (err %v) by an inactive factory", tag, id, uris, err)
	}
	want := bounds(d.m, tag)
	wid, ok, open := oracle.Decode(tag.PC, tag.ID)
	got := map[string]int{}
	for _, u := range uris {
		got[u]++
	}
	d.t.Eval(1)
	if b, x := d.m.wantBits(tag), d.m.wantText(tag); !sameKeys(b, x) {
		// the answer is that of one engine, and of the one in use where that is known
		d.t.Count("searches_telling_engines_apart", 1)
		switch {
		case using == "LegacyEngine":
			want = x
		case using != "":
			want = b
		case sameKeys(got, x):
			want = x
		default:
			want = b
		}
		if using != "" {
			using = " (in use: " + using + ")"
			d.t.Count("searches_of_known_engine", 1)
		}
	} else {
		using = ""
	}
	if len(want) > 0 {
		d.t.Count("matching_searches", 1)
	} else {
		d.t.Count("nonmatching_searches", 1)
	}
	if !sameKeys(got, want) {
		return fmt.Sprintf("tag %v reported to %q, want %q (err %v)%s", tag, uris, keys(want), err, using)
	}
	for u, n := range got {
		if n > want[u] {
			return fmt.Sprintf("tag %v reported %d times to %s", tag, n, u)
		}
	}
	if len(want) == 0 && err == nil {
		return fmt.Sprintf("tag %v matches nothing, but no error was given", tag)
	}
	if len(want) > 0 && ok && !open && (err != nil || id != wid) {
		return fmt.Sprintf("tag %v reported as %q (err %v), want %q", tag, id, err, wid)
	}
	return ""
}

// do makes a search in the searching goroutine, and notices when it does not return
func (d *driven) do(i int) bool {
	d.job <- i
	var w string
	got := false
	o := core.Happened
	select {
	case w = <-d.ans:
	case <-time.After(2 * time.Second):
		o = core.Wait(0, 200, func() bool {
			select {
			case w = <-d.ans:
				got = true
			default:
			}
			return got
		})
	}
	if !waiting(d.t, o, "a search did not return although the owner reads the management channel") {
		return false
	}
	if w != "" {
		d.t.Fail("factory (selected so far %q): %s", d.own.selected(), w)
		return false
	}
	return true
}

// announcements judges the engines announced so far. ticks says that interval announcements are among them
func (d *driven) announcements(ticks bool) bool {
	last := -1
	for _, n := range d.own.selected() {
		if n == "" && ticks {
			continue // nothing was selected yet on that interval
		}
		p, known := priority[n]
		if !known {
			d.t.Fail("the factory announced %q", n)
			return false
		}
		if !d.sc.isDone(n) {
			d.t.Fail("the factory selected %s, which is not generated", n)
			return false
		}
		if !ticks && p <= last {
			d.t.Fail("the factory announced %q, not by increasing priority", d.own.selected())
			return false
		}
		last = p
	}
	return true
}

func names(rng *rand.Rand) []string {
	ns := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}
	rng.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	return ns
}

// generation order: engines are let through one by one, or together, while searches go on
func r02order(t *core.T) {
	pr := rand.New(rand.NewSource(t.Rng.Int63()))
	most := []int{1, 1, 1, 15, 60}[t.Rng.Intn(5)] // milliseconds the owner takes over a message
	pause := func() time.Duration { return time.Duration(pr.Intn(most)) * time.Millisecond }
	d := drive(t, t.Rng, 40, 1000000, pause)
	order := names(t.Rng)
	for _, n := range order {
		d.sc.gates[n] = make(chan struct{})
	}
	t.Note("generated in the order %q", order)
	go d.ef.Run()
	for k := 0; k < 3; k++ {
		if d.ef.IsActive() {
			t.Fail("the factory is active before any engine was generated")
		}
		if !d.do(t.Rng.Intn(len(d.ts))) {
			break
		}
	}
	together := t.Rng.Intn(4) == 0
	ok := !t.Failed()
	best := ""
	for k, n := range order {
		d.using.Store("")
		close(d.sc.gates[n])
		if best == "" || priority[n] > priority[best] {
			best = n
		}
		if !ok {
			continue // let the others through, so that the process is left in peace
		}
		if k == 0 && !together {
			if ok = waiting(t, core.Wait(0, 100, d.ef.IsActive), "the factory did not become active after %s was generated", n); !ok {
				continue
			}
			if s := d.own.selected(); len(s) > 0 && s[0] != n {
				t.Fail("%s was announced first, but %s was the only one generated", s[0], n)
			}
		}
		if t.Rng.Intn(2) == 0 {
			time.Sleep(time.Duration(t.Rng.Intn(3000)) * time.Microsecond)
		}
		if !together && t.Rng.Intn(2) == 0 { // the engine of the highest priority is announced, and nothing changes after that
			if ok = waiting(t, core.Wait(0, 100, func() bool {
				s := d.own.selected()
				return len(s) > 0 && s[len(s)-1] == best
			}), "%s is of the highest priority among the generated ones, but not selected: announced %q", best, d.own.selected()); !ok {
				continue
			}
			d.using.Store(best)
		}
		for i := 0; i < 6 && !together && ok; i++ {
			ok = d.do(t.Rng.Intn(len(d.ts))) && d.announcements(false)
		}
	}
	if t.Failed() {
		return
	}
	ok = waiting(t, core.Wait(0, 100, func() bool {
		s := d.own.selected()
		return d.sc.ndone() == d.names && len(s) > 0 && s[len(s)-1] == "PatriciaTrie"
	}), "all engines were generated, but the one of the highest priority is not selected: announced %q, generated %d", d.own.selected(), d.sc.ndone())
	d.using.Store("PatriciaTrie")
	for i := 0; ok && i < 2*len(d.ts); i++ {
		ok = d.do(i%len(d.ts)) && d.announcements(false)
	}
	t.State("announced_sequences", fmt.Sprint(d.own.selected()))
	t.State("generation_orders", fmt.Sprint(order, together))
	t.Count("announcements", len(d.own.selected()))
	t.Distinct(order, together, d.ts)
	t.Sample("engines generated in the order %q (together: %v), announced %q, %d tags", order, together, d.own.selected(), len(d.ts))
}

// performance: one engine is much faster, and is to be selected on an interval
func r02perf(t *core.T) {
	rng := rand.New(rand.NewSource(t.Rng.Int63()))
	var pauseMu sync.Mutex
	pause := func() time.Duration {
		pauseMu.Lock()
		defer pauseMu.Unlock()
		return time.Duration(rng.Intn(20)) * time.Millisecond
	}
	d := drive(t, t.Rng, 30, 1, pause)
	fast := names(t.Rng)[0]
	if t.Index == 0 {
		fast = "LegacyEngine" // the least preferred one
	}
	for n := range priority {
		if n != fast {
			d.sc.delay[n] = 20 * time.Millisecond
		}
		if t.Rng.Intn(3) == 0 {
			g := make(chan struct{})
			d.sc.gates[n] = g
			time.AfterFunc(time.Duration(t.Rng.Intn(2500))*time.Millisecond, func() { close(g) })
		}
	}
	t.Note("the fast engine is %s", fast)
	go d.ef.Run()
	hit := -1
	start := time.Now()
	for k := 0; ; k++ {
		if !d.do(t.Rng.Intn(len(d.ts))) || !d.announcements(true) {
			return
		}
		if !d.ef.IsActive() {
			time.Sleep(20 * time.Millisecond)
		}
		s := d.own.selected()
		if hit < 0 && d.sc.ndone() == d.names && len(s) > 0 && s[len(s)-1] == fast {
			hit = len(s)
			// change the fast one once
			if len(s) < 6 {
				t.Count("replaced_for_performance", 1)
			}
		}
		if hit >= 0 && len(s) > hit+1 {
			break
		}
		// ticks are counted by their announcements, not by a clock
		if len(s) > 14 {
			t.Fail("%s searches in microseconds and the others in 20 ms, but the engines announced in turn are %q", fast, s)
			return
		}
		if time.Since(start) > 120*time.Second {
			t.Inconclusive("only %d announcements in 120 s", len(s))
			return
		}
	}
	t.State("announced_sequences", fmt.Sprint(d.own.selected()))
	t.Count("announcements", len(d.own.selected()))
	t.Distinct("perf", fast, d.ts)
	t.Sample("fast engine %s, announced %q", fast, d.own.selected())
}

var r02 = &core.Check{ID: "R02", Quick: 400, Thorough: 12000, Case: func(t *core.T) {
	if t.Index%200 < 8 {
		r02perf(t)
	} else {
		r02order(t)
	}
}, Require: []string{"searches_before_active", "matching_searches", "nonmatching_searches", "announcements", "replaced_for_performance", "searches_of_known_engine", "late_owners"},
	Rule:  "a case is a factory over drawn subscriptions whose engine constructors are gated, so that generation ends in a drawn order while a searching goroutine goes on; 8 in 200 cases run on the 1 s interval with one fast and three slow engines; every answer is judged; distinct by order and tags",
	Assum: []string{"engines are the real ones behind a recording wrapper put into filtering.AvailableEngines", "a tag on which text and bit semantics differ has to be answered as one of them demands, and as the engine in use does where that is known", "one searching goroutine, as in the middleware", "a fast engine is 20 ms per search faster than the others"}}

// ---- R03

// ledger sums what is reported about an engine
type ledger struct {
	mu      sync.Mutex
	events  map[string]int64
	matches map[string]int64
	reports map[string]int
	bad     string
	thr     int
	zero    int
	most    int64
}

func (l *ledger) take(m filtering.ManagementMessage) {
	l.mu.Lock()
	defer l.mu.Unlock()
	switch m.Type {
	case filtering.TrafficStatus:
		l.events[m.EngineName] += m.EventCount
		l.matches[m.EngineName] += m.MatchedCount
		l.reports[m.EngineName]++
		if m.EventCount == 0 {
			l.zero++
		}
		if m.EventCount > l.most {
			l.most = m.EventCount
		}
		if m.EventCount < 0 || m.MatchedCount < 0 || m.MatchedCount > m.EventCount {
			l.bad = fmt.Sprintf("%s reported %d events and %d matches", m.EngineName, m.EventCount, m.MatchedCount)
		}
	case filtering.EngineStatus:
		l.thr++
		if !(m.CurrentThroughput > 0) || math.IsInf(m.CurrentThroughput, 0) {
			l.bad = fmt.Sprintf("%s reported a throughput of %v", m.EngineName, m.CurrentThroughput)
		}
	}
}

func newLedger() *ledger {
	return &ledger{events: map[string]int64{}, matches: map[string]int64{}, reports: map[string]int{}}
}

// generator alone
func r03generator(t *core.T, rng *rand.Rand) {
	w, es, _ := coincidingPool(rng, 30)
	name := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}[rng.Intn(4)]
	fast := rng.Intn(4) == 0          // searches too fast for the clock
	flood := fast && rng.Intn(2) == 0 // and more of them in an interval than 16 bits can count
	if fast {
		es = nil
		name = "List"
	}
	sub := subsRng(rng, es)
	sc := newScenario()
	mark(sub, sc)
	if fast {
		sub = filtering.Subscriptions{}
	}
	ch := make(chan filtering.ManagementMessage)
	eg := filtering.NewEngineGenerator(name, filtering.AvailableEngines[name], 1, ch)
	l := newLedger()
	generated := make(chan bool, 1)
	slow := rng.Intn(2) == 0 && !flood
	rr := rand.New(rand.NewSource(rng.Int63()))
	go func() {
		for m := range ch {
			if m.Type == filtering.OnEngineGenerated {
				generated <- true
				continue
			}
			l.take(m)
			if slow { // searches pile up while a report is being taken
				hold := time.Duration(rr.Intn(150)) * time.Millisecond
				if rr.Intn(6) == 0 { // longer than the interval
					hold = time.Duration(1000+rr.Intn(300)) * time.Millisecond
				}
				time.Sleep(hold)
			}
		}
	}()
	eg.FSM.Event(context.Background(), "init", sub)
	ready := false
	if !waiting(t, core.Wait(0, 100, func() bool {
		select {
		case <-generated:
			ready = true
		default:
		}
		return ready
	}), "%s was not generated", name) {
		return
	}
	if !eg.FSM.Is("ready") {
		t.Fail("%s announced that it is generated, but is not ready", name)
		return
	}
	ts := tags(w, es, 20)
	for i := range ts { // some have no identity, but still the leading bits of a pattern
		if rng.Intn(4) == 0 {
			ts[i].PC = []byte{byte(rng.Intn(256)), byte(rng.Intn(256))}
		}
	}
	bursts := []int{1, 3, 50, 2000}
	if fast {
		ts = []oracle.Tag{{}, {PC: []byte{0x30, 0}}, {PC: []byte{0, 0}, ID: []byte{0}}}
		bursts = []int{1, 1, 2}
	}
	if flood {
		bursts = []int{20000, 100000}
	}
	var n, hits, unnamed int64
	var cur atomic.Int64
	finished := make(chan bool)
	dur := time.Duration(2500+rng.Intn(1500)) * time.Millisecond
	go func() {
		defer close(finished)
		end := time.Now().Add(dur)
		for time.Now().Before(end) {
			for k := bursts[rng.Intn(len(bursts))]; k > 0; k-- {
				_, uris, err := eg.Search(re(ts[rng.Intn(len(ts))]))
				n++
				cur.Add(1)
				if len(uris) > 0 {
					hits++
					if err != nil {
						unnamed++
					}
				}
			}
			pause := []time.Duration{0, 3 * time.Millisecond, 60 * time.Millisecond, 1200 * time.Millisecond}[rng.Intn(4)]
			if flood {
				pause = 0
			} else if fast {
				pause = time.Duration(300+rng.Intn(600)) * time.Millisecond
			}
			time.Sleep(pause)
		}
	}()
	last, stale := int64(-1), 0
	for {
		stop := false
		select {
		case <-finished:
			stop = true
		case <-time.After(time.Second):
		}
		if stop {
			break
		}
		if c := cur.Load(); c == last {
			stale++
		} else {
			stale, last = 0, c
		}
		if stale > 60 {
			t.Fail("%s: a search did not return although its reports are read", name)
			return
		}
	}
	settle(t, l, name, n, hits, "generator "+name)
	t.Count("searches", int(n))
	t.Count("matched", int(hits))
	t.Count("matched_without_identity", int(unnamed))
	t.State("generator_kinds", fmt.Sprint(name, len(es) > 0, slow))
	t.Distinct(name, show(sub), n)
	t.Sample("generator %s: %d searches, %d matched, %d interval reports", name, n, hits, l.reports[name])
}

// settle waits for two further reports of the engine and compares the sums
func settle(t *core.T, l *ledger, name string, n, hits int64, where string) {
	l.mu.Lock()
	r0 := l.reports[name]
	l.mu.Unlock()
	if !waiting(t, core.Wait(0, 200, func() bool {
		l.mu.Lock()
		defer l.mu.Unlock()
		return l.reports[name] >= r0+3
	}), "%s: no further interval reports", where) {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	t.Eval(1)
	t.Count("interval_reports", l.reports[name])
	t.Count("throughput_reports", l.thr)
	t.Count("empty_intervals", l.zero)
	if l.most > 1<<16 {
		t.Count("intervals_beyond_16_bits", 1)
	}
	if l.bad != "" {
		t.Fail("%s: %s", where, l.bad)
	}
	if l.events[name] != n || l.matches[name] != hits {
		t.Fail("%s: %d searches of which %d reported something, but the interval reports add up to %d events and %d matches (%d reports)", where, n, hits, l.events[name], l.matches[name], l.reports[name])
	}
}

func r03factory(t *core.T, rng *rand.Rand) {
	d := drive(t, rng, 30, 1, nil)
	order := names(rng)
	for i, n := range order {
		if i > 0 && rng.Intn(2) == 0 {
			g := make(chan struct{})
			d.sc.gates[n] = g
			time.AfterFunc(time.Duration(rng.Intn(2000))*time.Millisecond, func() { close(g) })
		}
	}
	go d.ef.Run()
	end := time.Now().Add(time.Duration(3000+rng.Intn(1500)) * time.Millisecond)
	n := 0
	for time.Now().Before(end) || d.sc.ndone() < d.names {
		for k := []int{1, 20, 400}[rng.Intn(3)]; k > 0; k-- {
			if !d.do(rng.Intn(len(d.ts))) {
				return
			}
			n++
		}
		time.Sleep([]time.Duration{0, time.Millisecond, 30 * time.Millisecond}[rng.Intn(3)])
		if time.Since(end) > 60*time.Second {
			t.Inconclusive("engines were not generated in time")
			return
		}
	}
	// the owner's log is the ledger
	l := newLedger()
	seen := 0
	refresh := func() {
		ms := d.own.all()
		for _, m := range ms[seen:] {
			l.take(m)
		}
		seen = len(ms)
	}
	refresh()
	r0 := map[string]int{}
	for _, x := range order {
		r0[x] = l.reports[x]
	}
	if !waiting(t, core.Wait(0, 200, func() bool {
		refresh()
		for _, x := range order {
			if l.reports[x] < r0[x]+3 {
				return false
			}
		}
		return true
	}), "factory: no further interval reports") {
		return
	}
	d.sc.mu.Lock()
	defer d.sc.mu.Unlock()
	if l.bad != "" {
		t.Fail("factory: %s", l.bad)
	}
	for _, x := range order {
		t.Eval(1)
		t.Count("interval_reports", l.reports[x])
		if l.events[x] != d.sc.calls[x] || l.matches[x] != d.sc.hits[x] {
			t.Fail("factory: %d searches were made on %s, of which %d reported something, but its interval reports add up to %d events and %d matches", d.sc.calls[x], x, d.sc.hits[x], l.events[x], l.matches[x])
		}
	}
	t.Count("throughput_reports", l.thr)
	t.Count("empty_intervals", l.zero)
	t.Count("factory_searches", n)
	t.Distinct("factory", order, n)
	t.Sample("factory: %d searches made on it; on its engines %v, matched %v", n, d.sc.calls, d.sc.hits)
}

var r03 = &core.Check{ID: "R03", Shards: 8, Whole: func(t *core.T) {
	installOnce.Do(install)
	for round := 0; round < t.N(1, 30) && !t.Failed(); round++ {
		var wg sync.WaitGroup
		for k := 0; k < 10; k++ {
			rng := rand.New(rand.NewSource(t.Rng.Int63()))
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				if k < 6 {
					r03generator(t, rng)
				} else {
					r03factory(t, rng)
				}
			}(k)
		}
		wg.Wait()
	}
}, Require: []string{"searches", "matched", "matched_without_identity", "factory_searches", "interval_reports", "throughput_reports", "empty_intervals"},
	Rule:  "8 processes each run 6 engine generators and 4 factories side by side on the 1 s interval (30 rounds in the thorough tier), searched in bursts of 1 to 2000 with pauses of 0 to 1.2 s for 3 to 4 s; the ledger of the reports is compared with the searches counted at the engines; an evaluation is one engine's ledger",
	Assum: []string{"one searching goroutine per factory or generator, as in the middleware", "engines are the real ones behind a counting wrapper"}}

// ---- R01

// the workload must not synchronise what the code does not: no wrapper around the engines, and the goroutines
// that drive a factory share nothing but the factory
func r01factory(t *core.T, seed int64, dur time.Duration) {
	rng := rand.New(rand.NewSource(seed))
	w, es, m := coincidingPool(rng, 60)
	sub := subsRng(rng, es)
	ts := coincidingTags(w, es, m, 40)
	mc := make(chan filtering.ManagementMessage, []int{0, 128}[rng.Intn(2)])
	ef := filtering.NewEngineFactory(sub, 1, mc)
	var stop atomic.Bool
	var wg sync.WaitGroup
	var msgs, sel, polls, active, searches, matched int
	kinds := map[string]bool{}
	quit := make(chan bool)
	wg.Add(3)
	go func() { // owner
		defer wg.Done()
		for {
			select {
			case x := <-mc:
				msgs++
				if x.Type == filtering.SelectedEngine {
					sel++
					kinds[x.EngineName] = true
				}
			case <-quit:
				go func() { // keep reading for those who still send
					for range mc {
					}
				}()
				return
			}
		}
	}()
	r2 := rand.New(rand.NewSource(rng.Int63()))
	go func() { // poller
		defer wg.Done()
		for !stop.Load() {
			polls++
			if ef.IsActive() {
				active++
			}
			time.Sleep(time.Duration(r2.Intn(2000)) * time.Microsecond)
		}
	}()
	early := rng.Intn(2) == 0
	go ef.Run()
	r3 := rand.New(rand.NewSource(rng.Int63()))
	go func() { // reading loop
		defer wg.Done()
		for !early && !ef.IsActive() && !stop.Load() {
			time.Sleep(time.Millisecond)
		}
		for !stop.Load() {
			for k := r3.Intn(60); k > 0 && !stop.Load(); k-- {
				_, uris, _ := ef.Search(re(ts[r3.Intn(len(ts))]))
				searches++
				if len(uris) > 0 {
					matched++
				}
			}
			time.Sleep(time.Duration(r3.Intn(3000)) * time.Microsecond)
		}
	}()
	time.Sleep(dur)
	stop.Store(true)
	done := make(chan bool)
	go func() {
		time.Sleep(200 * time.Millisecond) // the reading loop may need the owner to finish a search
		close(quit)
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Inconclusive("the workload did not end")
		return
	}
	t.Eval(searches)
	t.Count("searches", searches)
	t.Count("matched", matched)
	t.Count("messages", msgs)
	t.Count("selections_announced", sel)
	t.Count("activity_polls", polls)
	t.Count("polls_while_active", active)
	t.State("engines_selected", fmt.Sprint(keysOf(kinds)))
	t.Distinct(seed)
	t.Sample("factory over %d subscriptions: %d searches (%d matched), %d messages, %d selections of %v, %d polls", len(es), searches, matched, msgs, sel, keysOf(kinds), polls)
}

func keysOf(m map[string]bool) []string {
	x := map[string]int{}
	for k := range m {
		x[k] = 1
	}
	return keys(x)
}

// r01middleware runs the middleware itself, built with the race detector
func r01middleware(t *core.T, seed int64) {
	bin := os.Getenv("VERIF_FC")
	if bin == "" {
		return
	}
	rng := rand.New(rand.NewSource(seed))
	w, ps, hit := fcrun.World(rng, 1+rng.Intn(40))
	f := fcrun.Start(t, fcrun.Config{Bin: bin, MessageID: 1, Interval: 1, Patterns: ps, URIs: 3})
	if f == nil {
		return
	}
	defer f.Stop()
	if _, ok := f.Warm(rng, hit); !ok {
		return
	}
	var wg sync.WaitGroup
	for k := 0; k < 3; k++ {
		r := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if hostile.Echo(r, f.Mgmt, 2) == nil {
				t.Count("management_clients", 1)
			}
		}()
	}
	if !f.Stream(rng, append(fcrun.Tags(w, ps, 100), hit), t.N(120, 600), 500) || !f.Barrier(rng) || !f.Quiet() {
		return
	}
	wg.Wait()
	a, b, c := f.Sent()
	t.Eval(int(a))
	t.Count("middleware_runs", 1)
	t.Count("middleware_tags", int(a))
	t.Distinct("middleware", seed)
	t.Sample("the middleware with %d subscriptions: %d tags, %d matching, %d answers", len(ps), a, b, c)
}

var r01 = &core.Check{ID: "R01", Race: true, Shards: 8, Whole: func(t *core.T) {
	for name, mk := range filtering.AvailableEngines { // engines become ready at different moments
		mk := mk
		filtering.AvailableEngines[name] = func(sub filtering.Subscriptions) filtering.Engine {
			if rand.Intn(2) == 0 {
				time.Sleep(time.Duration(rand.Intn(1500)) * time.Millisecond)
			}
			return mk(sub)
		}
	}
	for round := 0; round < t.N(2, 40); round++ {
		var wg sync.WaitGroup
		if t.Index%2 == 0 {
			seed := t.Rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r01middleware(t, seed)
			}()
		}
		for k := 0; k < 3; k++ {
			seed := t.Rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r01factory(t, seed, time.Duration(t.N(4500, 8000))*time.Millisecond)
			}()
		}
		wg.Wait()
	}
}, Require: []string{"searches", "matched", "messages", "selections_announced", "activity_polls", "polls_while_active", "middleware_runs", "middleware_tags"},
	Rule:  "8 processes built with the race detector each run 3 factories side by side, twice (40 times), each with an owner reading messages, a poller of its activity and a reading loop that searches, over several 1 s statistics intervals; every second process also runs the middleware built with the race detector, with a stand-in reader and store and three management clients; distinct by factory and middleware run",
	Assum: []string{"the race detector reports unsynchronised pairs that executed, whatever their timing", "one searching goroutine per factory"}}
