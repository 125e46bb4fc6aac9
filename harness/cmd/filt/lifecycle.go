package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
)

var lifeOnce sync.Once
var lifeBuilt int64
var lifeGate atomic.Value // chan struct{}

// lifeInstall counts what the constructors build and makes them wait
func lifeInstall() {
	for name, mk := range filtering.AvailableEngines {
		mk := mk
		filtering.AvailableEngines[name] = func(sub filtering.Subscriptions) filtering.Engine {
			<-lifeGate.Load().(chan struct{})
			atomic.AddInt64(&lifeBuilt, 1)
			return mk(sub)
		}
	}
}

// r04: the life of an engine generator
func r04(t *core.T) {
	lifeOnce.Do(lifeInstall)
	rng := t.Rng
	w, es, m := coincidingPool(rng, 20)
	name := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}[rng.Intn(4)]
	capacity := []int{0, 0, 1, 128}[rng.Intn(4)]
	t.Note("%s, channel capacity %d, %d subscriptions", name, capacity, len(es))
	gate := make(chan struct{})
	lifeGate.Store(gate)
	atomic.StoreInt64(&lifeBuilt, 0)
	mc := make(chan filtering.ManagementMessage, capacity)
	var eg *filtering.EngineGenerator
	var announced, wrong int64
	var odd atomic.Value
	var paused sync.Mutex // an owner that is busy
	eg = filtering.NewEngineGenerator(name, filtering.AvailableEngines[name], 3600, mc)
	go func() {
		for msg := range mc {
			if msg.Type == filtering.OnEngineGenerated {
				switch {
				case msg.EngineGeneratorInstance != eg:
					odd.Store("announced another generator")
				case eg.Engine == nil:
					odd.Store("announced itself without an engine")
				case eg.Engine.Name() != name:
					odd.Store("announced an engine " + eg.Engine.Name())
				}
				if odd.Load() != nil {
					atomic.AddInt64(&wrong, 1)
				}
				atomic.AddInt64(&announced, 1)
			}
			paused.Lock()
			paused.Unlock()
		}
	}()
	bg := context.Background()
	refused := func(state string, events ...string) bool {
		for _, e := range events {
			t.Eval(1)
			n := atomic.LoadInt64(&announced)
			var err error
			ended := make(chan struct{})
			go func() {
				err = eg.FSM.Event(bg, e, &filtering.ManagementMessage{Type: filtering.AddSubscription})
				close(ended)
			}()
			if !waiting(t, core.Wait(0, 100, func() bool {
				select {
				case <-ended:
					return true
				default:
					return false
				}
			}), "%s: the event %s in the state %s never ended", name, e, state) {
				return false
			}
			if err == nil {
				t.Fail("%s: the event %s was accepted in the state %s", name, e, state)
				return false
			}
			if !eg.FSM.Is(state) || atomic.LoadInt64(&announced) != n {
				t.Fail("%s: the refused event %s left the state %s (announced %d times, before %d)", name, e, eg.FSM.Current(), announced, n)
				return false
			}
			t.Count("refused_events", 1)
		}
		return true
	}
	if !eg.FSM.Is("unavailable") {
		t.Fail("%s begins in the state %s", name, eg.FSM.Current())
		return
	}
	if !refused("unavailable", "deploy", "update", "rebuild") {
		return
	}
	if err := eg.FSM.Event(bg, "init", subsRng(rng, es)); err != nil {
		t.Fail("%s: init: %v", name, err)
		return
	}
	if !refused("generating", "update", "rebuild") {
		return
	}
	if n := atomic.LoadInt64(&announced); n != 0 {
		t.Fail("%s announced itself %d times before its engine was built", name, n)
		return
	}
	close(gate)
	if !waiting(t, core.Wait(0, 100, func() bool { return atomic.LoadInt64(&announced) > 0 && eg.FSM.Is("ready") }), "%s was built and is not announced, its state is %s", name, eg.FSM.Current()) {
		return
	}
	ts := coincidingTags(w, es, m, 12)
	if len(ts) == 0 {
		return
	}
	searchAll := func(where string) bool {
		for _, tag := range ts {
			id, uris, err := eg.Search(re(tag))
			if !judge(t, name, tag, want(m, name, tag), where, id, uris, err) {
				return false
			}
		}
		return true
	}
	if !searchAll("generated") {
		return
	}
	expect := int64(1)
	for round := 0; round < 1+rng.Intn(4); round++ {
		if !refused("ready", "init", "deploy", "rebuild") {
			return
		}
		workers, each := 1+rng.Intn(4), 1+rng.Intn(3)
		var done sync.WaitGroup
		var accepted, finished int64
		kinds := []filtering.ManagementMessageType{filtering.AddSubscription, filtering.DeleteSubscription}
		busy := rng.Intn(3) == 0
		if busy {
			paused.Lock()
		}
		stop := make(chan struct{})
		searched := make(chan bool, 1)
		go func() { // one searching goroutine goes on meanwhile
			ok := true
			for {
				ok = ok && searchAll("while updated")
				select {
				case <-stop:
					searched <- ok
					return
				default:
				}
			}
		}()
		for g := 0; g < workers; g++ {
			done.Add(1)
			rr := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer done.Done()
				for i := 0; i < each; i++ {
					err := eg.FSM.Event(bg, "update", &filtering.ManagementMessage{Type: kinds[rr.Intn(2)], Pattern: []string{"", "urn:epc:pat:sgtin-96:3.1234567", "no pattern"}[rr.Intn(3)], ReportURI: []string{"", uri(1), uri(0)}[rr.Intn(3)]})
					if err == nil {
						atomic.AddInt64(&accepted, 1)
					}
				}
				atomic.AddInt64(&finished, 1)
			}()
		}
		if busy {
			time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			paused.Unlock()
		}
		ok := waiting(t, core.Wait(0, 100, func() bool { return atomic.LoadInt64(&finished) == int64(workers) }),
			"%s: %d of %d updaters never ended, the state is %s, announced %d times", name, int64(workers)-finished, workers, eg.FSM.Current(), announced)
		close(stop)
		if !ok {
			return
		}
		if !<-searched {
			return
		}
		expect += accepted
		if workers == 1 && accepted != int64(each) {
			t.Fail("%s: %d of %d updates, one after the other, were accepted", name, accepted, each)
			return
		}
		if !waiting(t, core.Wait(0, 100, func() bool { return atomic.LoadInt64(&announced) >= expect }), "%s announced itself %d times after %d accepted updates, want %d", name, announced, accepted, expect) {
			return
		}
		t.Count("updates", int(accepted))
		t.State("updaters", fmt.Sprint(workers, each, accepted, capacity, busy))
		if !eg.FSM.Is("ready") || !searchAll("updated") {
			if !t.Failed() {
				t.Fail("%s is %s after its updates", name, eg.FSM.Current())
			}
			return
		}
	}
	time.Sleep(2 * time.Millisecond)
	if n := atomic.LoadInt64(&announced); n != expect {
		t.Fail("%s announced itself %d times, want %d: once for the engine and once for each update", name, n, expect)
		return
	}
	if o := odd.Load(); o != nil {
		t.Fail("%s %s", name, o)
		return
	}
	if n := atomic.LoadInt64(&lifeBuilt); n != 1 {
		t.Fail("%s was built %d times", name, n)
		return
	}
	t.Count("announcements", int(expect))
	t.Distinct(name, capacity, expect, es)
	t.Sample("%s, channel capacity %d: announced %d times", name, capacity, expect)

}

var r04check = &core.Check{ID: "R04", Quick: 160, Thorough: 12000, Case: r04, Require: []string{"updates", "refused_events", "announcements", "matching_searches"},
	Rule:  "a case is a generator taken from birth through generation (its constructor held back) to 1-4 rounds of updates from 1-4 goroutines while another searches and the owner reads at once or late; distinct by engine, channel capacity, subscriptions and number of announcements",
	Assum: []string{"updates carry subscriptions but do not change the engine, as the code stands; a search must be answered from the subscriptions given at generation", "updates that meet one another may be refused; accepted ones are counted"}}
