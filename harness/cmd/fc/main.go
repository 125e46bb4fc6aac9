// Command fc runs the middleware and the capture endpoint: E01, E02, E03
package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iomz/go-llrp"

	"verifharness/core"
	"verifharness/fcrun"
	"verifharness/hostile"
	"verifharness/oracle"
)

var fcBin = os.Getenv("VERIF_FC")

func e01(t *core.T) {
	size := 1 + t.Rng.Intn(60)
	if t.Rng.Intn(6) == 0 {
		size = 150 + t.Rng.Intn(250)
	}
	if (t.Index+t.Index/8)%8 == 7 {
		size = t.N(400, 1000)
	}
	w, ps, hit := fcrun.World(t.Rng, size)
	for i := 0; i < 40 && size >= 400 && len(ps) < 120; i++ { // enough work for a search to take long
		w, ps, hit = fcrun.World(t.Rng, size)
	}
	cfg := fcrun.Config{Bin: fcBin, MessageID: uint32(t.Rng.Intn(1 << 20)), Interval: 1, Patterns: ps, URIs: 1 + t.Rng.Intn(9)}
	if t.Rng.Intn(4) == 0 {
		cfg.MessageID = []uint32{0, 1, 1000, 0x7fffffff, 65536, 0x80000000, 0xffffffff, t.Rng.Uint32()}[t.Rng.Intn(8)]
	}
	kind := "plain"
	switch (t.Index + t.Index/8) % 8 {
	case 2:
		kind, cfg.Patterns = "no subscriptions", nil
	case 3:
		kind, cfg.NoStat = "no statistics", true
	case 5: // the store is slow at times, and statistics pile up
		kind = "slow store"
		rng := rand.New(rand.NewSource(t.Rng.Int63()))
		var mu sync.Mutex
		one := 16 + rng.Intn(30) // on average it keeps up
		cfg.Delay = func() time.Duration {
			mu.Lock()
			defer mu.Unlock()
			if rng.Intn(one) == 0 {
				return time.Duration(300+rng.Intn(1200)) * time.Millisecond
			}
			return time.Duration(rng.Intn(10)) * time.Millisecond
		}
	case 7:
		kind = "large reports"
	case 6:
		kind, cfg.Late = "late reader", time.Duration(1500+t.Rng.Intn(2500))*time.Millisecond
	}
	f := fcrun.Start(t, cfg)
	if f == nil {
		return
	}
	defer f.Stop()
	t.State("kinds", kind)
	if cfg.NoStat {
		// only the answers can be seen; long enough for what nobody takes to pile up
		pool := append(fcrun.Tags(w, ps, 200), hit)
		for end := time.Now().Add(time.Duration(t.N(18, 90)) * time.Second); time.Now().Before(end); {
			if !f.Stream(t.Rng, pool, 20+t.Rng.Intn(60), t.N(1000, 10000)) || !f.Barrier(t.Rng) {
				return
			}
			time.Sleep(time.Duration(t.Rng.Intn(1500)) * time.Millisecond)
		}
		if f.JudgeAnswers() {
			a, b, c := f.Sent()
			t.Count("answers", c)
			t.Eval(c)
			t.Count("streams", 1)
			t.Sample("without statistics, %d subscriptions; %d tags sent, %d matching; %d answers", len(ps), a, b, c)
		}
		return
	}
	base, ok := f.Warm(t.Rng, hit)
	if !ok {
		return
	}
	pool := append(fcrun.Tags(w, ps, 200), hit)
	for i := 0; kind == "slow store" && i < t.N(12, 40); i++ { // over many intervals
		if !f.Stream(t.Rng, pool, 10, 300) {
			return
		}
		time.Sleep(time.Duration(500+t.Rng.Intn(700)) * time.Millisecond)
	}
	if kind == "large reports" {
		t0 := time.Now()
		if !f.Large(t.Rng, pool, 3, 1<<20+t.Rng.Intn(t.N(1<<21, 1<<23))) {
			return
		}
		t1 := time.Now()
		if !f.Barrier(t.Rng) {
			return
		}
		t.Sample("%d subscriptions: three large reports sent in %v, taken in %v", len(ps), t1.Sub(t0), time.Since(t0))
	}
	if !f.Stream(t.Rng, pool, t.N(250, 900)+t.Rng.Intn(100), t.N(5000, 60000)) {
		return
	}
	if f.Settle(t.Rng, base) {
		a, b, c := f.Sent()
		t.Sample("%s, %d subscriptions; %d tags sent, %d matching; %d answers with message ID %d", kind, len(ps), a, b, c, cfg.MessageID)
		t.Count("streams", 1)
	}
}

func vm(pid int, key string) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, key+":") {
			n, _ := strconv.ParseInt(strings.Fields(l)[1], 10, 64)
			return n // KiB
		}
	}
	return 0
}

// a message whose declared length is shorter than its header
func badLength(t *core.T, length uint32) {
	_, ps, hit := fcrun.World(t.Rng, 5)
	f := fcrun.Start(t, fcrun.Config{Bin: fcBin, MessageID: 7, Interval: 1, Patterns: ps, URIs: 2})
	if f == nil {
		return
	}
	defer f.Stop()
	for i := t.Rng.Intn(3); i > 0; i-- {
		if !f.Send(t.Rng, f.Report(t.Rng, []oracle.Tag{hit}), 0) {
			return
		}
	}
	if !f.Barrier(t.Rng) {
		return
	}
	n := len(f.Answers())
	before := vm(f.Pid, "VmPeak")
	typ := []uint16{llrp.ROAccessReportHeader, llrp.KeepaliveHeader, llrp.ReaderEventNotificationHeader, llrp.SetReaderConfigResponseHeader}[t.Rng.Intn(4)]
	b := fcrun.Message(typ, t.Rng.Uint32(), nil)
	binary.BigEndian.PutUint32(b[2:], length)
	b = append(b, fcrun.Message(llrp.KeepaliveHeader, 1, nil)...)
	b = append(b, make([]byte, t.Rng.Intn(300))...)
	if _, err := f.Reader.Write(b); err != nil {
		t.Fail("writing: %v", err)
		return
	}
	peak := before
	o := core.Wait(f.Pid, 100, func() bool {
		if p := vm(f.Pid, "VmPeak"); p > peak {
			peak = p
		}
		return f.Exited() || f.Closed() || len(f.Answers()) > n
	})
	t.Eval(1)
	switch {
	case o == core.Stuck:
		t.Fail("a message of type %d with the declared length %d: the middleware waits for more; its address space grew from %d to %d KiB", typ, length, before, peak)
	case o == core.TooSlow:
		t.Inconclusive("bad length: not in time")
	case peak-before > 1<<20:
		t.Fail("a message of type %d with the declared length %d: the address space grew from %d to %d KiB", typ, length, before, peak)
	case strings.Contains(f.Stderr(), "panic:") || strings.Contains(f.Stderr(), "fatal error:"):
		t.Fail("a message of type %d with the declared length %d crashed the middleware: %s", typ, length, f.Tail())
	default:
		t.Count("bad_lengths_refused", 1)
		t.Distinct("length", length, typ)
	}
}

// a header block which declares what it does not have; the address space is limited for the test's own sake
func badHeaders(t *core.T, token string, words ...uint32) {
	_, ps, _ := fcrun.World(t.Rng, 5)
	f := fcrun.Start(t, fcrun.Config{Bin: fcBin, MessageID: 7, Interval: 1, Patterns: ps, URIs: 2, AS: 6 << 20})
	if f == nil {
		return
	}
	defer f.Stop()
	if headerBomb(t, f, token, words...) && f.Barrier(t.Rng) {
		f.JudgeAnswers()
	}
}

// headerBomb sends the header block; false if the program ended of it
func headerBomb(t *core.T, f *fcrun.FC, token string, words ...uint32) bool {
	for i := 0; i < 4; i++ { // several, as each is within what the process may still have
		c, err := net.Dial("tcp", f.Mgmt)
		if err != nil && i == 0 {
			t.Fail("the port refused a connection: %v", err)
			return false
		}
		if err == nil {
			defer c.Close()
			c.Write(hostile.HeaderBlock(words...))
			time.Sleep(50 * time.Millisecond)
		}
	}
	o := core.Wait(f.Pid, 40, f.Exited)
	t.Eval(1)
	t.Distinct("headers", words)
	if o == core.Happened {
		s := f.Tail()
		if i := strings.Index(s, "\n\n"); i > 0 {
			s = s[:i]
		}
		t.Finding(token, "a SYN_STREAM frame whose header block starts with "+fmt.Sprintf("%#x", words)+" ends the process: "+strings.Join(strings.Fields(s), " "))
		return false
	}
	return true
}

// sockets the program has
func sockets(pid int) int {
	d := fmt.Sprintf("/proc/%d/fd", pid)
	es, _ := os.ReadDir(d)
	n := 0
	for _, e := range es {
		if l, _ := os.Readlink(d + "/" + e.Name()); strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// released waits until the program has given up the sockets of the peers which are gone
func released(t *core.T, f *fcrun.FC, base int) bool {
	const slack = 4 // connections to the statistics store come and go
	now := 0
	switch core.Wait(f.Pid, 200, func() bool { now = sockets(f.Pid); return now <= base+slack || f.Exited() }) {
	case core.Stuck:
		t.Fail("the peers are gone and the program is idle, but it has %d sockets, %d before", now, base)
		return false
	case core.TooSlow:
		t.Inconclusive("releasing sockets: %d, %d before", now, base)
		return false
	}
	t.Count("releases_seen", 1)
	t.Eval(1)
	return true
}

// jam makes peers leave a worker of the SPDY library stuck, with more frames behind it than its queue takes
func jam(t *core.T, f *fcrun.FC) {
	base := sockets(f.Pid)
	for i := 0; i < 20; i++ {
		c, err := net.Dial("tcp", f.Mgmt)
		if err != nil {
			t.Fail("the port refused a connection: %v", err)
			return
		}
		c.Write(hostile.Jam(100))
		c.Close()
	}
	now := 0
	o := core.Wait(f.Pid, 40, func() bool { now = sockets(f.Pid); return now <= base+4 || f.Exited() })
	t.Eval(1)
	t.Distinct("jam")
	switch {
	case o == core.TooSlow:
		t.Inconclusive("jam: not in time")
	case o == core.Stuck:
		t.Finding("spdy-jammed-queue", fmt.Sprintf("20 peers that open a unidirectional stream, reset it, send 100 data frames for it and leave: the program keeps their connections (%d sockets, %d before)", now, base))
	}
	if o != core.TooSlow {
		echo(t, f)
	}
}

// attack runs hostile peers; limited: the middleware has few descriptors
func attack(t *core.T, limited bool) {
	w, ps, hit := fcrun.World(t.Rng, 1+t.Rng.Intn(30))
	cfg := fcrun.Config{Bin: fcBin, MessageID: uint32(t.Rng.Intn(1 << 20)), Interval: 1, Patterns: ps, URIs: 3}
	if limited {
		cfg.NoFile = 60 + t.Rng.Intn(100)
	}
	f := fcrun.Start(t, cfg)
	if f == nil {
		return
	}
	defer f.Stop()
	base, ok := f.Warm(t.Rng, hit)
	if !ok {
		return
	}
	before := sockets(f.Pid)
	if !echo(t, f) {
		return
	}
	stay := newLasting(t, f)
	if stay == nil {
		return
	}
	defer stay.s.Close()
	sw := newSwarm(t, f.Mgmt, t.N(300, 2000), f.Exited)
	defer sw.drop()
	pool := append(fcrun.Tags(w, ps, 100), hit)
	if !f.Stream(t.Rng, pool, t.N(150, 600), 2000) {
		return
	}
	sw.wg.Wait()
	if !limited && !echo(t, f) || !stay.finish(t, f) {
		return
	}
	if !f.Settle(t.Rng, base) {
		return
	}
	sw.drop()
	if !echo(t, f) || !released(t, f, before) {
		return
	}
	kk := sw.report(t)
	a, b, c := f.Sent()
	t.Sample("descriptors %d (0: no limit); connections of each kind %v; %d tags sent, %d matching; %d answers", cfg.NoFile, kk, a, b, c)
	if limited {
		t.Count("out_of_descriptors", strings.Count(f.Stderr(), "too many open files"))
	}
}

// swarm is hostile peers at work
type swarm struct {
	mu    sync.Mutex
	held  []net.Conn
	wg    sync.WaitGroup
	kinds [hostile.Kinds]atomic.Int64
	errs  atomic.Int64
}

func newSwarm(t *core.T, addr string, n int, ended func() bool) *swarm {
	sw := &swarm{}
	for p := 0; p < 4; p++ {
		rng := rand.New(rand.NewSource(t.Rng.Int63()))
		sw.wg.Add(1)
		go func() {
			defer sw.wg.Done()
			for i := 0; i < n/4; i++ {
				k := rng.Intn(hostile.Kinds)
				c, err := hostile.Attack(rng, addr, k)
				if err != nil {
					sw.errs.Add(1)
					if ended() {
						return
					}
					continue
				}
				sw.kinds[k].Add(1)
				sw.mu.Lock()
				if c != nil {
					sw.held = append(sw.held, c)
				}
				if rng.Intn(20) == 0 && len(sw.held) > 0 {
					sw.held[0].Close()
					sw.held = sw.held[1:]
				}
				sw.mu.Unlock()
			}
		}()
	}
	return sw
}

func (sw *swarm) drop() {
	sw.mu.Lock()
	defer sw.mu.Unlock()
	for _, c := range sw.held {
		c.Close()
	}
	sw.held = nil
}

func (sw *swarm) report(t *core.T) (kk [hostile.Kinds]int64) {
	for i := range kk {
		kk[i] = sw.kinds[i].Load()
		t.Count("connections", int(kk[i]))
		if kk[i] > 0 {
			t.State("attack_kinds", i)
		}
	}
	t.Count("refused_connections", int(sw.errs.Load()))
	t.Distinct("attack", kk)
	return
}

// served waits for what a conforming client does
func served(t *core.T, f *fcrun.FC, what string, do func() error) bool {
	var done atomic.Bool
	var err error
	go func() {
		err = do()
		done.Store(true)
	}()
	if !f.Wait(300, what, done.Load) {
		return false
	}
	if err != nil {
		t.Fail("%s: a conforming client was not served: %v", what, err)
		return false
	}
	t.Eval(1)
	return true
}

// echo has a conforming client served
func echo(t *core.T, f *fcrun.FC) bool {
	rng := rand.New(rand.NewSource(t.Rng.Int63()))
	if !served(t, f, "serving a conforming client", func() error { return hostile.Echo(rng, f.Mgmt, 1+rng.Intn(3)) }) {
		return false
	}
	t.Count("echoes", 1)
	return true
}

// lasting is a conforming client that stays connected, with a stream open, and is idle for long
type lasting struct {
	s     *hostile.Session
	since time.Time
	idle  time.Duration
}

func newLasting(t *core.T, f *fcrun.FC) *lasting {
	rng := rand.New(rand.NewSource(t.Rng.Int63()))
	l := &lasting{}
	if !served(t, f, "serving a client that stays", func() (err error) {
		if l.s, err = hostile.Open(rng, f.Mgmt); err == nil {
			if err = l.s.Stream(); err == nil {
				err = l.s.Exchange(2)
			}
		}
		return
	}) {
		return nil
	}
	l.since = time.Now()
	switch t.Index % 16 { // a few cases are drawn out
	case 13, 6:
		l.idle = 12 * time.Second
	case 14:
		l.idle = 33 * time.Second
		if t.Thorough() {
			l.idle = 130 * time.Second
		}
	}
	return l
}

// finish has the stream that was idle used again, and another one
func (l *lasting) finish(t *core.T, f *fcrun.FC) bool {
	time.Sleep(l.idle - time.Since(l.since))
	d := time.Since(l.since)
	defer l.s.Close()
	if !served(t, f, fmt.Sprintf("serving a client that was idle for %v", d), func() error {
		if err := l.s.Exchange(2); err != nil {
			return err
		}
		if err := l.s.End(); err != nil {
			return err
		}
		if err := l.s.Stream(); err != nil {
			return err
		}
		if err := l.s.Exchange(1); err != nil {
			return err
		}
		return l.s.End()
	}) {
		return false
	}
	t.Count("lasting_clients", 1)
	if l.idle > 0 {
		t.Count("long_idle_clients", 1)
	}
	return true
}

func e02(t *core.T) {
	switch i := t.Index; {
	case i < 10:
		badLength(t, uint32(i))
	case i == 10:
		badHeaders(t, "spdy-header-count", 0xf0000000)
	case i == 11:
		badHeaders(t, "spdy-header-length", 1, 64<<20)
	case i == 12:
		_, ps, _ := fcrun.World(t.Rng, 5)
		if f := fcrun.Start(t, fcrun.Config{Bin: fcBin, MessageID: 7, Interval: 1, Patterns: ps, URIs: 2}); f != nil {
			defer f.Stop()
			jam(t, f)
		}
	default:
		attack(t, i%4 == 0)
	}
}

// capture runs the capture endpoint; nil if judged already
func capture(t *core.T, limits string) *fcrun.FC {
	bin := os.Getenv("VERIF_EC")
	for try := 0; try < 20; try++ {
		port := 15000 + t.Rng.Intn(15000)
		f := fcrun.StartOther(t, limits, bin, "-p", strconv.Itoa(port))
		if f == nil {
			return nil
		}
		f.Mgmt = fmt.Sprintf("127.0.0.1:%d", port)
		o := core.Wait(f.Pid, 200, func() bool { return f.Exited() || strings.Contains(f.Stderr(), "Listening at") })
		if o == core.Stuck { // it may listen and not say so
			if c, err := net.Dial("tcp", f.Mgmt); err == nil {
				c.Close()
				o = core.Happened
			}
		}
		if o == core.Happened && !f.Exited() {
			return f
		}
		out := f.Tail()
		f.Stop()
		if o == core.TooSlow {
			t.Inconclusive("the capture endpoint did not start in time")
			return nil
		}
		if !strings.Contains(out, "address already in use") {
			t.Fail("the capture endpoint does not listen: %s", out)
			return nil
		}
	}
	t.Inconclusive("no free port")
	return nil
}

// addresses of this host: one of the loopback network, and those of its interfaces
func addresses(rng *rand.Rand) (r []string) {
	as, _ := net.InterfaceAddrs()
	for _, a := range as {
		if n, ok := a.(*net.IPNet); ok && n.IP.To4() != nil {
			r = append(r, n.IP.String())
		}
	}
	rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	if len(r) > 3 {
		r = r[:3]
	}
	return append(r, fmt.Sprintf("127.%d.%d.%d", rng.Intn(256), rng.Intn(256), 2+rng.Intn(200)))
}

func e03(t *core.T) {
	if t.Index == 0 {
		f := capture(t, "ulimit -v 6291456; ")
		if f == nil {
			return
		}
		defer f.Stop()
		headerBomb(t, f, "spdy-header-count", 0xf0000000)
		return
	}
	limits, nofile := "", 0
	if t.Index%3 == 0 {
		nofile = 30 + t.Rng.Intn(100)
		limits = fmt.Sprintf("ulimit -n %d; ", nofile)
	}
	f := capture(t, limits)
	if f == nil {
		return
	}
	defer f.Stop()
	if t.Index == 1 {
		jam(t, f)
		return
	}
	before := sockets(f.Pid)
	if !echo(t, f) {
		return
	}
	// whichever address of the host it is reached on
	_, port, _ := net.SplitHostPort(f.Mgmt)
	for _, a := range addresses(t.Rng) {
		if f.Mgmt = net.JoinHostPort(a, port); !echo(t, f) {
			return
		}
		t.Count("other_addresses", 1)
	}
	stay := newLasting(t, f)
	if stay == nil {
		return
	}
	defer stay.s.Close()
	sw := newSwarm(t, f.Mgmt, t.N(400, 3000), f.Exited)
	defer sw.drop()
	for i := 0; i < 3 && nofile == 0; i++ {
		if !echo(t, f) {
			return
		}
	}
	sw.wg.Wait()
	if nofile == 0 && !echo(t, f) || !stay.finish(t, f) {
		return
	}
	sw.drop()
	if !echo(t, f) || !released(t, f, before) {
		return
	}
	if f.Exited() {
		t.Fail("the capture endpoint ended: %s", f.Tail())
		return
	}
	kk := sw.report(t)
	t.Sample("descriptors %d (0: no limit); connections of each kind %v", nofile, kk)
	if nofile != 0 {
		t.Count("out_of_descriptors", strings.Count(f.Stderr(), "too many open files"))
	}
}

func main() {
	core.Main(
		&core.Check{ID: "E01", Quick: 24, Thorough: 80, Case: e01, Require: []string{"streams", "tags_matched", "answers", "reports_over_1MiB"},
			Rule:  "a case is a run of the gosstrak-fc binary with a drawn subscription file, a stand-in reader and a stand-in statistics store; a drawn stream of keepalives, notifications, configuration responses and access reports of 0 to thousands of tags is written in drawn pieces; every eighth run sends three reports of 1 to 3 MiB (thorough: 9 MiB) back to back, which take seconds to search; distinct by the message sequence",
			Assum: []string{"subscriptions and tags are drawn so that text and bit semantics coincide, so that every engine must count the same matches"}},
		&core.Check{ID: "E02", Quick: 24, Thorough: 120, Case: e02, Require: []string{"bad_lengths_refused", "connections", "echoes", "attack_kinds", "tags_matched", "releases_seen", "lasting_clients", "long_idle_clients"},
			Rule: "cases 0-9 send a message of that declared length; cases 10-11 send SPDY header blocks with huge declared counts or lengths; case 12 jams the frame queues; the others run the binary under hundreds of hostile management connections of 16 kinds while a reader stream is processed, every fourth with few descriptors; distinct by length or by connections of each kind"},
		&core.Check{ID: "E03", Quick: 16, Thorough: 160, Case: e03, Require: []string{"connections", "other_addresses", "echoes", "attack_kinds", "out_of_descriptors", "releases_seen", "lasting_clients", "long_idle_clients"},
			Rule: "case 0 sends a SPDY header block with a huge declared count; case 1 jams the frame queues; the others run the ale-ec binary under hundreds of hostile connections of 16 kinds, with a conforming client before, during and after; every third with few descriptors; distinct by connections of each kind"},
		&core.Check{ID: "E05", Quick: 120, Thorough: 1500, Case: e05, Require: []string{"ended_with_failure", "kinds_of_end", "configured_runs", "runs_without_store"},
			Rule:  "a case runs the gosstrak-fc (or ale-ec) binary, answers a drawn stream of messages, and then takes away what it cannot go on without (12 kinds, repeated with other draws), or checks credentials, database, message ID and interval it was configured with or has by default, or takes the store away from a run without statistics; distinct by kind and case",
			Assum: []string{"to end with a failure status is what the code does (log.Fatal) when its reader, store, subscription file or address fails it", "a reader that ends inside a message does not keep the connection open"}},
		&core.Check{ID: "E04", Quick: 8, Thorough: 24, Case: e04, Require: []string{"steady_runs", "steady_captures", "collections_observed", "clients_served", "tags_matched", "control_messages"},
			Rule: "a case runs the gosstrak-fc binary, or every fourth time the ale-ec binary, and compares what it holds (live heap and stacks as its own collector reports them, sockets, threads) after a first stretch of work and after a much longer one of the same kind; at the end its goroutines are counted from a dump; distinct by the work done"},
	)
}
