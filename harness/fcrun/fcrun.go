// Package fcrun runs the middleware with a stand-in reader and a stand-in statistics store, and records
// what it answers and publishes
package fcrun

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/influx"
	"verifharness/oracle"
)

// Config of a run
type Config struct {
	Bin       string
	MessageID uint32
	Interval  int
	Patterns  []oracle.Pat
	URIs      int
	Env       []string
	NoFile    int   // limit of descriptors, 0 for none
	AS        int64 // limit of address space in KiB, 0 for none
	NoStat    bool
	Delay     func() time.Duration // of the statistics store
	Late      time.Duration        // until the reader comes up
	Extra     []string             // further arguments
	File      *string              // instead of the subscription file; empty for none
	Busy      bool                 // the management address is in use
	Doomed    bool                 // it is not expected to come up
	Refuse    func() int           // HTTP status of the statistics store, 0 for success
	Defaults  bool                 // leave the message ID and the interval to the program, which should use those given here
}

// Answer is a message the middleware sent to the reader
type Answer struct {
	Header uint16
	ID     uint32
	Len    int
}

// FC is a running middleware
type FC struct {
	cfg     Config
	matcher *oracle.Matcher
	t       *core.T
	dir     string
	cmd     *exec.Cmd
	Pid     int
	Mgmt    string
	Store   *influx.Store
	srv     *http.Server
	ln      net.Listener
	Reader  net.Conn

	started time.Time
	exited  chan struct{}
	exitErr error
	stderr  *os.File
	closing atomic.Bool
	busy    net.Listener

	mu      sync.Mutex
	answers []Answer
	rerr    error
	want    []uint16 // expected answers

	// what was sent since the baseline
	tags, matched int64
	known         map[string]bool
}

var serial atomic.Int64

// Engines are the names of the engines the middleware runs
func Engines() []string {
	var r []string
	for n := range filtering.AvailableEngines {
		r = append(r, n)
	}
	return r
}

// Start runs the middleware and waits until it has connected to the reader; nil if judged already
func Start(t *core.T, cfg Config) *FC {
	f := &FC{cfg: cfg, matcher: oracle.NewMatcher(cfg.Patterns), t: t, exited: make(chan struct{}), Store: &influx.Store{}, known: map[string]bool{}}
	var err error
	if f.dir, err = os.MkdirTemp("", "verif-fc-"); err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	ok := false
	defer func() {
		if !ok {
			f.Stop()
		}
	}()
	// addresses of its own on the loopback network
	n := serial.Add(1)
	own := fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()>>8&0x7f, os.Getpid()&0xff, 1+n%250)
	if f.ln, err = net.Listen("tcp", own+":0"); err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	reader := f.ln.Addr().String()
	if cfg.Late > 0 {
		f.ln.Close()
	}
	f.Store.Delay = cfg.Delay
	f.Store.Refuse = cfg.Refuse
	sln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	f.srv = &http.Server{Handler: f.Store}
	go f.srv.Serve(sln)
	f.Mgmt = own + ":2784"

	ecspec := filepath.Join(f.dir, "ecspec.csv")
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	for i, p := range cfg.Patterns {
		w.Write([]string{fmt.Sprintf("http://localhost:%d/%d", 8000+i%cfg.URIs, i%cfg.URIs), p.String()})
	}
	w.Flush()
	content := buf.Bytes()
	if cfg.File != nil {
		content = []byte(*cfg.File)
	}
	if len(content) > 0 || cfg.File == nil {
		if err := os.WriteFile(ecspec, content, 0644); err != nil {
			t.Inconclusive("%v", err)
			return nil
		}
	}
	if cfg.Busy {
		if f.busy, err = net.Listen("tcp", f.Mgmt); err != nil {
			t.Inconclusive("%v", err)
			return nil
		}
	}
	limits := ""
	if cfg.NoFile > 0 {
		limits += fmt.Sprintf("ulimit -n %d; ", cfg.NoFile)
	}
	if cfg.AS > 0 {
		limits += fmt.Sprintf("ulimit -v %d; ", cfg.AS)
	}
	args := []string{"-c", limits + `exec "$0" "$@"`, cfg.Bin, "start", "--ip", reader, "--managementAddr", f.Mgmt,
		"--influxAddr", "http://" + sln.Addr().String(), "-f", ecspec}
	if !cfg.Defaults {
		args = append(args, "--statInterval", strconv.Itoa(cfg.Interval), []string{"-m", "--initialMessageID"}[cfg.MessageID%2], fmt.Sprint(cfg.MessageID))
	}
	if !cfg.NoStat {
		args = append(args, "--enableStat")
	}
	args = append(args, cfg.Extra...)
	f.stderr, err = os.Create(filepath.Join(f.dir, "stderr"))
	if err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	f.cmd = exec.Command("/bin/bash", args...)
	f.cmd.Dir = f.dir
	f.cmd.Stdout, f.cmd.Stderr = f.stderr, f.stderr
	f.cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
	f.cmd.Env = append(f.cmd.Env, cfg.Env...)
	f.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err = f.cmd.Start(); err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	f.Pid = f.cmd.Process.Pid
	f.started = time.Now()
	go func() {
		f.exitErr = f.cmd.Wait()
		close(f.exited)
	}()
	if cfg.Late > 0 {
		time.Sleep(cfg.Late)
		if f.Exited() {
			t.Fail("the middleware ended (%v) while the reader was not up: %s", f.exitErr, f.Tail())
			return nil
		}
		if f.ln, err = net.Listen("tcp", reader); err != nil {
			t.Inconclusive("%v", err)
			return nil
		}
	}
	acc := make(chan net.Conn, 1)
	if cfg.Doomed {
		ok = true
		return f
	}
	go func() {
		if c, err := f.ln.Accept(); err == nil {
			acc <- c
		}
	}()
	if !f.Wait(600, "connecting to the reader", func() bool { return len(acc) > 0 }) {
		return nil
	}
	f.Reader = <-acc
	go f.read()
	ok = true
	return f
}

// StartOther runs another program under the same supervision
func StartOther(t *core.T, limits, bin string, args ...string) *FC {
	f := &FC{t: t, exited: make(chan struct{}), Store: &influx.Store{}}
	var err error
	if f.dir, err = os.MkdirTemp("", "verif-fc-"); err == nil {
		if f.stderr, err = os.Create(filepath.Join(f.dir, "stderr")); err == nil {
			f.cmd = exec.Command("/bin/bash", append([]string{"-c", limits + `exec "$0" "$@"`, bin}, args...)...)
			f.cmd.Dir = f.dir
			f.cmd.Stdout, f.cmd.Stderr = f.stderr, f.stderr
			f.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			err = f.cmd.Start()
		}
	}
	if err != nil {
		t.Inconclusive("%v", err)
		f.cmd = nil
		f.Stop()
		return nil
	}
	f.Pid = f.cmd.Process.Pid
	go func() {
		f.exitErr = f.cmd.Wait()
		close(f.exited)
	}()
	return f
}

// Exited says whether the middleware has ended
func (f *FC) Exited() bool {
	select {
	case <-f.exited:
		return true
	default:
		return false
	}
}

// ExitCode is the status it ended with, -1 if by a signal
func (f *FC) ExitCode() int {
	<-f.exited
	return f.cmd.ProcessState.ExitCode()
}

// CloseStore ends the statistics store
func (f *FC) CloseStore() { f.srv.Close() }

// Stderr is what the middleware printed
func (f *FC) Stderr() string {
	b, _ := os.ReadFile(f.stderr.Name())
	return string(b)
}

// StderrName is the file with what the middleware printed
func (f *FC) StderrName() string { return f.stderr.Name() }

// Tail is the interesting end of what the middleware printed
func (f *FC) Tail() string {
	s := f.Stderr()
	for _, k := range []string{"\npanic:", "\nfatal error:", "\nruntime:"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			if len(s) > 2500 {
				s = s[:2500]
			}
			return s
		}
	}
	if len(s) > 800 {
		s = s[len(s)-800:]
	}
	return s
}

// Stop ends the middleware
func (f *FC) Stop() {
	f.closing.Store(true)
	if f.cmd != nil && f.cmd.Process != nil {
		f.cmd.Process.Kill()
		<-f.exited
	}
	if f.Reader != nil {
		f.Reader.Close()
	}
	if f.ln != nil {
		f.ln.Close()
	}
	if f.busy != nil {
		f.busy.Close()
	}
	if f.srv != nil {
		f.srv.Close()
	}
	if f.stderr != nil {
		f.stderr.Close()
	}
	if f.dir != "" {
		os.RemoveAll(f.dir)
	}
}

// Wait waits for a condition; false means that the case has been judged
func (f *FC) Wait(need int, what string, cond func() bool) bool {
	ended := false
	o := core.Wait(f.Pid, need, func() bool {
		if cond() {
			return true
		}
		ended = f.Exited()
		return ended
	})
	switch {
	case o == core.Stuck:
		f.t.Fail("%s: the middleware is idle, or busy without end, and it has not happened; it printed\n%s", what, f.Tail())
	case o == core.TooSlow:
		f.t.Inconclusive("%s: not in time", what)
	case ended:
		f.t.Fail("%s: the middleware ended (%v): %s", what, f.exitErr, f.Tail())
	default:
		return true
	}
	return false
}

func (f *FC) read() {
	h := make([]byte, 10)
	for {
		_, err := io.ReadFull(f.Reader, h)
		var a Answer
		if err == nil {
			a = Answer{binary.BigEndian.Uint16(h), binary.BigEndian.Uint32(h[6:]), int(binary.BigEndian.Uint32(h[2:]))}
			if a.Len < 10 || a.Len > 1<<20 {
				err = fmt.Errorf("answer of length %d", a.Len)
			} else {
				_, err = io.CopyN(io.Discard, f.Reader, int64(a.Len-10))
			}
		}
		f.mu.Lock()
		if err != nil {
			f.rerr = err
			f.mu.Unlock()
			return
		}
		f.answers = append(f.answers, a)
		f.mu.Unlock()
	}
}

// Answers so far
func (f *FC) Answers() []Answer {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]Answer{}, f.answers...)
}

// Closed says whether the middleware closed the reader connection
func (f *FC) Closed() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.rerr != nil
}

// Message frames a reader message
func Message(header uint16, id uint32, body []byte) []byte {
	b := make([]byte, 10, 10+len(body))
	binary.BigEndian.PutUint16(b, header)
	binary.BigEndian.PutUint32(b[2:], uint32(10+len(body)))
	binary.BigEndian.PutUint32(b[6:], id)
	return append(b, body...)
}

// TagData encodes a tag as in an access report: EPC-96 or EPCData, then C1G2-PC
func TagData(tag oracle.Tag, short bool) []byte {
	var p []byte
	if short && len(tag.ID) == 12 {
		p = append([]byte{141}, tag.ID...)
	} else {
		p = binary.BigEndian.AppendUint16(nil, 241)
		p = binary.BigEndian.AppendUint16(p, uint16(6+len(tag.ID)))
		p = binary.BigEndian.AppendUint16(p, uint16(8*len(tag.ID)))
		p = append(p, tag.ID...)
	}
	p = append(p, 140)
	p = append(p, tag.PC...)
	b := binary.BigEndian.AppendUint16(nil, 240)
	b = binary.BigEndian.AppendUint16(b, uint16(4+len(p)))
	return append(b, p...)
}

// Report frames an access report and counts its tags
func (f *FC) Report(rng *rand.Rand, ts []oracle.Tag) []byte {
	var body []byte
	for _, tag := range ts {
		body = append(body, TagData(tag, rng.Intn(2) == 0)...)
		k := string(tag.PC) + string(tag.ID)
		b, ok := f.known[k]
		if !ok {
			b, _ = f.matcher.Match(tag)
			f.known[k] = b
		}
		f.tags++
		if b {
			f.matched++
		}
	}
	return Message(llrp.ROAccessReportHeader, msgID(rng), body)
}

// msgID draws the message ID of a reader message
func msgID(rng *rand.Rand) uint32 {
	if rng.Intn(4) == 0 {
		return []uint32{0, 1, 1000, 0x7fffffff, 0x80000000, 0xffffffff}[rng.Intn(6)]
	}
	return rng.Uint32()
}

// Keepalive message
func (f *FC) Keepalive(rng *rand.Rand) []byte {
	f.want = append(f.want, llrp.KeepaliveAckHeader)
	return Message(llrp.KeepaliveHeader, msgID(rng), nil)
}

// Event is a reader event notification
func (f *FC) Event(rng *rand.Rand) []byte {
	f.want = append(f.want, llrp.SetReaderConfigHeader)
	if rng.Intn(4) == 0 {
		return Message(llrp.ReaderEventNotificationHeader, msgID(rng), nil)
	}
	return llrp.ReaderEventNotification(msgID(rng), rng.Uint64())
}

// ConfigResponse needs no answer
func (f *FC) ConfigResponse(rng *rand.Rand) []byte {
	return llrp.SetReaderConfigResponse(msgID(rng))
}

// Send writes bytes to the middleware, in pieces
func (f *FC) Send(rng *rand.Rand, b []byte, mode int) bool {
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0: // all at once
		case 1: // byte by byte
			n = 1
		case 2: // around the fields of a header
			n = []int{1, 2, 3, 4, 5, 6, 9, 10, 11}[rng.Intn(9)]
		case 3:
			n = 1 + rng.Intn(300)
		case 4:
			n = 1 + rng.Intn(20000)
		}
		if n > len(b) {
			n = len(b)
		}
		f.Reader.SetWriteDeadline(time.Now().Add(2 * time.Second))
		n, err := f.Reader.Write(b[:n])
		if err != nil && errors.Is(err, os.ErrDeadlineExceeded) {
			err = nil
			if n == 0 && !f.Wait(200, "taking what the reader sends", func() bool {
				f.Reader.SetWriteDeadline(time.Now().Add(10 * time.Millisecond))
				n, err = f.Reader.Write(b[:1])
				if err != nil && errors.Is(err, os.ErrDeadlineExceeded) {
					err = nil
				}
				return n > 0 || err != nil
			}) {
				return false
			}
		}
		if err != nil {
			f.t.Fail("the middleware closed the connection to the reader: %v: %s", err, f.waitTail())
			return false
		}
		b = b[n:]
		if rng.Intn(8) == 0 {
			time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		}
	}
	return true
}

func (f *FC) waitTail() string {
	select {
	case <-f.exited:
	case <-time.After(3 * time.Second):
	}
	return f.Tail()
}

// Barrier waits until everything sent so far has been processed: the middleware hands a report over
// after the report before has been taken, and answers after it handed the report over
func (f *FC) Barrier(rng *rand.Rand) bool {
	b := append(f.Report(rng, nil), f.Keepalive(rng)...)
	return f.Send(rng, b, 0) && f.Wait(200, "answering the reader", func() bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		return len(f.answers) >= len(f.want) || f.rerr != nil
	})
}

// JudgeAnswers compares what was answered with what had to be
func (f *FC) JudgeAnswers() bool {
	a := f.Answers()
	for i, x := range a {
		if i >= len(f.want) {
			f.t.Fail("the middleware sent %d messages to the reader, but only %d were due", len(a), len(f.want))
			return false
		}
		if x.Header != f.want[i] {
			f.t.Fail("answer %d to the reader is of type %d, want %d", i, x.Header, f.want[i])
			return false
		}
		if x.ID != f.cfg.MessageID {
			f.t.Fail("answer %d to the reader carries message ID %d, configured %d", i, x.ID, f.cfg.MessageID)
			return false
		}
	}
	if len(a) < len(f.want) {
		f.t.Fail("the middleware sent %d answers to the reader, %d were due", len(a), len(f.want))
		return false
	}
	return true
}

// Total published for an engine
type Total struct {
	In, Match int64
	Zeros     int // trailing intervals without events
	N         int
}

// JudgePace compares the number of intervals reported with those that have passed
func (f *FC) JudgePace() bool {
	for e, x := range f.Totals() {
		if max := int(time.Since(f.started).Seconds())/f.cfg.Interval + 1; x.N > max {
			f.t.Fail("%s published %d intervals of %d s in %v", e, x.N, f.cfg.Interval, time.Since(f.started))
			return false
		}
	}
	return true
}

// Totals of all engines
func (f *FC) Totals() map[string]Total {
	m := map[string]Total{}
	f.Store.Each(func(p influx.Point) bool {
		if p.Measurement == "traffic" {
			e := p.Tags["engine"]
			in, _ := strconv.ParseInt(strings.TrimSuffix(p.Fields["incoming_events"], "i"), 10, 64)
			out, _ := strconv.ParseInt(strings.TrimSuffix(p.Fields["matched_events"], "i"), 10, 64)
			x := m[e]
			x.In += in
			x.Match += out
			x.N++
			x.Zeros++
			if in != 0 || out != 0 {
				x.Zeros = 0
			}
			m[e] = x
		}
		return true
	})
	return m
}

// Quiet waits until each engine has published two intervals without events after now
func (f *FC) Quiet() bool {
	base := f.Totals()
	return f.Wait(600, "publishing traffic of every engine", func() bool {
		now := f.Totals()
		for _, e := range Engines() {
			if now[e].N < base[e].N+3 || now[e].Zeros < 2 {
				return false
			}
		}
		return true
	})
}

// Warm sends single tags until every engine has taken some
func (f *FC) Warm(rng *rand.Rand, tag oracle.Tag) (map[string]Total, bool) {
	ok := f.Wait(1200, "every engine taking part", func() bool {
		now := f.Totals()
		for _, e := range Engines() {
			if now[e].In == 0 {
				f.Reader.Write(f.Report(rng, []oracle.Tag{tag}))
				return false
			}
		}
		return true
	})
	if !ok || !f.Barrier(rng) || !f.Quiet() {
		return nil, false
	}
	f.tags, f.matched = 0, 0
	return f.Totals(), true
}

// Settle waits for and judges the totals published since the base
func (f *FC) Settle(rng *rand.Rand, base map[string]Total) bool {
	if !f.Barrier(rng) || !f.JudgeAnswers() {
		return false
	}
	missing := func() string {
		now := f.Totals()
		for _, e := range Engines() {
			if now[e].In-base[e].In < f.tags || now[e].Match-base[e].Match < f.matched {
				return fmt.Sprintf("%s published %d events and %d matches for %d tags sent, of which %d match", e, now[e].In-base[e].In, now[e].Match-base[e].Match, f.tags, f.matched)
			}
		}
		return ""
	}
	ended := false
	switch core.Wait(f.Pid, 240, func() bool { ended = f.Exited(); return ended || missing() == "" }) {
	case core.Stuck:
		f.t.Fail("%s", missing())
		return false
	case core.TooSlow:
		f.t.Inconclusive("totals: %s", missing())
		return false
	}
	if ended {
		f.t.Fail("the middleware ended (%v): %s", f.exitErr, f.Tail())
		return false
	}
	if !f.Quiet() {
		return false
	}
	now := f.Totals()
	for _, e := range Engines() {
		if in, m := now[e].In-base[e].In, now[e].Match-base[e].Match; in != f.tags || m != f.matched {
			f.t.Fail("%s published %d events and %d matches for %d tags sent, of which %d match", e, in, m, f.tags, f.matched)
			return false
		}
	}
	if b := f.Store.Broken(); b != "" {
		f.t.Fail("published what is not line protocol: %s", b)
		return false
	}
	if f.Exited() {
		f.t.Fail("the middleware ended (%v): %s", f.exitErr, f.Tail())
		return false
	}
	f.t.Count("tags_searched", int(f.tags)*len(Engines()))
	f.t.Count("tags_matched", int(f.matched)*len(Engines()))
	f.t.Count("answers", len(f.want))
	f.t.Eval(int(f.tags)*len(Engines()) + len(f.want))
	return true
}

// Sent so far since the base
func (f *FC) Sent() (tags, matched int64, answers int) { return f.tags, f.matched, len(f.want) }

// World draws patterns and tags for which text and bits agree, and a tag that matches
func World(rng *rand.Rand, n int) (*oracle.World, []oracle.Pat, oracle.Tag) {
	for {
		w := oracle.NewWorld(rng, 3)
		w.FVs = w.FVs[:1]
		ps := w.Coinciding(n)
		if len(ps) == 0 {
			continue
		}
		for i := 0; i < 50; i++ {
			tag := w.TagFor(ps[rng.Intn(len(ps))])
			if b, x := oracle.Matches(ps, tag); b && x {
				if rng.Intn(3) == 0 {
					for i := range ps {
						ps[i] = w.R.Respell(ps[i])
					}
				}
				return w, ps, tag
			}
		}
	}
}

// Tags draws n tags for which text and bits agree
func Tags(w *oracle.World, ps []oracle.Pat, pool int) []oracle.Tag { return tags(w, ps, pool, false) }

// NewTags draws n tags for which text and bits agree, and which were hardly drawn before
func NewTags(w *oracle.World, ps []oracle.Pat, pool int) []oracle.Tag { return tags(w, ps, pool, true) }

func tags(w *oracle.World, ps []oracle.Pat, pool int, renew bool) []oracle.Tag {
	var ts []oracle.Tag
	m := oracle.NewMatcher(ps)
	for i := 0; len(ts) < pool && i < 20*pool; i++ {
		if renew {
			for j := range w.Sers {
				w.Sers[j] = w.R.Serial()
			}
			for j := range w.Refs {
				w.Refs[j] = w.R.Below(1+w.R.Intn(19), 62)
			}
			for j := range w.SNs {
				w.SNs[j] = w.R.Alnum(1 + w.R.Intn(14))
			}
		}
		var tag oracle.Tag
		k := w.R.Intn(10)
		if renew && k < 5 && w.R.Intn(3) > 0 {
			k = 5 // a pattern in full has one tag only
		}
		switch {
		case k < 5:
			tag = w.TagFor(ps[w.R.Intn(len(ps))])
		case k < 8:
			tag = w.Tag()
		case k == 8:
			tag = w.Near(w.TagFor(ps[w.R.Intn(len(ps))]))
		default: // does not decode
			tag = oracle.Tag{PC: []byte{byte(w.R.Intn(256)), byte(w.R.Intn(256))}, ID: make([]byte, 2*w.R.Intn(32))}
			w.R.Read(tag.ID)
		}
		if b, x := m.Match(tag); b == x {
			ts = append(ts, tag)
		}
	}
	return ts
}

// Large sends n access reports of about size bytes each without a break
func (f *FC) Large(rng *rand.Rand, pool []oracle.Tag, n, size int) bool {
	one := 0
	for _, x := range pool {
		one += 19 + len(x.ID)
	}
	one /= len(pool)
	for ; n > 0; n-- {
		ts := make([]oracle.Tag, size/one+1)
		for j := range ts {
			ts[j] = pool[rng.Intn(len(pool))]
		}
		b := f.Report(rng, ts)
		if len(b) > 1<<20 {
			f.t.Count("reports_over_1MiB", 1)
		}
		f.t.State("report_sizes", len(ts))
		if rng.Intn(2) == 0 {
			b = append(b, f.Keepalive(rng)...)
		}
		if !f.Send(rng, b, []int{0, 0, 4}[rng.Intn(3)]) {
			return false
		}
	}
	return true
}

// Stream draws and sends a stream of reader messages
func (f *FC) Stream(rng *rand.Rand, pool []oracle.Tag, messages, large int) bool {
	kinds := ""
	for i := 0; i < messages; {
		var b []byte
		big := false
		for k := 1 + rng.Intn(6)*rng.Intn(4); k > 0 && i < messages; k-- { // several messages may share a packet
			i++
			switch c := rng.Intn(12); {
			case c < 2:
				b = append(b, f.Keepalive(rng)...)
				kinds += "k"
			case c == 2:
				b = append(b, f.Event(rng)...)
				kinds += "e"
			case c == 3:
				b = append(b, f.ConfigResponse(rng)...)
				kinds += "c"
			default:
				n := 1 + rng.Intn(4)
				switch rng.Intn(8) {
				case 0:
					n = 0
				case 1, 2:
					n = 1 + rng.Intn(80)
				case 3:
					if rng.Intn(4) == 0 {
						n = 1 + rng.Intn(large)
						big = true
					}
				}
				ts := make([]oracle.Tag, n)
				for j := range ts {
					ts[j] = pool[rng.Intn(len(pool))]
				}
				b = append(b, f.Report(rng, ts)...)
				kinds += "r"
				f.t.State("report_sizes", n)
			}
		}
		mode := rng.Intn(5)
		if big || len(b) > 4000 {
			mode = []int{0, 3, 4}[rng.Intn(3)]
		}
		f.t.State("stream_modes", fmt.Sprint(mode, big))
		if !f.Send(rng, b, mode) {
			return false
		}
		if rng.Intn(10) == 0 {
			time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
		}
	}
	f.t.State("message_sequences", kinds)
	f.t.Distinct(kinds, f.tags)
	return true
}
