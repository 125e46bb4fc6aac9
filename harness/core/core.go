// Package core runs workloads in child processes, collects what the monitors observed and
// turns it into a verdict: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2).
package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is one property's workload and what its evidence needs
type Check struct {
	ID    string
	Rule  string   // how cases are made and what makes one non-trivial
	Assum []string // assumptions
	// Quick and Thorough are the numbers of cases
	Quick, Thorough int
	// Shards is how many child processes share the cases (default 8)
	Shards int
	// Case runs one case
	Case func(t *T)
	// Whole, if set, runs instead of cases, in one child (shards=1) unless Shards is set
	Whole func(t *T)
	// Require lists counters which must be positive for a run to count as an observation
	Require []string
	// Known returns the known findings which the run showed; see T.Finding
	CPULimit time.Duration // per case; default 120 s of CPU, far more where the code under test is another process
	// Race says that the binary was built with -race and reports count
	Race bool
	// NoPanicRecover makes a panic in a case end the child (for goroutine-heavy checks)
	WallLimit time.Duration // whole child; default 800 s; firing is inconclusive
	MemLimit  uint64        // address space limit in bytes, 0 for none
}

// T is the context of a case
type T struct {
	ID    string
	Tier  string
	Seed  int64
	Index int
	Rng   *rand.Rand
	c     *child
	notes []string
	nv    int // violations in this case
}

type violation struct {
	Index int      `json:"case"`
	Msg   string   `json:"what"`
	Notes []string `json:"history"`
	Stack string   `json:"stack,omitempty"`
}

type result struct {
	Evaluations int64
	Counters    map[string]int64
	CaseCPU     int64 // ms, the most a case took
	Hashes      []uint64
	States      map[string][]uint64
	Samples     []string
	Violations  []violation
	Findings    map[string]string
	Incon       []string
	Done        bool
}

type child struct {
	mu     sync.Mutex
	r      result
	hs     map[uint64]bool
	st     map[string]map[uint64]bool
	cur    *os.File
	chk    *Check
	curIdx int
	curT   time.Duration
}

func (t *T) Thorough() bool { return t.Tier == "thorough" }

// N returns q on the quick tier and th on the thorough tier
func (t *T) N(q, th int) int {
	if t.Thorough() {
		return th
	}
	return q
}

// Note records a step of the case for the replay file
func (t *T) Note(f string, a ...interface{}) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	if len(t.notes) < 4000 {
		t.notes = append(t.notes, fmt.Sprintf(f, a...))
	}
}

// Fail records a violation
func (t *T) Fail(f string, a ...interface{}) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	t.nv++
	if len(t.c.r.Violations) < 20 {
		t.c.r.Violations = append(t.c.r.Violations, violation{Index: t.Index, Msg: fmt.Sprintf(f, a...), Notes: append([]string{}, t.notes...)})
	}
}

// Failed reports whether this case has a violation already
func (t *T) Failed() bool { return t.nv > 0 }

// Inconclusive records that the run cannot be judged
func (t *T) Inconclusive(f string, a ...interface{}) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	t.c.r.Incon = append(t.c.r.Incon, fmt.Sprintf(f, a...))
}

// Count adds to a counter of things the monitors observed
func (t *T) Count(name string, n int) {
	t.c.mu.Lock()
	t.c.r.Counters[name] += int64(n)
	t.c.mu.Unlock()
}

// Eval counts executions judged
func (t *T) Eval(n int) {
	t.c.mu.Lock()
	t.c.r.Evaluations += int64(n)
	t.c.mu.Unlock()
}

// Distinct marks a non-trivial case by its content
func (t *T) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	t.c.mu.Lock()
	t.c.hs[h.Sum64()] = true
	t.c.mu.Unlock()
}

// State counts distinct values of a named observation (engine structures, message orders ...)
func (t *T) State(name string, v interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, v)
	t.c.mu.Lock()
	m := t.c.st[name]
	if m == nil {
		m = map[uint64]bool{}
		t.c.st[name] = m
	}
	if len(m) < 200000 {
		m[h.Sum64()] = true
	}
	t.c.mu.Unlock()
}

// Sample keeps a few written-out cases
func (t *T) Sample(f string, a ...interface{}) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	if len(t.c.r.Samples) < 4 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.c.r.Samples = append(t.c.r.Samples, s)
	}
}

// Finding records that a (possibly known) finding was reproduced
func (t *T) Finding(token, what string) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	t.c.r.Findings[token] = what
}

func caseSeed(seed int64, id string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return int64(h.Sum64() >> 1)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (c *child) save(dir string, shard int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.r.Hashes = c.r.Hashes[:0]
	for h := range c.hs {
		c.r.Hashes = append(c.r.Hashes, h)
	}
	c.r.States = map[string][]uint64{}
	for k, m := range c.st {
		for h := range m {
			c.r.States[k] = append(c.r.States[k], h)
		}
	}
	b, _ := json.Marshal(&c.r)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d.tmp", shard)), b, 0644)
	os.Rename(filepath.Join(dir, fmt.Sprintf("result.%d.tmp", shard)), filepath.Join(dir, fmt.Sprintf("result.%d", shard)))
}

func runChild(chk *Check, dir string, shard, shards, n, only int, tier string, seed int64) {
	log.SetOutput(io.Discard)
	if (chk.ID[0] == 'F' || chk.ID[0] == 'T') && chk.MemLimit == 0 && !chk.Race {
		chk.MemLimit = 4 << 30 // these run in one process; one that keeps growing has to end before the machine does
	}
	if chk.MemLimit != 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: chk.MemLimit, Max: chk.MemLimit})
	}
	debug.SetMaxStack(256 << 20)
	c := &child{hs: map[uint64]bool{}, st: map[string]map[uint64]bool{}, chk: chk}
	c.r.Counters = map[string]int64{}
	c.r.Findings = map[string]string{}
	c.cur, _ = os.Create(filepath.Join(dir, fmt.Sprintf("current.%d", shard)))
	limit := chk.CPULimit
	if limit == 0 {
		limit = 120 * time.Second
		if strings.Contains("EG", chk.ID[:1]) { // the work of this process is that of peers and judges
			limit = 20 * time.Minute
		}
	}
	if chk.Case != nil {
		go func() { // CPU watchdog: a case which computes for minutes does not end
			for {
				time.Sleep(time.Second)
				c.mu.Lock()
				start, idx := c.curT, c.curIdx
				c.mu.Unlock()
				if start != 0 && cpuTime()-start > limit {
					os.WriteFile(filepath.Join(dir, fmt.Sprintf("hang.%d", shard)), []byte(strconv.Itoa(idx)), 0644)
					buf := debugStacks()
					os.Stderr.Write(buf)
					os.Exit(97)
				}
			}
		}()
	}
	run := func(i int, f func(t *T)) {
		t := &T{ID: chk.ID, Tier: tier, Seed: seed, Index: i, Rng: rand.New(rand.NewSource(caseSeed(seed, chk.ID, i))), c: c}
		c.cur.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		c.mu.Lock()
		c.curIdx, c.curT = i, cpuTime()
		c.mu.Unlock()
		defer func() {
			if e := recover(); e != nil {
				c.mu.Lock()
				c.r.Violations = append(c.r.Violations, violation{Index: i, Msg: fmt.Sprintf("panic: %v", e), Notes: t.notes, Stack: string(debug.Stack())})
				c.mu.Unlock()
			}
		}()
		f(t)
		c.mu.Lock()
		if ms := int64((cpuTime() - c.curT) / time.Millisecond); ms > c.r.CaseCPU {
			c.r.CaseCPU = ms
		}
		c.mu.Unlock()
	}
	if chk.Whole != nil {
		run(shard, chk.Whole)
	} else if only >= 0 {
		run(only, chk.Case)
	} else {
		for i := shard; i < n; i += shards {
			run(i, chk.Case)
			c.mu.Lock()
			nv := len(c.r.Violations)
			c.mu.Unlock()
			if nv >= 3 {
				break
			}
		}
	}
	c.mu.Lock()
	c.curT = 0
	c.r.Done = true
	c.mu.Unlock()
	c.save(dir, shard)
	os.Exit(0)
}

var crashRe = regexp.MustCompile(`(?m)^(panic:|fatal error:|runtime:|SIG|unexpected fault)`)

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

// VerifDir is where evidence, replays and known findings live
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Known reads KNOWN_FINDINGS and returns token -> description of the unrepaired findings of a property
func Known(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="+id+" "), " ", 2)
		d := ""
		if len(f) == 2 {
			d = f[1]
		}
		m[strings.TrimPrefix(f[0], "input=")] = d
	}
	return m
}

// Main dispatches on the arguments: <ID> [-case N]
func Main(checks ...*Check) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: ID [-case N]")
		os.Exit(2)
	}
	var chk *Check
	for _, c := range checks {
		if c.ID == os.Args[1] {
			chk = c
		}
	}
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[1])
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	n := chk.Quick
	if tier == "thorough" {
		n = chk.Thorough
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil {
		n = s
	}
	shards := chk.Shards
	if shards == 0 {
		shards = 8
		if chk.Whole != nil {
			shards = 1
		}
	}
	if chk.Case != nil && shards > n && n > 0 {
		shards = n
	}
	only := -1
	if len(os.Args) >= 4 && os.Args[2] == "-case" {
		only, _ = strconv.Atoi(os.Args[3])
		shards = 1
	}
	if d := os.Getenv("VERIF_CHILD"); d != "" {
		sh, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
		runChild(chk, d, sh, shards, n, only, tier, seed)
	}
	os.Exit(parent(chk, tier, seed, shards, n, only))
}

func parent(chk *Check, tier string, seed int64, shards, n, only int) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	wall := chk.WallLimit
	if wall == 0 {
		wall = 800 * time.Second
		if tier == "thorough" {
			wall = 4 * time.Hour
		}
	}
	type outcome struct {
		r      result
		have   bool
		stderr []byte
		err    error
		cur    int
		hang   bool
		timeo  bool
		cut    bool
	}
	violated := make(chan struct{}) // closed when a shard has found a violation
	var once sync.Once
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			o := &outs[s]
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir, fmt.Sprintf("VERIF_SHARD=%d", s), "GOTRACEBACK=all")
			if chk.Race {
				cmd.Env = append(cmd.Env, fmt.Sprintf("GORACE=halt_on_error=0 exitcode=0 log_path=%s/race.%d", dir, s))
			} else if chk.Whole == nil {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
			}
			ef, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", s)))
			cmd.Stderr = ef
			cmd.Stdout = nil // the code under test prints
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			if o.err = cmd.Start(); o.err != nil {
				return
			}
			timer := time.AfterFunc(wall, func() { o.timeo = true; syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
			ended := make(chan struct{})
			go func() { // once there is a violation, the other shards have half a minute to end
				select {
				case <-ended:
					return
				case <-violated:
				}
				select {
				case <-ended:
				case <-time.After(30 * time.Second):
					o.cut = true
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				}
			}()
			o.err = cmd.Wait()
			close(ended)
			timer.Stop()
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			ef.Close()
			o.stderr, _ = os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", s)))
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", s))); err == nil {
				o.have = json.Unmarshal(b, &o.r) == nil && o.r.Done
			}
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("current.%d", s))); err == nil {
				o.cur, _ = strconv.Atoi(strings.TrimSpace(string(b)))
			}
			_, e := os.Stat(filepath.Join(dir, fmt.Sprintf("hang.%d", s)))
			o.hang = e == nil
			if o.hang || len(o.r.Violations) > 0 || !o.have && !o.cut && !o.timeo && (crashRe.Match(o.stderr) || exitCode(o.err) == 1) {
				once.Do(func() { close(violated) })
			}
		}(s)
	}
	wg.Wait()

	tot := result{Counters: map[string]int64{}, Findings: map[string]string{}}
	hs := map[uint64]bool{}
	st := map[string]map[uint64]bool{}
	var incon []string
	for s := range outs {
		o := &outs[s]
		if !o.have {
			switch {
			case o.cut && !o.hang:
				incon = append(incon, fmt.Sprintf("shard %d was stopped after a violation elsewhere", s))
			case o.hang:
				tot.Violations = append(tot.Violations, violation{Index: o.cur, Msg: "computation does not end (CPU watchdog)", Stack: tail(o.stderr, 6000)})
			case o.timeo:
				incon = append(incon, fmt.Sprintf("shard %d did not finish within the wall clock limit", s))
			case crashRe.Match(o.stderr):
				head := o.stderr
				if len(head) > 6000 {
					head = head[:6000]
				}
				tot.Violations = append(tot.Violations, violation{Index: o.cur, Msg: "process crashed: " + firstLine(crashRe, o.stderr), Stack: string(head)})
			case exitCode(o.err) == 1: // log.Fatal or os.Exit in the code under test; the harness itself never exits so
				tot.Violations = append(tot.Violations, violation{Index: o.cur, Msg: "the code under test ended the process (log.Fatal or os.Exit)", Stack: tail(o.stderr, 3000)})
			default:
				incon = append(incon, fmt.Sprintf("shard %d ended without a result: %v %s", s, o.err, tail(o.stderr, 1500)))
			}
			continue
		}
		tot.Evaluations += o.r.Evaluations
		if o.r.CaseCPU > tot.CaseCPU {
			tot.CaseCPU = o.r.CaseCPU
		}
		for k, v := range o.r.Counters {
			tot.Counters[k] += v
		}
		for _, h := range o.r.Hashes {
			hs[h] = true
		}
		for k, l := range o.r.States {
			if st[k] == nil {
				st[k] = map[uint64]bool{}
			}
			for _, h := range l {
				st[k][h] = true
			}
		}
		if len(tot.Samples) < 5 {
			tot.Samples = append(tot.Samples, o.r.Samples...)
		}
		tot.Violations = append(tot.Violations, o.r.Violations...)
		for k, v := range o.r.Findings {
			tot.Findings[k] = v
		}
		incon = append(incon, o.r.Incon...)
	}
	if chk.Race {
		reports, distinct := raceReports(dir)
		tot.Counters["race_reports"] = int64(len(reports))
		for _, d := range distinct {
			tot.Violations = append(tot.Violations, violation{Index: -1, Msg: "data race", Stack: d})
		}
	}
	known := Known(chk.ID)
	var knownLines []string
	for tok, what := range tot.Findings {
		if _, ok := known[tok]; ok {
			knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", chk.ID, tok, what))
		} else {
			tot.Violations = append(tot.Violations, violation{Index: -1, Msg: tok + ": " + what})
		}
	}
	if only < 0 {
		for tok, what := range known {
			if _, ok := tot.Findings[tok]; !ok {
				knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: not met in this run: %s", chk.ID, tok, what))
			}
		}
	}
	sort.Strings(knownLines)
	for _, l := range knownLines {
		fmt.Println(l)
	}
	if len(tot.Violations) == 0 && only < 0 {
		for _, k := range chk.Require {
			if tot.Counters[k] == 0 && len(st[k]) == 0 {
				incon = append(incon, "nothing observed for "+k)
			}
		}
	}
	if len(tot.Samples) > 5 {
		tot.Samples = tot.Samples[:5]
	}
	cov := map[string]interface{}{
		"evaluations": tot.Evaluations, "distinct_nontrivial": len(hs), "rule": chk.Rule, "samples": tot.Samples,
		"observed": tot.Counters, "most_cpu_of_a_case_ms": tot.CaseCPU,
	}
	if n > 0 && chk.Case != nil {
		cov["cases"] = n
	}
	if len(st) > 0 {
		ds := map[string]int{}
		for k, m := range st {
			ds[k] = len(m)
		}
		cov["distinct_states_observed"] = ds
	}
	if len(incon) > 0 {
		cov["inconclusive"] = incon
	}
	ev := map[string]interface{}{
		"property": chk.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(tot.Violations),
	}
	if len(chk.Assum) > 0 {
		ev["assumptions"] = chk.Assum
	}
	evd := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(evd, 0755)
	if only < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evd, chk.ID+".json"), append(b, '\n'), 0644)
	}
	if len(tot.Violations) > 0 {
		os.MkdirAll(filepath.Join(evd, "replays"), 0755)
		for i, v := range tot.Violations {
			if i >= 3 {
				break
			}
			rp := filepath.Join(evd, "replays", fmt.Sprintf("%s-%d.json", chk.ID, i))
			rec := map[string]interface{}{
				"property": chk.ID, "seed": seed, "tier": tier, "case": v.Index, "what": v.Msg, "history": v.Notes, "stack": v.Stack,
				"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash %s/run.sh %s -case %d", seed, tier, VerifDir(), chk.ID, v.Index),
			}
			var buf bytes.Buffer
			enc := json.NewEncoder(&buf)
			enc.SetEscapeHTML(false)
			enc.SetIndent("", " ")
			enc.Encode(rec)
			os.WriteFile(rp, buf.Bytes(), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, rp)
			fmt.Printf("  case %d: %s\n", v.Index, clip(v.Msg, 1500))
		}
		return 1
	}
	if len(incon) > 0 {
		for _, s := range incon {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", clip(s, 3000))
		}
		return 2
	}
	fmt.Printf("held: %s on %d evaluations, %d distinct non-trivial, %.1f s\n", chk.ID, tot.Evaluations, len(hs), time.Since(start).Seconds())
	return 0
}

func exitCode(err error) int {
	if e, ok := err.(*exec.ExitError); ok && e.Exited() {
		return e.ExitCode()
	}
	return -1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(re *regexp.Regexp, b []byte) string {
	loc := re.FindIndex(b)
	if loc == nil {
		return ""
	}
	b = b[loc[0]:]
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

var frameRe = regexp.MustCompile(`(?m)^  (\S+)\(`)

// raceReports reads the race detector's logs, and deduplicates them by the functions involved
func raceReports(dir string) (all []string, distinct []string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			all = append(all, blk)
			// keep only races in which the code under test makes an access, itself or by a call
			acc := blk
			if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
				acc = acc[:i]
			}
			if !strings.Contains(acc, "iomz/gosstrak") && !strings.Contains(acc, "/cmd/gosstrak-fc/") {
				continue
			}
			var key []string
			for _, m := range frameRe.FindAllStringSubmatch(blk, 3) {
				key = append(key, m[1])
			}
			k := strings.Join(key, "|")
			if !seen[k] {
				seen[k] = true
				distinct = append(distinct, blk)
			}
		}
	}
	return
}
