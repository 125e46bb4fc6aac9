package main

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/iomz/go-llrp"

	"verifharness/core"
	"verifharness/fcrun"
)

var dooms = []string{
	"reader-ends", "reader-ends-in-header", "reader-ends-in-body", "reader-resets", "unknown-message",
	"store-refuses", "store-gone", "store-absent", "no-file", "bad-file", "address-in-use", "capture-address-in-use",
	"configured", "no-store-needed", "defaults",
}

// e05: what it cannot go on without ends the middleware with a failure; what it was configured with is what it uses
func e05(t *core.T) {
	kind := dooms[t.Index%len(dooms)]
	t.Note("%s", kind)
	w, ps, hit := fcrun.World(t.Rng, 3+t.Rng.Intn(20))
	if kind == "capture-address-in-use" {
		captureBusy(t)
		return
	}
	var refuse atomic.Int32
	cfg := fcrun.Config{Bin: fcBin, MessageID: t.Rng.Uint32() >> uint(t.Rng.Intn(20)+1), Interval: 1, Patterns: ps, URIs: 1 + t.Rng.Intn(5),
		Refuse: func() int { return int(refuse.Load()) }}
	user, pass, db := "gosstrak", "gosstrak", "gosstrak"
	switch kind {
	case "no-file", "bad-file":
		s := ""
		if kind == "bad-file" {
			s = fmt.Sprintf("http://localhost:8000/a,%s\nhttp://localhost:8000/b,\"%s\nhttp://x,a\"b\n", ps[0].URN(), ps[0].URN())
		}
		cfg.File, cfg.Doomed = &s, true
	case "address-in-use":
		cfg.Busy, cfg.Doomed = true, true
	case "store-absent":
		refuse.Store([]int32{500, 401, 404, 503}[t.Rng.Intn(4)])
		cfg.Doomed = true
	case "configured":
		user, pass, db = "u"+strconv.Itoa(t.Rng.Intn(1000)), "p w:"+strconv.Itoa(t.Rng.Intn(1000)), "db "+strconv.Itoa(t.Rng.Intn(1000))
		cfg.MessageID, cfg.Interval = t.Rng.Uint32(), 1+t.Rng.Intn(4)
		cfg.Extra = []string{"--influxUser", user, "--influxPass", pass, "--influxDB", db}
	case "defaults":
		cfg.Defaults, cfg.MessageID, cfg.Interval = true, 1000, 5
	case "no-store-needed":
		cfg.NoStat = true
	}
	f := fcrun.Start(t, cfg)
	if f == nil {
		return
	}
	defer f.Stop()
	if !cfg.Doomed {
		if !f.Stream(t.Rng, append(fcrun.Tags(w, ps, 60), hit), 1+t.Rng.Intn(30), 100) || !f.Barrier(t.Rng) || !f.JudgeAnswers() {
			return
		}
	}
	part := func(b []byte, n int) bool {
		if _, err := f.Reader.Write(b[:n]); err != nil {
			t.Fail("writing: %v", err)
			return false
		}
		return true
	}
	body := f.Report(t.Rng, fcrun.Tags(w, ps, 1+t.Rng.Intn(100)))
	half := func() { f.Reader.(*net.TCPConn).CloseWrite() }
	switch kind {
	case "reader-ends":
		half()
	case "reader-ends-in-header":
		if !part(body, 1+t.Rng.Intn(9)) {
			return
		}
		half()
	case "reader-ends-in-body":
		if !part(body, 10+t.Rng.Intn(len(body)-10)) {
			return
		}
		half()
	case "reader-resets":
		f.Reader.(*net.TCPConn).SetLinger(0)
		f.Reader.Close()
	case "unknown-message":
		h := uint16(1024 + t.Rng.Intn(1024))
		for h == llrp.ROAccessReportHeader || h == llrp.KeepaliveHeader || h == llrp.ReaderEventNotificationHeader || h == llrp.SetReaderConfigResponseHeader {
			h = uint16(t.Rng.Intn(1 << 16))
		}
		b := fcrun.Message(h, t.Rng.Uint32(), make([]byte, t.Rng.Intn(40)))
		if !part(b, len(b)) {
			return
		}
	case "store-refuses":
		refuse.Store([]int32{500, 401, 404, 503}[t.Rng.Intn(4)])
	case "store-gone":
		f.CloseStore()
	case "configured", "defaults":
		if !f.Wait(200, "writing statistics", func() bool { return len(f.Store.Points()) >= 10 }) {
			return
		}
		t.Eval(2)
		for k := range f.Store.Auth {
			if k != user+":"+pass {
				t.Fail("the store was addressed as %q instead of %q", k, user+":"+pass)
				return
			}
		}
		for _, p := range f.Store.Points() {
			if p.DB != db {
				t.Fail("a statistic was written to the database %q instead of %q", p.DB, db)
				return
			}
		}
		if !f.JudgePace() {
			return
		}
		t.Count("configured_runs", 1)
		t.Distinct(kind, t.Index)
		return
	case "no-store-needed":
		f.CloseStore()
		for i := 0; i < 3; i++ {
			if !f.Stream(t.Rng, append(fcrun.Tags(w, ps, 60), hit), 10, 100) || !f.Barrier(t.Rng) {
				return
			}
		}
		if !f.JudgeAnswers() {
			return
		}
		if n := len(f.Store.Points()); n > 0 {
			t.Fail("%d statistics were written although they are not enabled", n)
			return
		}
		t.Eval(1)
		t.Count("runs_without_store", 1)
		t.Distinct(kind, t.Index)
		return
	}
	ends(t, f, kind, !cfg.Doomed)
}

// ends waits for the program's end and judges it
func ends(t *core.T, f *fcrun.FC, kind string, quietly bool) {
	before := 0
	if quietly {
		before = len(f.Answers())
	}
	o := core.Wait(f.Pid, 200, f.Exited)
	t.Eval(1)
	switch {
	case o == core.Stuck:
		t.Fail("%s: the program goes on as if nothing had happened: %s", kind, f.Tail())
	case o == core.TooSlow:
		t.Inconclusive("%s: not in time", kind)
	case f.ExitCode() == 0:
		t.Fail("%s: the program ended and reported success: %s", kind, f.Tail())
	case quietly && (strings.Contains(f.Stderr(), "panic:") || strings.Contains(f.Stderr(), "fatal error:")):
		t.Fail("%s: the program crashed: %s", kind, f.Tail())
	case quietly && len(f.Answers()) > before:
		t.Fail("%s: the program answered what was not asked", kind)
	case strings.TrimSpace(lastLine(f.Stderr())) == "":
		t.Fail("%s: the program ended with status %d and gave no reason", kind, f.ExitCode())
	default:
		t.Count("ended_with_failure", 1)
		t.State("kinds_of_end", kind)
		t.Distinct(kind, t.Index)
		t.Sample("%s: status %d, %s", kind, f.ExitCode(), lastLine(f.Stderr()))
	}
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

func captureBusy(t *core.T) {
	ln, err := net.Listen("tcp", "0.0.0.0:0")
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	defer ln.Close()
	f := fcrun.StartOther(t, "", os.Getenv("VERIF_EC"), "-p", strconv.Itoa(ln.Addr().(*net.TCPAddr).Port))
	if f == nil {
		return
	}
	defer f.Stop()
	ends(t, f, "capture-address-in-use", false)
}
