package core

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

func debugStacks() []byte {
	buf := make([]byte, 1<<20)
	return buf[:runtime.Stack(buf, true)]
}

// idle says whether no thread of the given process (0: this one) is runnable, apart from the sampling one
func idle(pid int) bool {
	limit := 0
	p := "self"
	if pid != 0 {
		p = fmt.Sprint(pid)
	} else {
		limit = 1
	}
	files, _ := filepath.Glob("/proc/" + p + "/task/*/stat")
	n := 0
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndex(s, ") "); i >= 0 && len(s) > i+2 && (s[i+2] == 'R' || s[i+2] == 'D') {
			n++
		}
	}
	return n <= limit
}

// Outcome of a wait
type Outcome int

// Outcomes
const (
	Happened Outcome = iota
	Stuck            // the process had nothing left to run, or ran without end: bounded progress is violated
	TooSlow          // the process was still busy: inconclusive
)

// MaxCPU is the processor time another process may use up in one wait; what the checks wait for takes
// a hundredth of it
const MaxCPU = 100 * time.Second

// cpu is the processor time another process has used
func cpu(pid int) time.Duration {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond
}

// Wait polls until cond holds. No deadline decides: the wait ends with Stuck only after the process
// (pid 0: this one) was observed with no runnable thread in need samples 50 ms apart,
// so it was not starved of CPU but had nothing to run, or after another process has used MaxCPU of
// processor time meanwhile, so it runs but gets nowhere.
func Wait(pid int, need int, cond func() bool) Outcome {
	idles := 0
	start := time.Now()
	used := cpu(pid)
	for {
		if cond() {
			return Happened
		}
		time.Sleep(50 * time.Millisecond)
		if idle(pid) {
			idles++
		}
		if idles > need {
			if cond() {
				return Happened
			}
			return Stuck
		}
		if pid != 0 && cpu(pid)-used > MaxCPU {
			if cond() {
				return Happened
			}
			return Stuck
		}
		if time.Since(start) > 500*time.Second {
			return TooSlow
		}
	}
}
