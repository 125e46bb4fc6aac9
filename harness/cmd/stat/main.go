// Command stat watches the statistics manager: M01
package main

import (
	"fmt"
	"math"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"

	"github.com/iomz/gosstrak/monitoring"

	"verifharness/core"
	"verifharness/influx"
)

// expect is what a message has to become; nil for nothing
type expect struct {
	measurement string
	tags        map[string]string
	ints        map[string]int64
	floats      map[string]float64
}

func (e expect) diff(p influx.Point) string {
	if p.Measurement != e.measurement {
		return fmt.Sprintf("measurement %q, want %q", p.Measurement, e.measurement)
	}
	if fmt.Sprint(p.Tags) != fmt.Sprint(e.tags) {
		return fmt.Sprintf("tags %v, want %v", p.Tags, e.tags)
	}
	for k, v := range p.Fields {
		if want, ok := e.ints[k]; ok {
			if v != fmt.Sprintf("%di", want) {
				return fmt.Sprintf("field %s=%s, want the integer %d", k, v, want)
			}
			continue
		}
		want, ok := e.floats[k]
		if !ok {
			return fmt.Sprintf("field %s=%s, which was not given", k, v)
		}
		got, err := strconv.ParseFloat(v, 64)
		if err != nil || math.Abs(got-want) > 1e-9*math.Abs(want) {
			return fmt.Sprintf("field %s=%s, want %v", k, v, want)
		}
	}
	if n := len(e.ints) + len(e.floats); len(p.Fields) != n {
		return fmt.Sprintf("%d fields %v, want %d", len(p.Fields), p.Fields, n)
	}
	return ""
}

var selected = map[string]int64{"Legacy": 0, "LegacyEngine": 0, "List": 1, "PatriciaTrie": 2, "SplayTree": 3}

func draw(r *rand.Rand, name string) (monitoring.StatMessage, *expect, string) {
	num := func() int64 {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			return int64(1 + r.Intn(9))
		case 2:
			return r.Int63()
		}
		return int64(r.Intn(1000000))
	}
	switch r.Intn(10) {
	case 0, 1, 2, 3: // traffic
		in := num()
		var out int64
		if in > 0 {
			out = r.Int63n(in) + int64(r.Intn(2))
		}
		if r.Intn(8) == 0 { // whatever they are
			out = r.Int63n(1 << uint(1+r.Intn(50)))
		}
		e := &expect{"traffic", map[string]string{"engine": name}, map[string]int64{"incoming_events": in, "matched_events": out}, map[string]float64{}}
		if in != 0 {
			e.floats["matching_probability"] = float64(out) / float64(in) * 100
		}
		return monitoring.StatMessage{Type: monitoring.Traffic, Value: []interface{}{in, out}, Name: name}, e, "traffic"
	case 4, 5, 6: // throughput
		v := math.Exp(r.NormFloat64() * 6)
		return monitoring.StatMessage{Type: monitoring.EngineThroughput, Value: []interface{}{v}, Name: name},
			&expect{"throughput", map[string]string{"engine": name}, nil, map[string]float64{"event_per_us": v}}, "throughput"
	case 7, 8:
		n := []string{"Legacy", "LegacyEngine", "List", "PatriciaTrie", "SplayTree"}[r.Intn(5)]
		return monitoring.StatMessage{Type: monitoring.SelectedEngine, Name: n},
			&expect{"engine", map[string]string{}, map[string]int64{"selected": selected[n]}, nil}, "selected"
	}
	// malformed traffic
	bad := [][]interface{}{nil, {}, {int64(5)}, {nil, nil}, {"5", "3"}, {int64(7), "3"}, {"7", int64(3)}, {5, 3}, {int64(7), 3}, {7.0, int64(3)}, {int64(9), nil}, {int64(0), 1.5}}
	return monitoring.StatMessage{Type: monitoring.Traffic, Value: bad[r.Intn(len(bad))], Name: name}, nil, "malformed"
}

func m01(t *core.T) {
	st := &influx.Store{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	srv := &http.Server{Handler: st}
	go srv.Serve(ln)
	defer srv.Close()
	db := []string{"gosstrak", "db2", "stats_x"}[t.Rng.Intn(3)]
	sm := monitoring.NewStatManager("master", "http://"+ln.Addr().String(), "user"+db, "pw", db)
	if sm == nil || sm.StatMessageChannel == nil {
		t.Fail("no message channel")
		return
	}
	senders := 1
	if t.Rng.Intn(3) == 0 {
		senders = 2 + t.Rng.Intn(3)
	}
	n := 10 + t.Rng.Intn(60)
	if t.Index%200 == 60 {
		n = 3000
	}
	type sent struct {
		e    *expect
		what string
	}
	logs := make([][]sent, senders)
	kinds := ""
	var wg sync.WaitGroup
	engines := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}
	var progress sync.Map
	for s := 0; s < senders; s++ {
		r := rand.New(rand.NewSource(t.Rng.Int63()))
		var msgs []monitoring.StatMessage
		for i := 0; i < n; i++ {
			name := engines[r.Intn(4)]
			if senders > 1 { // so that the points tell whose they are
				name = fmt.Sprintf("%s %d", name, s)
			} else if r.Intn(6) == 0 {
				name = []string{"a b", "x,y", "k=v", "Ünï", "e1"}[r.Intn(5)]
			}
			m, e, kind := draw(r, name)
			if senders > 1 && kind == "selected" {
				continue
			}
			msgs = append(msgs, m)
			logs[s] = append(logs[s], sent{e, fmt.Sprintf("%+v", m)})
			t.Count(kind, 1)
			if len(kinds) < 200 {
				kinds += kind[:1]
			}
		}
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for i, m := range msgs {
				sm.StatMessageChannel <- m
				progress.Store(s, i)
			}
		}(s)
	}
	done := make(chan bool)
	go func() {
		wg.Wait()
		// what was written before this message is written by the time it is
		sm.StatMessageChannel <- monitoring.StatMessage{Type: monitoring.EngineThroughput, Value: []interface{}{1.5}, Name: "sentinel"}
		close(done)
	}()
	sentinel := func() (found bool) {
		st.Each(func(p influx.Point) bool {
			found = p.Tags["engine"] == "sentinel"
			return !found
		})
		return
	}
	switch core.Wait(0, 100, sentinel) {
	case core.Stuck:
		t.Fail("the statistics manager stopped taking or writing statistics; sent %v", fmt.Sprint(logs))
		return
	case core.TooSlow:
		t.Inconclusive("statistics were not taken in time")
		return
	}
	<-done
	points := st.Points()
	if st.Bad != "" {
		t.Fail("not in line protocol: %s", st.Bad)
		return
	}
	series := map[string]int{}
	got := make([][]influx.Point, senders)
	for _, p := range points {
		t.Eval(1)
		if p.Tags["engine"] == "sentinel" {
			continue
		}
		if p.DB != db {
			t.Fail("point %v written to database %q, want %q", p, p.DB, db)
			return
		}
		if series[p.Series()]++; series[p.Series()] > 1 {
			t.Fail("two points in the same series at the same time replace each other in the store: %v", p)
			return
		}
		s := 0
		if senders > 1 {
			w := p.Tags["engine"]
			if i := strings.LastIndex(w, " "); i >= 0 {
				s, _ = strconv.Atoi(w[i+1:])
			}
			if s >= senders {
				t.Fail("point %v was not asked for", p)
				return
			}
		}
		got[s] = append(got[s], p)
	}
	for s := range logs {
		k := 0
		for i, x := range logs[s] {
			if x.e == nil {
				continue
			}
			if k >= len(got[s]) {
				t.Fail("statistic %d %s was not written; written %v", i, x.what, got[s])
				return
			}
			if d := x.e.diff(got[s][k]); d != "" {
				t.Fail("statistic %d %s was written as %v: %s", i, x.what, got[s][k], d)
				return
			}
			k++
		}
		if k != len(got[s]) {
			t.Fail("%d statistics, but %d points; the first extra one is %v", k, len(got[s]), got[s][k])
			return
		}
	}
	for a := range st.Auth {
		if a != "user"+db+":pw" {
			t.Fail("written with the credentials %q", a)
		}
	}
	t.Count("points", len(points))
	t.Count("requests", st.Requests)
	if senders > 1 {
		t.Count("concurrent_senders", 1)
	}
	t.State("message_sequences", kinds)
	t.Distinct(kinds, n, senders, db)
	t.Sample("%d senders of up to %d statistics (%s...) to %s: %d points in %d requests", senders, n, clip(kinds), db, len(points), st.Requests)
}

func clip(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

func main() {
	core.Main(
		&core.Check{ID: "M01", Quick: 1200, Thorough: 20000, Case: m01, Require: []string{"traffic", "throughput", "selected", "malformed", "points", "concurrent_senders"},
			Rule:  "a case is a statistics manager writing to a recording stand-in for the store over loopback HTTP; 1-4 senders of 10-70 drawn statistics (traffic, throughput, selection, malformed traffic); the points are parsed from line protocol and compared one by one; distinct by the sequence of kinds",
			Assum: []string{"the store replaces a point of the same series and timestamp", "throughput values are finite (R03)"}},
	)
}
