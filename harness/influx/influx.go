// Package influx is a recording stand-in for the time-series store
package influx

import (
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"
)

// Point is one line of the line protocol, as the store understands it
type Point struct {
	DB, Precision string
	Measurement   string
	Tags          map[string]string
	Fields        map[string]string
	TS            string
}

func (p Point) Series() string {
	var k []string
	for t, v := range p.Tags {
		k = append(k, t+"="+v)
	}
	sort.Strings(k)
	return p.DB + "|" + p.Measurement + "|" + strings.Join(k, ",") + "|" + p.Precision + p.TS
}

// split cuts at unescaped, unquoted separators
func split(s string, sep byte) []string {
	var r []string
	quoted := false
	cur := 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			i++
		case s[i] == '"':
			quoted = !quoted
		case s[i] == sep && !quoted:
			r = append(r, s[cur:i])
			cur = i + 1
		}
	}
	return append(r, s[cur:])
}

func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && strings.IndexByte(", =", s[i+1]) >= 0 {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func parse(line string) (p Point, err error) {
	parts := split(line, ' ')
	if len(parts) != 3 {
		return p, fmt.Errorf("%d parts in %q", len(parts), line)
	}
	p.TS = parts[2]
	p.Tags, p.Fields = map[string]string{}, map[string]string{}
	for i, kv := range split(parts[0], ',') {
		if i == 0 {
			p.Measurement = unescape(kv)
			continue
		}
		x := split(kv, '=')
		if len(x) != 2 {
			return p, fmt.Errorf("tag %q in %q", kv, line)
		}
		p.Tags[unescape(x[0])] = unescape(x[1])
	}
	for _, kv := range split(parts[1], ',') {
		x := split(kv, '=')
		if len(x) != 2 {
			return p, fmt.Errorf("field %q in %q", kv, line)
		}
		p.Fields[unescape(x[0])] = x[1]
	}
	return
}

// Store is a stand-in for the time-series store
type Store struct {
	mu       sync.Mutex
	points   []Point
	Requests int
	Bad      string
	Auth     map[string]int
	Delay    func() time.Duration // before answering a request
	Refuse   func() int           // status to answer with instead of keeping it, if not 0
}

func (s *Store) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	if s.Delay != nil {
		time.Sleep(s.Delay())
	}
	if s.Refuse != nil {
		if code := s.Refuse(); code != 0 {
			http.Error(w, `{"error":"refused"}`, code)
			return
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.URL.Path != "/write" {
		w.WriteHeader(204)
		return
	}
	s.Requests++
	u, p, _ := r.BasicAuth()
	if s.Auth == nil {
		s.Auth = map[string]int{}
	}
	s.Auth[u+":"+p]++
	for _, l := range strings.Split(strings.TrimRight(string(b), "\n"), "\n") {
		if l == "" {
			continue
		}
		pt, err := parse(l)
		if err != nil {
			s.Bad = err.Error()
		}
		pt.DB, pt.Precision = r.URL.Query().Get("db"), r.URL.Query().Get("precision")
		s.points = append(s.points, pt)
	}
	w.WriteHeader(204)
}

// Points written so far
func (s *Store) Points() []Point {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Point{}, s.points...)
}

// Each calls f for the points written so far, until it returns false
func (s *Store) Each(f func(Point) bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.points {
		if !f(p) {
			return
		}
	}
}

// Broken says what was not in line protocol
func (s *Store) Broken() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Bad
}
