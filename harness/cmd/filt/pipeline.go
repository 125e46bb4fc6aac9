package main

import (
	"bytes"
	"encoding/csv"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/go-llrp/binutil"
	"github.com/iomz/gosstrak/filtering"

	"verifharness/core"
	"verifharness/fcrun"
	"verifharness/oracle"
)

// subsFile writes entries as a subscription file, one or several rows for a destination, with cells that are no
// patterns in between and rows that are no subscriptions
func subsFile(t *core.T, f string, es []entry) bool {
	r := t.Rng
	mix := func(s string) string {
		if r.Intn(3) > 0 {
			return s
		}
		b := []byte(s)
		for i := range b {
			if r.Intn(3) == 0 && b[i] < 0x80 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	by := map[string][]string{}
	var us []string
	for _, i := range r.Perm(len(es)) {
		u := es[i].uri
		if by[u] == nil {
			us = append(us, u)
		}
		by[u] = append(by[u], es[i].pat.String())
	}
	var rows [][]string
	for _, u := range us {
		for ps := by[u]; len(ps) > 0; {
			n := 1 + r.Intn(len(ps))
			row := []string{mix(u)}
			for _, p := range ps[:n] {
				if r.Intn(10) == 0 {
					row = append(row, []string{"", "a comment, with a comma", "urn:epc:id:sgtin:1.2.3", `"`}[r.Intn(4)])
				}
				row = append(row, p)
			}
			ps = ps[n:]
			rows = append(rows, row)
		}
	}
	if r.Intn(2) == 0 {
		rows = append(rows, []string{"reportURI", "patterns"}, []string{"ftp://elsewhere/", "urn:epc:pat:sgtin-96:3"})
	}
	r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	w.UseCRLF = r.Intn(2) == 0
	w.WriteAll(rows)
	t.Note("%s:\n%s", filepath.Base(f), buf.String())
	if err := os.WriteFile(f, buf.Bytes(), 0644); err != nil {
		t.Inconclusive("%v", err)
		return false
	}
	return true
}

// shipped loads one of the benchmark sets of the repository by means of this check's own
func shipped(t *core.T) (file string, es []entry, ts []oracle.Tag) {
	n := 100 * (1 + t.Rng.Intn(10))
	dir := os.Getenv("VERIF_DATA")
	file = filepath.Join(dir, fmt.Sprintf("bench-%dsubs-ecspec.csv", n))
	f, err := os.Open(file)
	if err != nil {
		return "", nil, nil
	}
	defer f.Close()
	rd := csv.NewReader(f)
	rd.FieldsPerRecord = -1
	rows, err := rd.ReadAll()
	if err != nil {
		return "", nil, nil
	}
	for _, row := range rows {
		for _, c := range row[1:] {
			tf := strings.SplitN(strings.TrimPrefix(c, "urn:epc:pat:"), ":", 2)
			if len(tf) != 2 || !strings.HasPrefix(c, "urn:epc:pat:") {
				continue
			}
			p := oracle.Pat{Type: tf[0], Fields: strings.Split(tf[1], ".")}
			es = append(es, entry{p, p.Bits(), strings.ToLower(row[0])})
		}
	}
	var tags llrp.Tags
	if binutil.Load(filepath.Join(dir, fmt.Sprintf("bench-%dsubs-tags.gob", n)), &tags) != nil {
		return "", nil, nil
	}
	for _, i := range t.Rng.Perm(len(tags)) {
		if len(ts) < 300 {
			ts = append(ts, oracle.Tag{PC: []byte{byte(tags[i].PCBits >> 8), byte(tags[i].PCBits)}, ID: tags[i].EPC})
		}
	}
	t.Count("shipped_sets", 1)
	return
}

// f19: from subscription files and reader reports to what each destination gets
func f19(t *core.T) {
	r := t.Rng
	dir, err := os.MkdirTemp("", "pipeline-")
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	var es []entry
	var ts []oracle.Tag
	real := ""
	if t.Index%41 == 7 {
		real, es, ts = shipped(t)
	}
	var w *oracle.World
	if real == "" {
		w, es = pool(t, size(t)+1)
		es = lowered(es)
		ts = tags(w, es, 20+2*len(es))
		// a reader reports whole words, and not nothing
		kept := ts[:0]
		for _, tag := range ts {
			if len(tag.PC) == 2 && len(tag.ID) > 0 && len(tag.ID) < 128 {
				kept = append(kept, tag)
			}
		}
		ts = kept
	}
	// what is held in the end came in up to three files, and what else was added is withdrawn by a fourth
	m := modelOf(nil)
	var files []string
	var kinds []int
	step := func(kind int, part []entry) bool {
		f := filepath.Join(dir, strconv.Itoa(len(files))+".csv")
		if !subsFile(t, f, part) {
			return false
		}
		files, kinds = append(files, f), append(kinds, kind)
		for _, e := range part {
			if kind == 0 {
				m.add(e)
			} else {
				m.del(e)
			}
		}
		return true
	}
	if real != "" {
		files, kinds = []string{real}, []int{0}
		for _, e := range es {
			m.add(e)
		}
		if r.Intn(2) == 0 && !step(1, es[:r.Intn(len(es))]) {
			return
		}
	} else {
		a, b := r.Intn(len(es)+1), r.Intn(len(es)+1)
		if a > b {
			a, b = b, a
		}
		for _, part := range [][]entry{es[:a], es[a:b], es[b:]} {
			if len(part) > 0 && !step(0, part) {
				return
			}
		}
		if r.Intn(2) == 0 {
			var gone []entry
			for _, e := range es {
				if r.Intn(3) == 0 {
					gone = append(gone, e)
				}
			}
			if !step(1, gone) {
				return
			}
		}
	}
	var loaded []filtering.Subscriptions
	for _, f := range files {
		s := filtering.LoadSubscriptionsFromCSVFile(f)
		if r.Intn(3) == 0 { // kept in the meantime
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(s); err != nil {
				t.Fail("saving the subscriptions: %v", err)
				return
			}
			s = filtering.Subscriptions{}
			if err := gob.NewDecoder(&buf).Decode(&s); err != nil {
				t.Fail("restoring the subscriptions: %v", err)
				return
			}
		}
		loaded = append(loaded, s)
	}
	names := []string{}
	for n := range filtering.AvailableEngines {
		names = append(names, n)
	}
	sort.Strings(names)
	// the reader's reports
	var bodies [][]byte
	for i := 0; i < len(ts); {
		n := 1 + r.Intn(40)
		if i+n > len(ts) {
			n = len(ts) - i
		}
		var b []byte
		for _, tag := range ts[i : i+n] {
			b = append(b, fcrun.TagData(tag, r.Intn(2) == 0)...)
		}
		bodies = append(bodies, b)
		i += n
	}
	for _, name := range names {
		mk := filtering.AvailableEngines[name]
		var e filtering.Engine
		for i, s := range loaded {
			switch {
			case i == 0 && r.Intn(3) > 0:
				e = mk(s)
			case i == 0:
				e = mk(filtering.Subscriptions{})
				e.AddSubscription(s)
			case kinds[i] == 0:
				e.AddSubscription(s)
			default:
				e.DeleteSubscription(s)
			}
			if r.Intn(4) == 0 {
				d, err := e.MarshalBinary()
				if err != nil {
					t.Fail("%s: saving: %v", name, err)
					return
				}
				e = mk(filtering.Subscriptions{})
				if err := e.UnmarshalBinary(d); err != nil {
					t.Fail("%s: restoring: %v", name, err)
					return
				}
			}
		}
		got, expected := map[string][]string{}, map[string][]string{}
		i := 0
		for _, b := range bodies {
			for _, ev := range llrp.UnmarshalROAccessReportBody(append([]byte{}, b...)) {
				tag := ts[i]
				i++
				id, uris, err := e.Search(*ev)
				wantd := want(m, name, tag)
				if !judge(t, name, tag, wantd, "after "+strconv.Itoa(len(files))+" files", id, uris, err) {
					return
				}
				if err == nil {
					seen := map[string]bool{}
					for _, u := range uris {
						if !seen[u] {
							got[u] = append(got[u], id)
						}
						seen[u] = true
					}
				}
				wid, ok, open := oracle.Decode(tag.PC, tag.ID)
				if open {
					wid, ok = id, err == nil
				}
				if ok {
					for u := range wantd {
						if strings.HasPrefix(u, "http") {
							expected[u] = append(expected[u], wid)
						}
					}
				}
			}
		}
		if i != len(ts) {
			t.Fail("%d of %d tags came through the reports", i, len(ts))
			return
		}
		if fmt.Sprint(got) != fmt.Sprint(expected) {
			t.Fail("%s: the destinations get %v, want %v", name, got, expected)
			return
		}
		for _, l := range got {
			t.Count("identities_reported", len(l))
		}
		t.Count("reports_per_destination", len(got))
	}
	t.State("files", fmt.Sprint(kinds, real != ""))
	t.Distinct(files, ts, es)
	t.Sample("%d files with %d subscriptions, %d tags in %d reports to %d engines", len(files), len(es), len(ts), len(bodies), len(names))
}
