// Command dataset runs the generator of simulation data: G02
package main

import (
	"context"
	"fmt"
	"io/fs"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/core"
	"verifharness/oracle"
)

const perFile = 100

// file is a tag file of a data set, with what its path says
type file struct {
	rel   string
	typ   string
	parts []string
	lines []string
	whole bool // the last line is complete
}

// filters are the patterns that select the file's tags, the most specific last
func (f file) filters() []oracle.Pat {
	switch f.typ {
	case "iso17363":
		return []oracle.Pat{{Type: f.typ, Fields: []string{"7B", f.parts[0]}}}
	case "iso17365":
		return []oracle.Pat{{Type: f.typ, Fields: []string{"25S", "U"}}, {Type: f.typ, Fields: []string{"25S", "U", f.parts[0]}}}
	}
	ps := []oracle.Pat{{Type: f.typ, Fields: []string{"3", f.parts[0]}}}
	if len(f.parts) == 2 {
		ps = append(ps, oracle.Pat{Type: f.typ, Fields: []string{"3", f.parts[0], f.parts[1]}})
	}
	return ps
}

func digits(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }

// record judges the i-th record of a file
func (f file) record(i int) string {
	line := f.lines[i]
	c := strings.IndexByte(line, ',')
	if c < 0 {
		return "is not a pair"
	}
	pc, err := strconv.ParseUint(line[:c], 16, 16)
	bits := line[c+1:]
	if err != nil || bits == "" || len(bits)%8 != 0 || strings.Trim(bits, "01") != "" {
		return "is not a protocol-control word and whole bytes in binary digits"
	}
	tag := oracle.Tag{PC: []byte{byte(pc >> 8), byte(pc)}, ID: oracle.Bytes(bits)}
	if words := int(pc >> 11); words*16 != len(bits) {
		return fmt.Sprintf("says %d words and has %d bits", words, len(bits))
	}
	same := func(want oracle.Tag) string {
		if string(want.PC) != string(tag.PC) || string(want.ID) != string(tag.ID) {
			return fmt.Sprintf("is %v, want %v", tag, want)
		}
		return ""
	}
	id, ok, _ := oracle.Decode(tag.PC, tag.ID)
	if !ok {
		return "is no tag"
	}
	for _, p := range f.filters() {
		if !oracle.MatchBits(p.Bits(), tag.ID) {
			return fmt.Sprintf("is %v, which %s does not select", tag, p.URN())
		}
	}
	s := oracle.SchemeOf(f.typ)
	switch f.typ {
	case "sgtin-96", "grai-96":
		ref, _ := new(big.Int).SetString(f.parts[1], 10)
		return same(oracle.EPCTag(s, 3, f.parts[0], ref, big.NewInt(int64(i))))
	case "sscc-96", "giai-96":
		cp := f.parts[0]
		text := strings.TrimPrefix(id, "urn:epc:id:"+s.Name+":"+cp+".")
		ref, ok := new(big.Int).SetString(text, 10)
		if !ok || !digits(text) {
			return "is " + id
		}
		if text[0] == '0' || f.typ == "sscc-96" && len(text) != 17-len(cp) || len(text) > 25-len(cp) {
			return "has the reference " + text
		}
		return same(oracle.EPCTag(s, 3, cp, ref, nil))
	case "iso17363":
		cn := fmt.Sprintf("%sU%06d", f.parts[0], i)
		return same(oracle.ISOTag(0xA9, "7B"+cn+fmt.Sprint(oracle.CheckDigit6346(cn))))
	case "iso17365":
		text := strings.TrimPrefix(id, "urn:epc:id:iso17365:25SU"+f.parts[0])
		if text == id || len(text) < 10 || len(text) > 30 || strings.Trim(text, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
			return "is " + id
		}
		return same(oracle.ISOTag(0xA2, "25SU"+f.parts[0]+text))
	}
	return ""
}

// read reads a data set
func read(dir string) (files []file, filters []string, err error) {
	err = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		whole := len(b) == 0 || b[len(b)-1] == '\n'
		lines := strings.Split(string(b), "\n")
		lines = lines[:len(lines)-1] // empty, or incomplete
		if rel == "filters.csv" {
			filters = lines
			return nil
		}
		e := strings.Split(rel, string(filepath.Separator))
		files = append(files, file{rel: rel, typ: e[0], parts: e[1:], lines: lines, whole: whole})
		return nil
	})
	return
}

// set judges a data set; ended says that the generator did all its work
func set(t *core.T, dir string, match, nsub int, ended bool) {
	files, lines, err := read(dir)
	if err != nil {
		t.Fail("the data set cannot be read: %v", err)
		return
	}
	depth := map[string]int{"sgtin-96": 2, "grai-96": 2, "sscc-96": 1, "giai-96": 1, "iso17363": 1, "iso17365": 1}
	want := map[string]oracle.Pat{}
	own := map[string]int{} // the most specific pattern of a file
	kinds := map[string]int{}
	for i, f := range files {
		if depth[f.typ] == 0 || depth[f.typ] != len(f.parts) {
			t.Fail("the data set has a file %s", f.rel)
			return
		}
		if oracle.SchemeOf(f.typ) != nil {
			item := map[string]int{"sgtin-96": 13 - len(f.parts[0]), "grai-96": 12 - len(f.parts[0])}[f.typ]
			if !digits(f.parts[0]) || len(f.parts[0]) < 6 || len(f.parts[0]) > 12 || len(f.parts) == 2 && (!digits(f.parts[1]) || len(f.parts[1]) != item) {
				t.Fail("the data set has a file %s, whose name is no company and item of the scheme", f.rel)
				return
			}
		}
		if ended && (!f.whole || len(f.lines) != perFile) {
			t.Fail("%s has %d complete records, want %d", f.rel, len(f.lines), perFile)
			return
		}
		for k := range f.lines {
			if k >= perFile {
				t.Fail("%s has %d records, want %d", f.rel, len(f.lines), perFile)
				return
			}
			if d := f.record(k); d != "" {
				t.Fail("record %d of %s, %q, %s", k, f.rel, f.lines[k], d)
				return
			}
		}
		t.Eval(len(f.lines))
		t.Count("records", len(f.lines))
		kinds[f.typ]++
		ps := f.filters()
		for _, p := range ps {
			want[p.URN()] = p
		}
		own[ps[len(ps)-1].URN()] = i
		t.Distinct(f.rel)
	}
	listed := map[string]bool{}
	for _, l := range lines {
		c := strings.IndexByte(l, ',')
		p, ok := oracle.Pat{}, false
		if c > 0 {
			p, ok = want[l[:c]]
		}
		if !ok {
			if !ended {
				continue // its file may be missing
			}
			t.Fail("the filter %q selects none of the files", l)
			return
		}
		if l[c+1:] != p.Bits() {
			t.Fail("the filter %q should have the bits %s", l, p.Bits())
			return
		}
		listed[l[:c]] = true
		t.Count("filters", 1)
	}
	if !ended {
		return
	}
	with := int(float64(match) / 100 * float64(nsub) / 20)
	without := int(float64(100-match) / 100 * float64(nsub) / 20)
	if with == 0 && len(lines) > 0 {
		t.Fail("no filter was asked for, and there are %d, the first %q", len(lines), lines[0])
		return
	}
	var lost []string
	nWith := 0
	for urn, i := range own {
		if listed[urn] {
			nWith++
		} else if without == 0 {
			lost = append(lost, urn)
		}
		for _, p := range files[i].filters() {
			if u := p.URN(); own[u] != i && !listed[u] && (without == 0 || listed[urn]) {
				lost = append(lost, u)
			}
		}
	}
	lost = uniq(lost)
	switch {
	case len(lost) == 1:
		t.Finding("last-filter-lost", "the generator ended before it had written "+lost[0])
		t.Count("last_filter_lost", 1)
	case len(lost) > 1:
		t.Fail("%d filters are missing: %v", len(lost), lost[:min(len(lost), 5)])
		return
	}
	for _, c := range []struct {
		what    string
		n, reps int
	}{{"with a filter", nWith, with}, {"without a filter", len(files) - nWith, without}} {
		lo := c.reps * 18 * 7 / 10
		if lo > 0 {
			lo -= 2
		}
		hi := c.reps * 18
		if c.what == "without a filter" {
			hi++ // one may be lost
		}
		if c.n < lo || c.n > hi {
			t.Fail("%d files %s, want %d (fewer only for items drawn twice)", c.n, c.what, c.reps*18)
			return
		}
	}
	for k, v := range kinds {
		t.State("kinds", k)
		t.Count("files_"+k, v)
	}
	if with+without > 0 && len(kinds) != 6 {
		t.Fail("the data set has files of %d kinds only: %v", len(kinds), kinds)
	}
}

func uniq(l []string) (o []string) {
	sort.Strings(l)
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			o = append(o, s)
		}
	}
	return
}

// generate runs the generator; ended says that it did all its work
func generate(t *core.T, bin, gopath string, nsub, match int, one bool) (dir string, ended, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	args := []string{bin, "--nsub", fmt.Sprint(nsub), "--match", fmt.Sprint(match)}
	if ts, err := exec.LookPath("taskset"); err == nil && one {
		args = append([]string{ts, "-c", fmt.Sprint(t.Index % 2)}, args...)
		t.Count("runs_on_one_processor", 1)
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "GOPATH="+gopath, "GORACE=exitcode=66")
	cmd.Dir = gopath
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		t.Inconclusive("the generator did not end within 400 s")
		return "", false, false
	}
	t.Count("runs", 1)
	dir = filepath.Join(gopath, fmt.Sprintf("src/github.com/iomz/gosstrak/test/data/simulation/dataset%d-%dpct", nsub, match))
	msg := strings.TrimSpace(string(out))
	if strings.Contains(msg, "DATA RACE") {
		t.Note("%s", msg)
		t.Fail("the race detector reports the generator")
		return dir, false, false
	}
	if err != nil {
		last := msg[strings.LastIndexByte(msg, '\n')+1:]
		if strings.HasSuffix(last, " <nil>") && cmd.ProcessState.ExitCode() == 1 {
			t.Count("died_at_existing_file", 1)
			t.Finding("grai-drawn-twice", "the generator ended with <nil> at an asset type drawn twice")
			return dir, false, true
		}
		t.Note("%s", msg)
		t.Fail("the generator ended with %v: %s", err, last)
		return dir, false, false
	}
	return dir, true, true
}

func g02(t *core.T) {
	base, err := os.MkdirTemp("", "verif-dataset-")
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(base)
	r := oracle.Rand{Rand: t.Rng}
	nsub, match := 20*(1+r.Intn(8)), []int{100, 100, 0, 25, 50, 75, 50}[r.Intn(7)]
	bin, one, tries := "VERIF_DATASET", false, 6
	switch {
	case t.Index < 8: // an asset type is likely drawn twice in one of them
		nsub, match, tries = 4000, 100, 1
	case t.Index < 24:
		match, one = 100, true
	case t.Index%3 == 0:
		bin = "VERIF_DATASET_RACE"
		nsub = 20 * (1 + r.Intn(3))
		t.Count("runs_under_race_detector", 1)
	}
	t.Note("--nsub %d --match %d %s", nsub, match, bin)
	for i := 0; i < tries; i++ {
		gp := filepath.Join(base, fmt.Sprint(i))
		if err := os.Mkdir(gp, 0755); err != nil {
			t.Inconclusive("%v", err)
			return
		}
		dir, ended, ok := generate(t, os.Getenv(bin), gp, nsub, match, one)
		if !ok {
			return
		}
		set(t, dir, match, nsub, ended)
		if ended {
			t.Count("complete_sets", 1)
			t.State("shapes", fmt.Sprint(nsub, match))
		}
		if t.Failed() || ended {
			return
		}
		os.RemoveAll(gp)
	}
}

func main() {
	core.Main(&core.Check{ID: "G02", Quick: 88, Thorough: 1200, Case: g02,
		Require: []string{"complete_sets", "records", "filters", "runs_under_race_detector", "files_sgtin-96", "files_sscc-96", "files_giai-96", "files_grai-96", "files_iso17363", "files_iso17365"},
		Rule:    "a case is a run of the generator with drawn --nsub and --match into a directory of its own (a third of them built with the race detector, some on one processor, the first eight with many iterations), its files and filters read back; distinct by file of a data set",
		Assum:   []string{"the generator seeds itself with the clock, so a case cannot be repeated exactly", "a run which ends at an asset type drawn twice (KNOWN_FINDINGS) is judged on what it left and repeated", "one missing filter is the known finding of the writer nobody waits for; two are a violation", "items drawn twice give one file: the number of files has a lower bound of 70 %"}})
}
