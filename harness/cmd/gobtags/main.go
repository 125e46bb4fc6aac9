// Command gobtags runs the tag list converter: G01
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/go-llrp/binutil"

	"verifharness/core"
	"verifharness/oracle"
)

type record struct {
	pc, id string
	tag    *llrp.Tag
}

func bits(b []byte) string {
	var s strings.Builder
	for _, x := range b {
		fmt.Fprintf(&s, "%08b", x)
	}
	return s.String()
}

func valid(t *core.T, r oracle.Rand) record {
	w := oracle.NewWorld(t.Rng, 2)
	tag := w.Tag()
	if r.Intn(3) == 0 {
		tag = oracle.Tag{PC: []byte{byte(r.Intn(256)), byte(r.Intn(256))}, ID: make([]byte, 1+r.Intn(62))}
		if r.Intn(300) == 0 { // more than fits in 64 kB of text
			tag.ID = make([]byte, 500+r.Intn(12000))
			t.Count("long_records", 1)
		}
		r.Read(tag.ID)
	}
	if r.Intn(8) == 0 { // a small word needs fewer digits
		tag.PC = []byte{0, byte(r.Intn(256))}
	}
	v := uint16(tag.PC[0])<<8 | uint16(tag.PC[1])
	return record{fmt.Sprintf([]string{"%04x", "%x", "%04X", "%X", "%08x"}[r.Intn(5)], v), bits(tag.ID), &llrp.Tag{PCBits: v, EPC: tag.ID}}
}

// spoiled is a record which is not a tag
func spoiled(t *core.T, r oracle.Rand) record {
	v := valid(t, r)
	v.tag = nil
	switch r.Intn(8) {
	case 0:
		v.pc = []string{"", "g000", "0x3000", "-3000", "+3000", " 3000", "30 00", "3_000", "PC"}[r.Intn(9)]
	case 1: // more than 16 bits
		v.pc = fmt.Sprintf("%x", 1<<16+r.Intn(1<<30))
	case 2:
		v.id = v.id[:len(v.id)-1-r.Intn(7)]
	case 3:
		v.id += strings.Repeat("1", 1+r.Intn(7))
	case 4:
		v.id = ""
	case 5:
		v.id = v.id[:r.Intn(8)]
	case 6: // the columns exchanged
		v.pc, v.id = v.id, v.pc
		if len(v.pc) <= 16 || len(v.id)%8 == 0 {
			v.pc = "x" + v.pc
		}
	case 7:
		v.pc, v.id = "PCBits", "EPC"
	}
	return v
}

func field(r oracle.Rand, s string) string {
	if r.Intn(6) == 0 {
		return `"` + s + `"`
	}
	return s
}

func run(t *core.T, dir, text string) (llrp.Tags, string, error) {
	in, out := filepath.Join(dir, "in.csv"), filepath.Join(dir, "out.gob")
	os.WriteFile(in, []byte(text), 0644)
	os.Remove(out)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_GOBTAGS"), in, "-o", out)
	cmd.Dir = dir
	msg, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		t.Inconclusive("the converter did not end within 300 s")
		return nil, "", ctx.Err()
	}
	if err != nil {
		return nil, string(msg), err
	}
	var tags llrp.Tags
	return tags, string(msg), binutil.Load(out, &tags)
}

func same(a, b llrp.Tags) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("the tag %04x %x is missing", a[i].PCBits, a[i].EPC)
		}
		if b[i] == nil || a[i].PCBits != b[i].PCBits || !bytes.Equal(a[i].EPC, b[i].EPC) {
			return fmt.Sprintf("tag %d is %v, want %v", i, b[i], a[i])
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("%d tags more than there are valid records, the first %v", len(b)-len(a), b[len(a)])
	}
	return ""
}

func g01(t *core.T) {
	r := oracle.Rand{Rand: t.Rng}
	dir, err := os.MkdirTemp("", "verif-gobtags-")
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	if t.Index < 2 {
		known(t, r, dir)
		return
	}
	n := r.Intn(40)
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = t.N(1500, 20000)
	}
	nl := []string{"\n", "\r\n"}[r.Intn(2)]
	var text, conv strings.Builder
	var want llrp.Tags
	bad := r.Intn(4)
	var last *record
	shape := ""
	for i := 0; i < n; i++ {
		rec := valid(t, r)
		if last != nil && r.Intn(12) == 0 {
			rec = *last // duplicates stay
		} else if r.Intn(4) < bad {
			rec = spoiled(t, r)
		}
		last = &rec
		if rec.tag != nil {
			want = append(want, rec.tag)
			fmt.Fprintf(&conv, "%s,%s\n", rec.pc, rec.id)
			shape += "v"
		} else {
			shape += "s"
			t.Count("records_to_skip", 1)
		}
		text.WriteString(field(r, rec.pc) + "," + field(r, rec.id))
		if i < n-1 || r.Intn(3) > 0 {
			text.WriteString(nl)
		}
		if r.Intn(20) == 0 {
			text.WriteString(nl)
		}
	}
	got, msg, err := run(t, dir, text.String())
	t.Eval(n)
	t.Count("records_kept", len(want))
	if err != nil {
		t.Note("input:\n%s", text.String())
		t.Fail("the converter or its output failed: %v: %s", err, msg)
		return
	}
	if d := same(want, got); d != "" {
		t.Note("input:\n%s", text.String())
		t.Fail("%s (%d records, %d valid, %d written)", d, n, len(want), len(got))
		return
	}
	t.Distinct(text.String())
	t.State("shapes", shape)
	if n > 0 && n < 6 {
		t.Sample("%q -> %d tags", text.String(), len(got))
	}
	// the tool's own conversions
	cmd := exec.Command(os.Getenv("VERIF_GOBTAGS_HOOKED"))
	cmd.Env = append(os.Environ(), "VERIF_CONVERT=1")
	cmd.Stdin = strings.NewReader(conv.String())
	o, err := cmd.Output()
	if err != nil {
		t.Fail("the tool's conversions ended with %v: %s", err, o)
		return
	}
	lines := strings.Split(strings.TrimSuffix(string(o), "\n"), "\n")
	for i, tag := range want {
		w := fmt.Sprintf("%d false %x false", tag.PCBits, tag.EPC)
		if i >= len(lines) || lines[i] != w {
			t.Fail("the tool converts %v to %q, want %q", tag, lines[min(i, len(lines)-1)], w)
			return
		}
		t.Count("conversions", 1)
	}
	// an output which cannot be created
	cmd = exec.Command(os.Getenv("VERIF_GOBTAGS"), filepath.Join(dir, "in.csv"), "-o", filepath.Join(dir, "none", "out.gob"))
	if b, err := cmd.CombinedOutput(); err == nil {
		t.Fail("the output could not be created, but the converter reported success: %s", b)
		return
	}
	t.Count("failures_reported", 1)
}

// known are the inputs which the tag library's reader gets wrong
func known(t *core.T, r oracle.Rand, dir string) {
	var want, zero llrp.Tags
	text := ""
	for i := 0; i < 10; i++ {
		v := valid(t, r)
		want = append(want, v.tag)
		zero = append(zero, v.tag)
		text += v.pc + "," + v.id + "\n"
		if t.Index == 0 && i%3 == 0 {
			text += v.pc + ",abcdefgh\n"
			zero = append(zero, &llrp.Tag{PCBits: v.tag.PCBits, EPC: []byte{0}})
		}
		if t.Index == 1 && i == 5 {
			text += v.pc + "," + v.id + ",1\n"
		}
	}
	got, msg, err := run(t, dir, text)
	t.Eval(1)
	switch {
	case t.Index == 0 && err == nil && same(zero, got) == "":
		t.Finding("not-binary-digits", "the record \"3000,abcdefgh\" becomes a tag with the identifier 00")
	case t.Index == 1 && err != nil && strings.Contains(msg, "wrong number of fields"):
		t.Finding("uneven-columns", "a record of three columns among records of two ends the converter and nothing is written")
	case err != nil:
		t.Fail("the converter or its output failed: %v: %s", err, msg)
	default:
		if d := same(want, got); d != "" {
			t.Note("input:\n%s", text)
			t.Fail("%s", d)
		}
	}
}

func main() {
	core.Main(&core.Check{ID: "G01", Quick: 1600, Thorough: 12000, Case: g01, Require: []string{"records_kept", "records_to_skip", "conversions", "failures_reported"},
		Rule:  "a case is a run of the converter on a drawn file of tag records and spoiled records; distinct by the file's text",
		Assum: []string{"cases 0 and 1 have the two kinds of records that the tag library's reader gets wrong (KNOWN_FINDINGS); the other files have two columns throughout and binary digits only"}})
}
