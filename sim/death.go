package main

// Some failures of the code under test end the process and cannot be recovered
// from (a stack overflow, an unlocked map used by two goroutines). Workers keep
// a journal of their current run, from which the parent process makes the replay.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"strings"
	"time"
)

type journal struct{ f *os.File }

type journalHead struct {
	Run     int
	Profile string
	Config  Config
}

func (j *journal) start(run int, p *Profile, cfg Config) {
	if j == nil {
		return
	}
	j.f.Truncate(0)
	j.f.Seek(0, 0)
	j.line(journalHead{run, p.name, cfg})
}

func (j *journal) op(op *Op) {
	if j != nil {
		j.line(op)
	}
}

func (j *journal) line(x any) {
	b, _ := json.Marshal(x)
	j.f.Write(append(b, '\n'))
}

// fatal says which unrecoverable failure of the library ended a process.
func fatal(stderr []byte) string {
	i := bytes.Index(stderr, []byte("fatal error: "))
	if i < 0 || !bytes.Contains(stderr, []byte("/libsignal-go/protocol")) {
		return ""
	}
	l, _, _ := strings.Cut(string(stderr[i+13:]), "\n")
	for _, k := range []string{"stack overflow", "concurrent map", "unlock of unlocked", "all goroutines are asleep"} {
		if strings.Contains(l, k) {
			return l
		}
	}
	return ""
}

// died makes the result of a worker whose process ended in the middle of a run.
func died(exe, dir, prop, out string, seed uint64, why string) *workerResult {
	v := &Violation{Props: []string{"C17"}, Oracle: "death", Detail: "the process died: " + why}
	b, err := os.ReadFile(out + ".journal")
	if err != nil || !v.has(prop) {
		return nil
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 1<<26)
	var h journalHead
	var ops []*Op
	for n := 0; sc.Scan(); n++ {
		if n == 0 {
			if json.Unmarshal(sc.Bytes(), &h) != nil {
				return nil
			}
			continue
		}
		op := new(Op)
		if json.Unmarshal(sc.Bytes(), op) == nil {
			ops = append(ops, op)
		}
	}
	if len(ops) == 0 {
		return nil
	}
	path := out + ".replay"
	save := func(ops []*Op) {
		rp := &Replay{Property: prop, Violation: *v, Profile: h.Profile, Seed: seed, Run: h.Run, Original: len(ops), Config: h.Config, Ops: ops}
		for _, o := range ops {
			rp.Readable = append(rp.Readable, o.String())
		}
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, b, 0o644)
	}
	dies := func(ops []*Op) bool {
		save(ops)
		c := exec.Command(exe, "replay", path, "quiet", "inner")
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "VERIF_DIR="+dir)
		o, _ := c.CombinedOutput()
		return fatal(o) != ""
	}
	v.OpID = ops[len(ops)-1].ID
	if !dies(ops) {
		return nil
	}
	end := time.Now().Add(45 * time.Second)
	for size := len(ops) / 2; size > 0 && time.Now().Before(end); {
		cut := false
		for i := 0; i+size < len(ops) && time.Now().Before(end); {
			c := append(append([]*Op(nil), ops[:i]...), ops[i+size:]...)
			if dies(c) {
				ops, cut = c, true
			} else {
				i += size
			}
		}
		if !cut || size > len(ops)/2 {
			size /= 2
		}
	}
	save(ops)
	return &workerResult{Violation: v, Replay: path, Stats: newStats()}
}
