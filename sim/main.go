package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Replay is a recorded failing run.
type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Profile   string    `json:"profile"`
	Seed      uint64    `json:"seed"`
	Run       int       `json:"run"`
	Original  int       `json:"original_operations"`
	Config    Config    `json:"config"`
	Ops       []*Op     `json:"ops"`
	Readable  []string  `json:"readable"`
}

// --- watchdog

const (
	hangAfter = 25 * time.Second  // of processor time
	deadAfter = 180 * time.Second // without using any
	heapLimit = 3 << 30
)

var (
	beatNo  atomic.Int64
	beatOp  atomic.Pointer[Op]
	watchMu sync.Mutex
	watched func() (Config, []*Op)
	onStuck func(v *Violation, cfg Config, ops []*Op)
)

func beat(op *Op) {
	beatOp.Store(op)
	beatNo.Add(1)
}

func watch(f func() (Config, []*Op)) {
	watchMu.Lock()
	watched = f
	watchMu.Unlock()
}

// cpuTime is the processor time of this process: on a busy machine, an operation
// may wait long without doing anything wrong.
func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func watchdog() {
	last, since, cpu := int64(-1), time.Now(), cpuTime()
	for {
		time.Sleep(500 * time.Millisecond)
		n := beatNo.Load()
		if n != last {
			last, since, cpu = n, time.Now(), cpuTime()
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		why := ""
		if used := cpuTime() - cpu; used > hangAfter {
			why = fmt.Sprintf("an operation did not return within %v", hangAfter)
		} else if time.Since(since) > deadAfter && used < 2*time.Second {
			why = "an operation does not return and does nothing"
		} else if ms.HeapAlloc > heapLimit {
			why = "an operation uses more than 3 GB of memory"
		}
		op := beatOp.Load()
		if why == "" || op == nil || onStuck == nil {
			continue
		}
		ps := []string{"C16", "C17"}
		if op.Kind[0] == 'g' {
			ps = append(ps, "C12", "C15")
		} else {
			ps = append(ps, "C01", "C05")
		}
		watchMu.Lock()
		cfg, ops := watched()
		onStuck(&Violation{Props: ps, Oracle: "hang", Detail: fmt.Sprintf("%s: %s", op.Kind, why), OpID: op.ID}, cfg, ops)
	}
}

func quietLogs() {
	debug.SetMaxStack(256 << 20)
	flag.CommandLine.Init("sim", flag.ContinueOnError)
	flag.Set("logtostderr", "true")
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	return filepath.Dir(filepath.Dir(exe))
}

// --- worker

type workerResult struct {
	Stats      *Stats         `json:"stats"`
	Replay     string         `json:"replay,omitempty"`
	Violation  *Violation     `json:"violation,omitempty"`
	Other      map[string]int `json:"other"`
	Known      map[string]int `json:"known"`
	Samples    []string       `json:"samples"`
	Incomplete bool           `json:"incomplete"`
	Internal   string         `json:"internal,omitempty"`
}

func runSeed(seed uint64, prop string, i int) uint64 { return sub(seed, strHash(prop), uint64(i)) }

func worker(prop string, seed uint64, from, total, stride int, limit time.Duration, out string, verbose bool) {
	quietLogs()
	res := &workerResult{Stats: newStats(), Other: map[string]int{}, Known: map[string]int{}}
	start := time.Now()
	known := loadKnown(prop)
	write := func() {
		writeSet(out+".states", res.Stats.states)
		writeSet(out+".traces", res.Stats.traces)
		b, _ := json.Marshal(res)
		os.WriteFile(out, b, 0o644)
	}
	save := func(v *Violation, cfg Config, ops []*Op, orig int, p *Profile, i int) {
		rp := &Replay{Property: prop, Violation: *v, Profile: p.name, Seed: seed, Run: i, Original: orig, Config: cfg, Ops: ops}
		for _, o := range ops {
			rp.Readable = append(rp.Readable, o.String())
		}
		b, _ := json.MarshalIndent(rp, "", " ")
		path := out + ".replay"
		os.WriteFile(path, b, 0o644)
		res.Replay, res.Violation = path, v
	}
	var curP *Profile
	curI := 0
	var curOps func() (Config, []*Op)
	onStuck = func(v *Violation, cfg Config, ops []*Op) {
		cfg, ops = curOps()
		op := beatOp.Load()
		if len(ops) == 0 || ops[len(ops)-1].ID != op.ID {
			ops = append(ops, op)
		}
		if !v.has(prop) {
			res.Other["hang"]++
		} else {
			save(v, cfg, ops, len(ops), curP, curI)
		}
		res.Incomplete = true
		write()
		os.Exit(0)
	}
	go watchdog()
	// trouble of the simulator ends its run only; without a violation elsewhere the check gives no verdict.
	trouble := func(r any) {
		if res.Internal != "" {
			return
		}
		if ie, ok := r.(internalError); ok {
			res.Internal = fmt.Sprintf("run %d: %s", curI, ie.msg)
		} else {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			res.Internal = fmt.Sprintf("run %d: %v\n%s", curI, r, buf)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			trouble(r)
			write()
			os.Exit(0)
		}
	}()
	var jr *journal
	if f, err := os.Create(out + ".journal"); err == nil {
		jr = &journal{f}
	}
	for i := from; i < total; i += stride {
		if time.Since(start) > limit {
			res.Incomplete = true
			break
		}
		p := profileFor(prop, i)
		curP, curI = p, i
		var g *Gen
		func() {
			defer func() {
				if r := recover(); r != nil {
					trouble(r)
					g = nil
				}
			}()
			g = newGen(runSeed(seed, prop, i), p, res.Stats)
		}()
		if g == nil {
			continue
		}
		curOps = func() (Config, []*Op) { return g.s.cfg, g.ops }
		watch(curOps)
		g.journal = jr
		jr.start(i, p, g.s.cfg)
		var log []string
		if verbose {
			g.s.log = func(x string) { fmt.Println(x) }
			g.verbose = true
			fmt.Printf("run %d profile %s seed %x\n", i, p.name, runSeed(seed, prop, i))
		}
		var v *Violation
		func() {
			defer func() {
				if r := recover(); r != nil {
					trouble(r)
				}
			}()
			v = g.run()
		}()
		res.Stats.Runs++
		res.Stats.Profiles[p.name]++
		res.Stats.traces[g.s.trace] = true
		if os.Getenv("SIM_TRACE") != "" {
			fmt.Printf("%s %d %016x %d %v\n", prop, i, g.s.full, len(g.ops), v)
		}
		if len(res.Samples) < 2 {
			for _, o := range g.ops {
				log = append(log, o.String())
				if len(log) >= 25 {
					break
				}
			}
			res.Samples = append(res.Samples, fmt.Sprintf("run %d, profile %s, %d operations, trace hash %016x: %s", i, p.name, len(g.ops), g.s.trace, strings.Join(log, "; ")))
		}
		if v == nil {
			continue
		}
		if k := known.match(v); k != "" {
			res.Known[k]++
			continue
		}
		if os.Getenv("SIM_ANY") != "" && !v.has(prop) {
			v.Props = append(v.Props, prop)
		}
		if !v.has(prop) {
			res.Other[v.Oracle+" "+strings.Join(v.Props, ",")]++
			if verbose {
				fmt.Printf("other: %+v\n", v)
			}
			continue
		}
		st := res.Stats
		n := len(g.ops)
		ops := minimize(g.s.cfg, g.ops, v, prop, 45*time.Second)
		curOps = func() (Config, []*Op) { return g.s.cfg, ops }
		v2 := v
		func() {
			defer func() { recover() }()
			if x := replayOps(g.s.cfg, cloneOps(ops), newStats(), nil); x != nil {
				v2 = x
			}
		}()
		res.Stats = st
		save(v2, g.s.cfg, ops, n, p, i)
		break
	}
	write()
}

func writeSet(path string, set map[uint64]bool) {
	b := make([]byte, 0, 8*len(set))
	for k := range set {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	os.WriteFile(path, b, 0o644)
}

func readSet(path string, set map[uint64]bool) {
	b, _ := os.ReadFile(path)
	for ; len(b) >= 8; b = b[8:] {
		set[binary.LittleEndian.Uint64(b)] = true
	}
}

// --- known findings

type knownList []struct{ oracle, sub, text string }

// loadKnown reads lines "known: property=<id> oracle=<o> match=<text>" of KNOWN_FINDINGS.
func loadKnown(prop string) knownList {
	var out knownList
	f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		var o, mt string
		if i := strings.Index(l, " oracle="); i >= 0 {
			o = strings.Fields(l[i+8:])[0]
		}
		if i := strings.Index(l, " match="); i >= 0 {
			mt = l[i+7:]
		}
		if o != "" && mt != "" {
			out = append(out, struct{ oracle, sub, text string }{o, mt, mt})
		}
	}
	return out
}

func (k knownList) match(v *Violation) string {
	for _, e := range k {
		if e.oracle == v.Oracle && strings.Contains(v.Detail, e.sub) {
			return e.text
		}
	}
	return ""
}

// --- parent

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: sim check|worker|replay|one ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker", "one":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		seed := fs.Uint64("seed", 1, "")
		from := fs.Int("from", 0, "")
		total := fs.Int("total", 1, "")
		stride := fs.Int("stride", 1, "")
		limit := fs.Duration("limit", time.Hour, "")
		out := fs.String("out", "", "")
		fs.Parse(os.Args[2:])
		if os.Args[1] == "one" {
			*out = filepath.Join(os.TempDir(), fmt.Sprintf("sim-one-%d", os.Getpid()))
			defer func() {
				b, _ := os.ReadFile(*out)
				var r workerResult
				json.Unmarshal(b, &r)
				fmt.Printf("other=%v internal=%s violation=%+v\n", r.Other, r.Internal, r.Violation)
				for _, x := range []string{"", ".states", ".traces", ".replay"} {
					os.Remove(*out + x)
				}
			}()
		}
		worker(*prop, *seed, *from, *total, *stride, *limit, *out, os.Args[1] == "one")
	case "replay":
		quietLogs()
		os.Exit(replayFile(os.Args[2], len(os.Args) > 3, len(os.Args) > 4))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func replayFile(path string, quiet, inner bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	if rp.Violation.Oracle == "death" && !inner {
		exe, _ := os.Executable()
		c := exec.Command(exe, "replay", path, "quiet", "inner")
		o, _ := c.CombinedOutput()
		if why := fatal(o); why != "" {
			fmt.Printf("death: the process died: %s\nVIOLATION property=%s replay=%s\n", why, rp.Property, path)
			return 1
		}
		fmt.Println("no violation")
		return 0
	}
	onStuck = func(v *Violation, cfg Config, ops []*Op) {
		if v.has(rp.Property) {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Oracle, v.Detail, rp.Property, path)
			os.Exit(1)
		}
		os.Exit(2)
	}
	go watchdog()
	log := func(x string) { fmt.Println(x) }
	if quiet {
		log = nil
	}
	v := replayOps(rp.Config, rp.Ops, newStats(), log)
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s at step %d: %s\n", v.Oracle, v.OpID, v.Detail)
	if v.has(rp.Property) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
		return 1
	}
	return 0
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	runs := fs.Int("runs", 0, "")
	jobs := fs.Int("jobs", 8, "")
	cap := fs.Duration("cap", 0, "")
	fs.Parse(args)
	if profiles[*prop] == nil {
		fmt.Println("unknown property", *prop)
		return 2
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if x, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = uint64(x)
	}
	total := *runs
	if total == 0 {
		total = runCount(*prop, *tier)
	}
	limit := 240 * time.Second
	if *tier == "thorough" {
		limit = 700 * time.Second
	}
	if *cap > 0 {
		limit = *cap
	}
	start := time.Now()
	dir := verifDir()
	tmp, err := os.MkdirTemp(filepath.Join(dir, ".build"), "run-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()
	type job struct {
		cmd  *exec.Cmd
		out  string
		err  error
		done bool
	}
	js := make([]*job, *jobs)
	ch := make(chan int)
	for k := range js {
		j := &job{out: filepath.Join(tmp, fmt.Sprint("w", k))}
		js[k] = j
		j.cmd = exec.Command(exe, "worker", "-prop", *prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-total", fmt.Sprint(total),
			"-stride", fmt.Sprint(*jobs), "-limit", limit.String(), "-out", j.out)
		j.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "VERIF_DIR="+dir)
		errf, _ := os.Create(j.out + ".err")
		j.cmd.Stderr = errf
		if err := j.cmd.Start(); err != nil {
			fmt.Println(err)
			return 2
		}
		go func(k int) { js[k].err = js[k].cmd.Wait(); ch <- k }(k)
	}
	st := newStats()
	other, known := map[string]int{}, map[string]int{}
	var samples []string
	var viol *workerResult
	var trouble []string
	incomplete := false
	for n := 0; n < len(js); n++ {
		k := <-ch
		j := js[k]
		j.done = true
		var r workerResult
		b, err := os.ReadFile(j.out)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			if viol != nil {
				continue // stopped below
			}
			e, _ := os.ReadFile(j.out + ".err")
			if why := fatal(e); why != "" {
				if w := died(exe, dir, *prop, j.out, seed, why); w != nil {
					viol = w
					for _, o := range js {
						if !o.done {
							o.cmd.Process.Kill()
						}
					}
					continue
				}
			}
			if len(e) > 3000 {
				e = e[:3000]
			}
			trouble = append(trouble, fmt.Sprintf("worker %d: %v %v\n%s", k, j.err, err, e))
			continue
		}
		if r.Internal != "" {
			trouble = append(trouble, r.Internal)
		}
		merge(st, r.Stats)
		readSet(j.out+".states", st.states)
		readSet(j.out+".traces", st.traces)
		for x, c := range r.Other {
			other[x] += c
		}
		for x, c := range r.Known {
			known[x] += c
		}
		incomplete = incomplete || r.Incomplete
		if len(samples) < 4 {
			samples = append(samples, r.Samples...)
		}
		if r.Violation != nil && viol == nil {
			rr := r
			viol = &rr
			for _, o := range js {
				if !o.done {
					o.cmd.Process.Kill()
				}
			}
		}
	}
	if viol != nil && viol.Violation.Oracle == "hang" && !again(exe, dir, *prop, viol.Replay) && !again(exe, dir, *prop, viol.Replay) {
		// The machine was slow, not the code.
		viol, incomplete = nil, true
	}
	wall := time.Since(start).Seconds()
	code := 0
	if viol == nil && len(trouble) > 0 {
		fmt.Printf("simulator trouble: %s\n", trouble[0])
		code = 2
	}
	var kn []string
	for x := range known {
		kn = append(kn, x)
	}
	sort.Strings(kn)
	for _, x := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, x)
	}
	if viol != nil {
		code = 1
		rd := filepath.Join(dir, "replays")
		os.MkdirAll(rd, 0o755)
		dst := filepath.Join(rd, fmt.Sprintf("%s-%d.json", *prop, seed))
		b, _ := os.ReadFile(viol.Replay)
		os.WriteFile(dst, b, 0o644)
		var rp Replay
		json.Unmarshal(b, &rp)
		fmt.Printf("%s (run %d, profile %s, minimised from %d to %d operations): %s\n", viol.Violation.Oracle, rp.Run, rp.Profile, rp.Original, len(rp.Ops), viol.Violation.Detail)
		for _, l := range rp.Readable {
			fmt.Println("   ", l)
		}
		if viol.Violation.Oracle == "hang" || again(exe, dir, *prop, dst) { // hangs have just been confirmed
			fmt.Println("the replay file reproduces it in a fresh process")
		} else {
			fmt.Println("the replay file did not reproduce it in a fresh process (the code under test is not deterministic)")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, dst)
	}
	evidence(*prop, *tier, seed, total, st, other, samples, wall, incomplete, viol, dir)
	fmt.Printf("%s %s: %d runs, %d steps, %d distinct situations, %d distinct runs, %d faults, %d crashes, %.1f s", *prop, *tier, st.Runs, st.Steps, len(st.states), len(st.traces), sum(st.Faults), st.Crashes, wall)
	if len(other) > 0 {
		fmt.Printf(", runs ended by violations of other properties: %v", other)
	}
	if incomplete {
		fmt.Printf(" (time limit reached before all runs)")
	}
	fmt.Println()
	return code
}

// again says whether a replay file fails in a fresh process, too.
func again(exe, dir, prop, path string) bool {
	c := exec.Command(exe, "replay", path, "quiet")
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "VERIF_DIR="+dir)
	o, _ := c.CombinedOutput()
	return strings.Contains(string(o), "VIOLATION property="+prop)
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func merge(a, b *Stats) {
	a.Runs += b.Runs
	a.Calls += b.Calls
	a.Crashes += b.Crashes
	a.Steps += b.Steps
	a.Real += b.Real
	a.RefOps += b.RefOps
	for _, x := range []struct{ d, s map[string]int }{{a.Ops, b.Ops}, {a.Outcomes, b.Outcomes}, {a.Faults, b.Faults}, {a.Probes, b.Probes}, {a.Profiles, b.Profiles}, {a.Stores, b.Stores}} {
		for k, v := range x.s {
			x.d[k] += v
		}
	}
}

func evidence(prop, tier string, seed uint64, total int, st *Stats, other map[string]int, samples []string, wall float64, incomplete bool, viol *workerResult, dir string) {
	nv := 0
	if viol != nil {
		nv = 1
	}
	if len(samples) == 0 {
		samples = []string{"(the first run already failed)"}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nv,
		"coverage": map[string]any{
			"evaluations":                  st.Runs,
			"distinct_nontrivial":          len(st.traces),
			"rule":                         "One evaluation is one simulated run: a configuration, operations, deliveries, forgeries and faults all drawn from one seed. Two runs are distinct if their sequences of (operation, outcome, condensed state of the conversation) differ; runs always carry out at least one operation of the real code.",
			"samples":                      samples,
			"planned_runs":                 total,
			"time_limit_reached":           incomplete,
			"runs_per_hour":                int(float64(st.Runs) / wall * 3600),
			"simulated_steps":              st.Steps,
			"simulated_steps_note":         "simulated time is counted in steps: the library has no clocks or timers",
			"distinct_situations":          len(st.states),
			"distinct_situations_measure":  "hash of operation, outcome and condensed model state (chains, counters, skipped keys, archived sessions in buckets; trust state)",
			"store_and_randomness_calls":   st.Calls,
			"faults_injected":              st.Faults,
			"crashes":                      st.Crashes,
			"operations":                   st.Ops,
			"outcomes":                     st.Outcomes,
			"situations_reached":           st.Probes,
			"profiles":                     st.Profiles,
			"storage":                      st.Stores,
			"operations_on_real_code":      st.Real,
			"operations_on_reference_peer": st.RefOps,
			"components": map[string]string{
				"sessions, ratchets, groups, messages, curve, pre-keys, identities, in-memory stores": "real code from /repo",
				"network":    "simulated: the scheduler decides loss, duplication, delay, order, corruption",
				"storage":    "real in-memory stores, or simulated deep-copying or serializing stores, behind fault-injecting wrappers",
				"randomness": "simulated: seeded, with failures",
				"peers":      "real code, or an independent reference implementation",
			},
			"runs_ended_by_violations_of_other_properties": other,
		},
		"assumptions": []string{
			"Completed store calls are durable and a store holds what was stored (a record is written atomically).",
			"Operations on one conversation are not run concurrently; operations on different conversations interleave at store and randomness calls.",
			"crypto/sha256, sha512, hmac, aes, x/crypto/curve25519, hkdf and edwards25519 are correct; hash outputs and keys do not collide.",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

// quickRuns is the number of runs of the quick tier, about half a minute each on
// eight cores; the thorough tier makes 25 times as many, within its time limit.
var quickRuns = map[string]int{
	"C01": 1700, "C02": 1500, "C03": 3000, "C04": 2000, "C05": 1500, "C06": 2200, "C07": 1500,
	"C08": 1200, "C09": 3500, "C10": 1600, "C11": 750, "C12": 3500, "C13": 4000, "C14": 3600,
	"C15": 3600, "C16": 2200, "C17": 1900, "C18": 3000, "C19": 3600, "C20": 3500, "C21": 4000, "C23": 3000,
	"C24": 1300, "C25": 1200, "C26": 2200, "C27": 3000,
}

func runCount(prop, tier string) int {
	n := quickRuns[prop]
	if n == 0 {
		n = 800
	}
	if tier == "thorough" {
		n *= 25
	}
	return n
}
