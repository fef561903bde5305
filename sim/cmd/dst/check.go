package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/scen"
	"verif.local/sim/vsim"
)

// replayFile is everything needed to reproduce a violation exactly.
type replayFile struct {
	Property string    `json:"property"`
	Scenario string    `json:"scenario"`
	Seed     uint64    `json:"seed"`
	Class    string    `json:"class"`
	Msg      string    `json:"message"`
	LogHash  string    `json:"log_hash"`
	Tape     vsim.Tape `json:"tape"`
	Original int       `json:"decisions_before_minimisation"`
	Length   int       `json:"decisions"`
	Faults   any       `json:"faults"`
	Trace    []string  `json:"trace"`
	How      string    `json:"how_to_replay"`
	Died     bool      `json:"process_died,omitempty"`
}

type knownFinding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func readKnown(path string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(line), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func loadKnown(path, prop string) map[string]bool {
	m := map[string]bool{}
	for _, k := range readKnown(path) {
		if k.Status == "known" && k.Property == prop && k.Sig != "" {
			m[k.Sig] = true
		}
	}
	return m
}

func cmdList() {
	for _, p := range scen.All() {
		c := scen.Lookup(p)
		fmt.Println(p, c.Quick, c.Thorough)
		for _, x := range c.Parts {
			fmt.Println("   ", x.Scenario.Name, x.Weight)
		}
	}
}

func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	index := fs.Uint64("index", 0, "")
	min := fs.Bool("min", false, "minimise")
	_ = fs.Parse(args)
	c := scen.Lookup(*prop)
	sc := c.Pick(*index)
	seed := seedOf(*base, *index)
	r := runOne(sc, seed, nil, true)
	if *min && r.viol != nil {
		t, _ := shrink(sc, seed, r.tape, r.viol.Class, 60*time.Second)
		r = runOne(sc, seed, t, true)
	}
	for _, l := range r.lines {
		fmt.Println(l)
	}
	fmt.Println("scenario", sc.Name, "steps", r.steps, "switches", r.switches, "faults", r.faults, "probes", r.probes)
	if r.harness != nil {
		fmt.Println("HARNESS", r.harness)
	}
	if r.viol != nil {
		fmt.Println("VIOLATION", r.viol.Class, r.viol.Msg, "sig="+r.viol.Sig)
	}
}

func cmdReplay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c := scen.Lookup(rf.Property)
	if c == nil || c.ByName(rf.Scenario) == nil {
		fmt.Fprintln(os.Stderr, "unknown property or scenario")
		os.Exit(2)
	}
	sc := c.ByName(rf.Scenario)
	var tape vsim.Tape
	if !rf.Died {
		tape = rf.Tape
		if tape == nil {
			tape = vsim.Tape{}
		}
	}
	r := runOne(sc, rf.Seed, tape, true)
	for _, l := range r.lines {
		fmt.Println(l)
	}
	if r.harness != nil {
		fmt.Println("HARNESS", r.harness)
		os.Exit(2)
	}
	if r.viol == nil {
		fmt.Println("the recorded violation does not occur on this tree")
		os.Exit(0)
	}
	same := fmt.Sprintf("%016x", r.log) == rf.LogHash
	fmt.Printf("%s: %s\nidentical to the recorded execution: %v\n", r.viol.Class, r.viol.Msg, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	os.Exit(1)
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	runs := fs.Int("runs", 0, "override the number of runs")
	maxSec := fs.Int("max", 0, "override the time cap in seconds")
	nw := fs.Int("workers", 0, "")
	noEvidence := fs.Bool("noevidence", false, "")
	_ = fs.Parse(args)
	start := time.Now()
	c := scen.Lookup(*prop)
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check for property", *prop)
		os.Exit(2)
	}
	n, capSec := c.Quick, 240
	if *tier == "thorough" {
		n, capSec = c.Thorough, 720
		if n == 0 {
			n = 20 * c.Quick
		}
	}
	if *runs > 0 {
		n = *runs
	}
	if *maxSec > 0 {
		capSec = *maxSec
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if *nw > 0 {
		workers = *nw
	}
	knownPath := filepath.Join(*verif, "known_findings.jsonl")
	tmp, err := os.MkdirTemp("/dev/shm", "dst-"+*prop+"-")
	if err != nil {
		tmp, err = os.MkdirTemp("", "dst-"+*prop+"-")
	}
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	exit := func(code int) {
		os.RemoveAll(tmp)
		os.Exit(code)
	}
	_ = os.Setenv("TMPDIR", tmp)
	self, _ := os.Executable()
	type wres struct {
		out  *workerOut
		err  error
		idx  uint64
		text string
	}
	res := make([]wres, workers)
	cmds := make([]*exec.Cmd, workers)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := range workers {
		cnt := n / workers
		if i < n%workers {
			cnt++
		}
		out := filepath.Join(tmp, fmt.Sprintf("w%d", i))
		cmd := exec.Command(self, "worker", "-prop", *prop, "-base", strconv.FormatUint(*seed, 10),
			"-from", strconv.Itoa(i), "-stride", strconv.Itoa(workers), "-n", strconv.Itoa(cnt), "-out", out,
			"-known", knownPath, "-deadline", strconv.Itoa(capSec))
		_ = os.Mkdir(out+".tmp", 0o755)
		cmd.Env = append(os.Environ(), "TMPDIR="+out+".tmp", "GOMAXPROCS=2", "GOTRACEBACK=single")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		cmds[i] = cmd
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			r := wres{err: err, text: eb.String()}
			if b, e := os.ReadFile(out); e == nil {
				r.out = &workerOut{}
				_ = json.Unmarshal(b, r.out)
			}
			if b, e := os.ReadFile(out + ".progress"); e == nil && len(b) >= 8 {
				r.idx = binary.LittleEndian.Uint64(b)
			}
			mu.Lock()
			res[i] = r
			mu.Unlock()
			// A violation settles the check: the others need not go on.
			if r.out != nil && (r.out.Viol != nil || r.out.Harness != "") {
				time.Sleep(500 * time.Millisecond)
				for _, o := range cmds {
					if o != nil && o.Process != nil && o != cmd {
						_ = o.Process.Signal(os.Interrupt)
					}
				}
			}
		}()
	}
	wg.Wait()

	tot := &workerOut{Faults: map[string]int{}, Probes: map[string]int{}, PerScen: map[string]*scenStat{}, Known: map[string]int{}}
	var viol *violRec
	var died *violRec
	var diedText string
	distinct := map[uint64]struct{}{}
	finished := 0
	for i, r := range res {
		if r.out == nil || !r.out.Done {
			if r.err != nil && !strings.Contains(r.err.Error(), "interrupt") {
				idx := r.idx
				died = &violRec{Scenario: c.Pick(idx).Name, Seed: seedOf(*seed, idx), Index: idx, Class: "process-died", Msg: firstLines(r.text, 6)}
				diedText = r.text
			}
			continue
		}
		finished++
		o := r.out
		tot.Runs += o.Runs
		tot.Steps += o.Steps
		tot.Switches += o.Switches
		tot.Events += o.Events
		tot.SimNS += o.SimNS
		tot.NonTrivial += o.NonTrivial
		tot.Twice += o.Twice
		for k, v := range o.Faults {
			tot.Faults[k] += v
		}
		for k, v := range o.Probes {
			tot.Probes[k] += v
		}
		for k, v := range o.Known {
			tot.Known[k] += v
		}
		for k, v := range o.PerScen {
			if tot.PerScen[k] == nil {
				tot.PerScen[k] = &scenStat{}
			}
			tot.PerScen[k].Runs += v.Runs
			tot.PerScen[k].Steps += v.Steps
		}
		if o.Harness != "" {
			tot.Harness = o.Harness
		}
		if o.TwiceBad != "" {
			tot.TwiceBad = o.TwiceBad
		}
		if o.Viol != nil && (viol == nil || o.Viol.Index < viol.Index) {
			viol = o.Viol
		}
		if b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("w%d.hashes", i))); err == nil {
			for len(b) >= 8 {
				distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
	}
	if viol == nil && died != nil {
		// the simulated process died: stack overflow, fatal error, runaway memory
		if strings.Contains(diedText, "hang in run") || strings.Contains(diedText, "signal: killed") {
			fmt.Fprintln(os.Stderr, diedText)
			os.RemoveAll(tmp)
			die("worker did not answer in run %d", died.Index)
		}
		if !strings.Contains(diedText, "ngicks/go-fsys-helper") || strings.Contains(diedText, "concurrent map") {
			fmt.Fprintln(os.Stderr, diedText)
			os.RemoveAll(tmp)
			die("worker died in run %d outside the code under test", died.Index)
		}
		viol = died
	}
	if viol == nil && tot.Harness != "" {
		os.RemoveAll(tmp)
		die("harness: %s", tot.Harness)
	}
	if viol == nil && tot.TwiceBad != "" {
		fmt.Fprintf(os.Stderr, "warning: nondeterminism: %s\n", tot.TwiceBad)
	}

	var replayPath string
	var sampleTrace []string
	if viol != nil {
		sc := c.ByName(viol.Scenario)
		rf := &replayFile{Property: *prop, Scenario: viol.Scenario, Seed: viol.Seed, Class: viol.Class, Msg: viol.Msg}
		if viol.Class == "process-died" {
			rf.Died = true
			rf.Trace = strings.Split(firstLines(diedText, 60), "\n")
		} else {
			r := runOne(sc, viol.Seed, nil, false)
			if r.viol == nil || r.viol.Class != viol.Class {
				fmt.Fprintf(os.Stderr, "warning: run %d did not repeat in the parent process\n", viol.Index)
			}
			rf.Original = r.tape.Len()
			t, tries := shrink(sc, viol.Seed, r.tape, viol.Class, 40*time.Second)
			f := runOne(sc, viol.Seed, t, true)
			if f.viol == nil {
				t = r.tape
				f = runOne(sc, viol.Seed, t, true)
			}
			rf.Tape, rf.Length, rf.Trace, rf.Faults = t, t.Len(), f.lines, f.faults
			rf.LogHash = fmt.Sprintf("%016x", f.log)
			if f.viol != nil {
				rf.Msg = f.viol.Msg
			}
			fmt.Fprintf(os.Stderr, "minimised %d -> %d decisions in %d runs\n", rf.Original, rf.Length, tries)
		}
		dir := filepath.Join(*verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%016x.json", *prop, viol.Seed))
		rf.How = "bash /verif/run.sh replay " + replayPath
		j, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(replayPath, j, 0o644); err != nil {
			os.RemoveAll(tmp)
			die("%v", err)
		}
		fmt.Printf("%s in scenario %s, run %d, seed %d\n%s\n", rf.Class, rf.Scenario, viol.Index, viol.Seed, rf.Msg)
		if len(rf.Trace) > 60 {
			fmt.Println("... (the whole trace is in the replay file)")
			rf.Trace = rf.Trace[len(rf.Trace)-60:]
		}
		for _, l := range rf.Trace {
			fmt.Println("  ", l)
		}
	} else {
		// a sample run for the evidence
		sc := c.Pick(0)
		r := runOne(sc, seedOf(*seed, 0), nil, true)
		sampleTrace = r.lines
		if len(sampleTrace) > 60 {
			sampleTrace = append(sampleTrace[:60:60], fmt.Sprintf("... %d more events", len(r.lines)-60))
		}
	}
	for _, k := range readKnown(knownPath) {
		if k.Status == "known" && k.Property == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (occurred in %d of this check's runs)\n", *prop, k.What, tot.Known[k.Sig])
		}
	}
	wall := time.Since(start).Seconds()
	if !*noEvidence {
		writeEvidence(*verif, *prop, *tier, *seed, c, tot, len(distinct), wall, viol, replayPath, sampleTrace, workers, n)
	}
	fmt.Printf("%s %s: %d simulated runs, %d distinct non-trivial, %d steps, %.1fs\n", *prop, *tier, tot.Runs, len(distinct), tot.Steps, wall)
	if viol != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		exit(1)
	}
	if finished < workers {
		os.RemoveAll(tmp)
		die("only %d of %d workers finished", finished, workers)
	}
	exit(0)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "dst: "+format+"\n", args...)
	os.Exit(2)
}

func writeEvidence(verif, prop, tier string, seed uint64, c *scen.Check, w *workerOut, distinct int, wall float64,
	viol *violRec, replay string, trace []string, workers, planned int) {
	type kv = map[string]any
	round := func(f float64) float64 { return math.Round(f*100) / 100 }
	nf := 0
	for _, v := range w.Faults {
		nf += v
	}
	scens := kv{}
	for _, p := range c.Parts {
		st := w.PerScen[p.Scenario.Name]
		if st == nil {
			st = &scenStat{}
		}
		scens[p.Scenario.Name] = kv{"runs": st.Runs, "steps": st.Steps, "what": p.Scenario.Doc}
	}
	var unreached []string
	for _, p := range scen.ProbesOf(prop) {
		if w.Probes[p] == 0 {
			unreached = append(unreached, p)
		}
	}
	sort.Strings(unreached)
	cov := kv{
		"evaluations":         w.Runs,
		"planned_runs":        planned,
		"distinct_nontrivial": distinct,
		"rule": "One evaluation is one simulated run, generated from VERIF_SEED and the run number: configuration, workload, schedule, faults and crash point are drawn from one seeded source. " +
			"A run is non-trivial if at least one fault, crash or short transfer was injected or at least three task switches happened; runs are distinct if the hash of their whole event log and interleaving (every switch: from which site of which task to which task) differs.",
		"runs_per_hour":               round(float64(w.Runs) / wall * 3600),
		"steps":                       w.Steps,
		"task_switches":               w.Switches,
		"events_logged":               w.Events,
		"simulated_seconds":           round(float64(w.SimNS) / 1e9),
		"faults_injected":             w.Faults,
		"faults_total":                nf,
		"probes_reached":              w.Probes,
		"probes_not_reached":          unreached,
		"scenarios":                   scens,
		"runs_executed_twice_equal":   w.Twice,
		"nondeterminism":              w.TwiceBad,
		"workers":                     workers,
		"components_real":             c.Real,
		"components_stub":             c.Stub,
		"known_findings_seen_in_runs": w.Known,
	}
	if viol != nil {
		cov["samples"] = []any{kv{"violation": viol, "replay": replay}}
	} else {
		cov["samples"] = []any{kv{"run": 0, "seed": seedOf(seed, 0), "scenario": c.Pick(0).Name, "trace": trace}}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := kv{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": round(wall), "violations": nv,
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, prop+".json"), append(j, '\n'), 0o644)
}
