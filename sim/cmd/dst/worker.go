package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif.local/sim/scen"
)

type violRec struct {
	Scenario string `json:"scenario"`
	Seed     uint64 `json:"seed"`
	Index    uint64 `json:"index"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
	Sig      string `json:"sig,omitempty"`
}

type workerOut struct {
	Runs       int                  `json:"runs"`
	Steps      int64                `json:"steps"`
	Switches   int64                `json:"switches"`
	Events     int64                `json:"events"`
	SimNS      int64                `json:"sim_ns"`
	NonTrivial int                  `json:"nontrivial"`
	Faults     map[string]int       `json:"faults"`
	Probes     map[string]int       `json:"probes"`
	PerScen    map[string]*scenStat `json:"per_scenario"`
	Viol       *violRec             `json:"viol,omitempty"`
	Known      map[string]int       `json:"known,omitempty"`
	Harness    string               `json:"harness,omitempty"`
	Twice      int                  `json:"twice"`
	TwiceBad   string               `json:"twice_bad,omitempty"`
	Done       bool                 `json:"done"`
}

type scenStat struct {
	Runs  int   `json:"runs"`
	Steps int64 `json:"steps"`
}

// nonTrivial: at least one fault, crash or legal short transfer was injected,
// or at least two tasks really interleaved.
func nonTrivial(r *result) bool {
	n := 0
	for _, v := range r.faults {
		n += v
	}
	return n > 0 || r.switches > 3
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	n := fs.Int("n", 1, "")
	out := fs.String("out", "", "")
	knownFile := fs.String("known", "", "")
	deadline := fs.Int("deadline", 600, "seconds")
	_ = fs.Parse(args)
	c := scen.Lookup(*prop)
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	known := loadKnown(*knownFile, *prop)
	w := &workerOut{Faults: map[string]int{}, Probes: map[string]int{}, PerScen: map[string]*scenStat{}, Known: map[string]int{}}
	prog, err := os.Create(*out + ".progress")
	if err != nil {
		panic(err)
	}
	hashes, err := os.Create(*out + ".hashes")
	if err != nil {
		panic(err)
	}
	var hbuf []byte
	var cur uint64
	beat := make(chan struct{}, 1)
	go func() {
		last := time.Now()
		t := time.NewTicker(time.Second)
		for {
			select {
			case <-beat:
				last = time.Now()
			case <-t.C:
				if time.Since(last) > 120*time.Second {
					fmt.Fprintln(os.Stderr, "hang in run", cur)
					os.Exit(7)
				}
			}
		}
	}()
	start := time.Now()
	for i := 0; i < *n; i++ {
		if time.Since(start) > time.Duration(*deadline)*time.Second {
			break
		}
		idx := *from + uint64(i)**stride
		cur = idx
		var pb [8]byte
		binary.LittleEndian.PutUint64(pb[:], idx)
		_, _ = prog.WriteAt(pb[:], 0)
		select {
		case beat <- struct{}{}:
		default:
		}
		sc := c.Pick(idx)
		seed := seedOf(*base, idx)
		r := runOne(sc, seed, nil, false)
		w.Runs++
		w.Steps += r.steps
		w.Switches += r.switches
		w.Events += r.events
		w.SimNS += int64(r.simTime)
		for k, v := range r.faults {
			w.Faults[k] += v
		}
		for k, v := range r.probes {
			w.Probes[k] += v
		}
		st := w.PerScen[sc.Name]
		if st == nil {
			st = &scenStat{}
			w.PerScen[sc.Name] = st
		}
		st.Runs++
		st.Steps += r.steps
		if nonTrivial(r) {
			w.NonTrivial++
			hbuf = binary.LittleEndian.AppendUint64(hbuf, r.log)
			if len(hbuf) > 1<<16 {
				_, _ = hashes.Write(hbuf)
				hbuf = hbuf[:0]
			}
		}
		if r.harness != nil {
			w.Harness = fmt.Sprintf("run %d (scenario %s, seed %d): %v", idx, sc.Name, seed, r.harness)
			break
		}
		if r.viol != nil {
			if r.viol.Sig != "" && known[r.viol.Sig] {
				w.Known[r.viol.Sig]++
				continue
			}
			w.Viol = &violRec{Scenario: sc.Name, Seed: seed, Index: idx, Class: r.viol.Class, Msg: r.viol.Msg, Sig: r.viol.Sig}
			break
		}
		// determinism: a sample of the runs is executed again from its seed and
		// from its recorded tape, and must give the same event log
		if i%67 == 3 {
			w.Twice++
			if err := sameRun(r, runOne(sc, seed, nil, false)); err != nil {
				w.TwiceBad = fmt.Sprintf("run %d again from its seed: %v", idx, err)
			}
			if err := sameRun(r, runOne(sc, seed, r.tape.Clone(), false)); err != nil {
				w.TwiceBad = fmt.Sprintf("run %d again from its tape: %v", idx, err)
			}
		}
	}
	_, _ = hashes.Write(hbuf)
	_ = hashes.Close()
	w.Done = true
	j, _ := json.Marshal(w)
	if err := os.WriteFile(*out, j, 0o644); err != nil {
		panic(err)
	}
}
