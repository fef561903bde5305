package main

import (
	"fmt"
	"runtime/debug"
	"time"

	"verif.local/sim/scen"
	"verif.local/sim/vsim"
)

type result struct {
	viol     *vsim.Violation
	harness  error
	tape     vsim.Tape
	sched    uint64
	log      uint64
	steps    int64
	switches int64
	simTime  time.Duration
	faults   map[string]int
	probes   map[string]int
	events   int64
	lines    []string
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func seedOf(base, index uint64) uint64 { return mix(mix(base) ^ index*0x9e3779b97f4a7c15) }

// runOne executes one simulated run: from its seed, or from a recorded tape.
func runOne(sc *scen.Scenario, seed uint64, tape vsim.Tape, trace bool) *result {
	s := vsim.New(seed, tape)
	s.Trace = trace
	func() {
		defer func() {
			if r := recover(); r != nil {
				// outside any task: harness code, or code under test called from it
				s.OutsidePanic(r, string(debug.Stack()))
			}
		}()
		s.Enter()
		defer s.Leave()
		sc.Run(s)
		if !s.Failed() && s.Stuck != "" {
			s.Fail("no-progress", "%s", s.Stuck)
		}
	}()
	s.Enter()
	s.Reap()
	s.Leave()
	scen.EndRun()
	return &result{viol: s.Viol, harness: s.Harness, tape: s.Tape(), sched: s.SchedHash(), log: s.LogHash(),
		steps: s.Steps, switches: s.Switches, simTime: s.SimTime(), faults: s.Faults, probes: s.Probes, events: s.Events, lines: s.Log}
}

// sameRun compares the event logs of two executions.
func sameRun(a, b *result) error {
	if a.log != b.log || a.sched != b.sched || a.steps != b.steps {
		return fmt.Errorf("log %x/%x schedule %x/%x steps %d/%d", a.log, b.log, a.sched, b.sched, a.steps, b.steps)
	}
	return nil
}
