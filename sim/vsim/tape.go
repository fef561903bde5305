// Package vsim is the deterministic simulator: a seeded scheduler for
// cooperative tasks, the decision tape every nondeterministic choice is drawn
// from, the logical clock, and the run's event log.
//
// Nothing in a simulated run reads a real clock, a global random source or a
// real scheduler decision: one seed (or one recorded tape) is one execution.
package vsim

import (
	"math/rand/v2"
)

// The decision streams. Separating them keeps minimisation effective: dropping
// a preemption does not shift the generated operations.
const (
	SCfg   = "cfg"   // per-run configuration (swarm)
	SOps   = "ops"   // generated workload
	SSched = "sched" // which task runs, when it is preempted
	SFault = "fault" // when a fault fires and which
	SRand  = "rand"  // randomness the code under test asks for
)

var streamNames = []string{SCfg, SOps, SSched, SFault, SRand}

// Tape is the record of every decision of one run. By construction value 0
// means the simplest outcome: no fault, no preemption, the simplest operation.
type Tape map[string][]uint64

// Clone returns a deep copy.
func (t Tape) Clone() Tape {
	out := make(Tape, len(t))
	for k, v := range t {
		out[k] = append([]uint64(nil), v...)
	}
	return out
}

// Len is the total number of recorded decisions.
func (t Tape) Len() int {
	n := 0
	for _, v := range t {
		n += len(v)
	}
	return n
}

type source struct {
	replay  bool
	rngs    map[string]*rand.Rand
	in      Tape
	pos     map[string]int
	out     Tape
	overrun int
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func newSource(seed uint64, tape Tape) *source {
	s := &source{out: Tape{}, pos: map[string]int{}}
	if tape != nil {
		s.replay = true
		s.in = tape
		return s
	}
	s.rngs = map[string]*rand.Rand{}
	for _, n := range streamNames {
		s.rngs[n] = rand.New(rand.NewPCG(mix(seed), strHash(n)^mix(seed+0x9e3779b97f4a7c15)))
	}
	return s
}

// draw returns a value in [0,n); gen produces it in search mode.
func (s *source) draw(stream string, n uint64, gen func(r *rand.Rand) uint64) uint64 {
	var v uint64
	if s.replay {
		in := s.in[stream]
		if p := s.pos[stream]; p < len(in) {
			v = in[p]
			s.pos[stream] = p + 1
		} else {
			s.overrun++
		}
	} else {
		v = gen(s.rngs[stream])
	}
	if n > 0 && v >= n {
		v %= n
	}
	s.out[stream] = append(s.out[stream], v)
	return v
}
