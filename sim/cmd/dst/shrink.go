package main

import (
	"time"

	"verif.local/sim/scen"
	"verif.local/sim/vsim"
)

// shrink minimises a failing tape: stream by stream it truncates, drops chunks,
// zeroes and lowers values, keeping a change only if the same violation class
// still occurs.
func shrink(sc *scen.Scenario, seed uint64, tape vsim.Tape, class string, budget time.Duration) (vsim.Tape, int) {
	end := time.Now().Add(budget)
	tries := 0
	best := tape.Clone()
	fails := func(t vsim.Tape) bool {
		tries++
		r := runOne(sc, seed, t, false)
		return r.harness == nil && r.viol != nil && r.viol.Class == class
	}
	if !fails(best) {
		return tape, tries
	}
	order := []string{vsim.SSched, vsim.SFault, vsim.SOps, vsim.SRand, vsim.SCfg}
	with := func(st string, v []uint64) vsim.Tape {
		t := make(vsim.Tape, len(best))
		for k, x := range best {
			t[k] = x
		}
		t[st] = v
		return t
	}
	trim := func(v []uint64) []uint64 {
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		return v
	}
	for pass := 0; pass < 6 && time.Now().Before(end); pass++ {
		changed := false
		for _, st := range order {
			v := trim(best[st])
			best[st] = v
			// truncate
			for n := len(v) / 2; n > 0 && time.Now().Before(end); n /= 2 {
				for len(best[st]) >= n && time.Now().Before(end) {
					cand := append([]uint64(nil), best[st][:len(best[st])-n]...)
					if !fails(with(st, cand)) {
						break
					}
					best[st] = trim(cand)
					changed = true
				}
			}
			// zero, then delete, chunks
			for n := max(len(best[st])/2, 1); n > 0 && time.Now().Before(end); n /= 2 {
				for i := 0; i < len(best[st]) && time.Now().Before(end); {
					v := best[st]
					j := min(i+n, len(v))
					if st != vsim.SSched || n > 0 {
						cand := append(append([]uint64(nil), v[:i]...), v[j:]...)
						if fails(with(st, cand)) {
							best[st] = cand
							changed = true
							continue
						}
					}
					allZero := true
					for _, x := range v[i:j] {
						if x != 0 {
							allZero = false
						}
					}
					if !allZero {
						cand := append([]uint64(nil), v...)
						for k := i; k < j; k++ {
							cand[k] = 0
						}
						if fails(with(st, cand)) {
							best[st] = cand
							changed = true
						}
					}
					i = j
				}
				if n == 1 {
					break
				}
			}
			// lower single values
			for i := 0; i < len(best[st]) && time.Now().Before(end); i++ {
				for best[st][i] > 1 && time.Now().Before(end) {
					cand := append([]uint64(nil), best[st]...)
					cand[i] /= 2
					if !fails(with(st, cand)) {
						break
					}
					best[st] = cand
					changed = true
				}
			}
			best[st] = trim(best[st])
		}
		if !changed {
			break
		}
	}
	return best, tries
}
