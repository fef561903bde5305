package fsop

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/sim/simfs"
)

// Event is one call of a concurrent history with its real-time interval.
type Event struct {
	Task     int
	Op       Op
	Res      Result
	Inv, Ret int64
	Pending  bool // no result observed: it may or may not have happened
}

func (e Event) String() string {
	return fmt.Sprintf("t%d %s -> %s  [%d,%d]", e.Task, e.Op, e.Res, e.Inv, e.Ret)
}

// Accept decides whether an observed outcome is what the model gave.
type Accept func(op Op, got, want Result) bool

// SameOutcome is strict equality of class and value.
func SameOutcome(op Op, got, want Result) bool { return got.Class == want.Class && got.Val == want.Val }

// Linearize searches for a one-at-a-time order of the history, consistent with
// its timing, in which the reference model gives every observed result. It
// returns nil if there is one, and otherwise an explanation. Every state the
// search visits at the end is passed to final, which must accept one.
func Linearize(init *simfs.Disk, hist []Event, acc Accept, final func(d *simfs.Disk) bool) error {
	return LinearizeFrom(NewModelState(init.Clone()), hist, acc, final)
}

// LinearizeFrom is Linearize from a state with handles already open.
func LinearizeFrom(init *ModelState, hist []Event, acc Accept, final func(d *simfs.Disk) bool) error {
	return LinearizeRefusing(init, hist, acc, nil, final)
}

// LinearizeRefusing also accepts, as an operation without effect, an outcome
// refuse allows in the state it would take place in.
func LinearizeRefusing(init *ModelState, hist []Event, acc Accept, refuse func(st *ModelState, e Event) bool, final func(d *simfs.Disk) bool) error {
	n := len(hist)
	if n > 60 {
		return fmt.Errorf("history too long (%d)", n)
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(i, j int) bool { return hist[order[i]].Inv < hist[order[j]].Inv })
	seen := map[string]bool{}
	budget := 60000
	Undecided = false
	best := 0
	var bestWhy string
	var dfs func(done uint64, st *ModelState) bool
	times := false // does anything look at times
	for _, e := range hist {
		times = times || e.Op.Kind == "mtime"
	}
	dfs = func(done uint64, st *ModelState) bool {
		rest := 0
		minRet := int64(1 << 62)
		for _, i := range order {
			if done&(1<<i) == 0 {
				if !hist[i].Pending {
					rest++
					if hist[i].Ret < minRet {
						minRet = hist[i].Ret
					}
				}
			}
		}
		if rest == 0 && (final == nil || final(st.Disk)) {
			return true
		}
		if rest == 0 {
			best, bestWhy = n, "all results fit, but not the final state; last model state:\n"+st.Disk.Dump(simfs.DumpOpt{Perm: true})
		}
		budget--
		if budget <= 0 {
			Undecided = true
			return true // undecided: never an alarm
		}
		key := fmt.Sprintf("%x|%s", done, st.Key(times))
		if seen[key] {
			return false
		}
		seen[key] = true
		for _, i := range order {
			if done&(1<<i) != 0 || hist[i].Inv > minRet {
				continue
			}
			nst := st.Clone()
			if refuse != nil && !hist[i].Pending && refuse(st, hist[i]) {
				if dfs(done|1<<i, nst) {
					return true
				}
				nst = st.Clone()
			}
			want := nst.Do(hist[i].Op)
			if !hist[i].Pending && !acc(hist[i].Op, hist[i].Res, want) {
				if k := n - rest; k >= best {
					best = k
					bestWhy = fmt.Sprintf("%s: one-at-a-time execution would give %s", hist[i], want)
				}
				continue
			}
			if dfs(done|1<<i, nst) {
				return true
			}
		}
		return false
	}
	if dfs(0, init) {
		return nil
	}
	var b strings.Builder
	for _, i := range order {
		fmt.Fprintf(&b, "  %s\n", hist[i])
	}
	return fmt.Errorf("no one-at-a-time order explains the results; deepest mismatch: %s\n%s", bestWhy, b.String())
}

// Undecided says whether the last search gave up.
var Undecided bool

// ModelState is the reference file system plus its open handles.
type ModelState struct {
	Disk *simfs.Disk
	H    map[int]*simfs.File
	// Custom runs operations only the scenario knows.
	Custom func(d *simfs.Disk, op Op) (string, error)
}

// NewModelState wraps a model disk.
func NewModelState(d *simfs.Disk) *ModelState {
	d.Yields = false
	return &ModelState{Disk: d, H: map[int]*simfs.File{}}
}

// Clone copies state and handles.
func (m *ModelState) Clone() *ModelState {
	d, h := m.Disk.CloneWith(m.H)
	return &ModelState{Disk: d, H: h, Custom: m.Custom}
}

// Key is the state's identity.
func (m *ModelState) Key(times bool) string {
	var b strings.Builder
	b.WriteString(m.Disk.Dump(simfs.DumpOpt{Perm: true, Links: true, Mtime: times}))
	b.WriteString(m.Disk.Views())
	var ks []int
	for k := range m.H {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "h%d %s\n", k, m.H[k].State())
	}
	return b.String()
}

// Do executes op on the model.
func (m *ModelState) Do(op Op) Result {
	w := NewWorld(m.Disk)
	if m.Custom != nil {
		w.Custom = func(f FS, op Op) (string, error) { return m.Custom(f.(*simfs.Disk), op) }
	}
	for k, v := range m.H {
		w.H[k] = v
	}
	if op.View > 0 {
		w.Views = make([]FS, op.View+1)
		w.Views[op.View] = m.Disk.View(op.View)
	}
	r := w.Do(op)
	for k, v := range w.H {
		m.H[k] = v.(*simfs.File)
	}
	return r
}
