package vsim

import (
	"fmt"
	"iter"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Yield kinds.
const (
	KStmt = iota // between two statements of instrumented code
	KSync        // at a lock, atomic or spawn
	KIO          // at a simulated disk or network operation
	KOp          // between two workload operations
)

// Violation is a property failure found by an oracle.
type Violation struct {
	Class string // stable identity of what failed; shrinking preserves it
	Msg   string
	// Sig identifies the specific failing input or history where the oracle
	// knows it (for known findings).
	Sig string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// Task is one simulated thread.
type Task struct {
	ID      int
	Name    string
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	cond    func() bool
	waiting string
	done    bool
	quiet   int // >0: yields are no-ops
	lastLoc uint32
	Daemon  bool // not required to finish
}

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.done }

// Sim is one simulated run.
type Sim struct {
	chans map[uintptr]*chQueue
	Seed  uint64
	src   *source
	tasks []*Task
	cur   *Task
	last  *Task
	// forced is the task a preemption chose to run next.
	forced *Task

	// scheduling configuration (swarm)
	mode    int
	meanGap float64
	gap     int64
	stmtOn  bool
	siteMod uint64
	siteCls uint64

	Steps    int64 // yield points passed
	Switches int64
	MaxSteps int64
	Stuck    string

	Now  time.Time
	dead bool // crashed: seams stop having effects, yields stop switching

	schedHash uint64
	stateHash uint64
	logHash   uint64
	Trace     bool
	Log       []string
	Viol      *Violation
	Harness   error
	Faults    map[string]int
	Probes    map[string]int
	Events    int64
	// TempFail makes creating a temporary file fail; TempFiles are those made.
	TempFail  func() error
	TempFiles []string
	// Timeline is simulated time that passed
	start time.Time
}

// active is the running simulation of this process; a process runs one at a time.
var active *Sim

// Active returns the running simulation, or nil.
func Active() *Sim { return active }

var runID uint64

// RunID identifies the run in progress within this process.
func RunID() uint64 {
	if active == nil {
		return 0
	}
	return runID
}

// InTask reports whether the caller runs inside a simulated task.
func InTask() bool { return active != nil && active.cur != nil }

// New prepares a run. tape nil means search mode from seed.
func New(seed uint64, tape Tape) *Sim {
	s := &Sim{
		Seed:     seed,
		src:      newSource(seed, tape),
		MaxSteps: 400_000,
		Now:      time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC),
		Faults:   map[string]int{},
		Probes:   map[string]int{},
	}
	s.start = s.Now
	runID++
	s.schedHash, s.stateHash, s.logHash = 1469598103934665603, 7, 11
	return s
}

// SimTime is the simulated time covered so far.
func (s *Sim) SimTime() time.Duration { return s.Now.Sub(s.start) }

// Tape returns the decisions taken so far.
func (s *Sim) Tape() Tape { return s.src.out }

// SchedHash identifies the interleaving: the sequence of (from, where, to).
func (s *Sim) SchedHash() uint64 { return mix(s.schedHash ^ s.stateHash) }

// LogHash identifies the whole event log, for determinism checks.
func (s *Sim) LogHash() uint64 { return mix(s.logHash ^ s.schedHash) }

// Draw returns a value in [0,n) from stream, uniformly in search mode.
func (s *Sim) Draw(stream string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.src.draw(stream, uint64(n), func(r *rand.Rand) uint64 { return r.Uint64N(uint64(n)) }))
}

// DrawF returns gen's value in search mode and the recorded one on replay.
func (s *Sim) DrawF(stream string, n uint64, gen func(r *rand.Rand) uint64) uint64 {
	return s.src.draw(stream, n, gen)
}

// Chance is true with probability p; 0 on the tape is false.
func (s *Sim) Chance(stream string, p float64) bool {
	if p <= 0 {
		return false
	}
	return s.src.draw(stream, 2, func(r *rand.Rand) uint64 {
		if r.Float64() < p {
			return 1
		}
		return 0
	}) == 1
}

// Weighted picks an index by weight; index 0 is the simplest.
func (s *Sim) Weighted(stream string, w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	return int(s.src.draw(stream, uint64(len(w)), func(r *rand.Rand) uint64 {
		k := r.IntN(tot)
		for i, x := range w {
			if k < x {
				return uint64(i)
			}
			k -= x
		}
		return 0
	}))
}

// Logf records an event.
func (s *Sim) Logf(format string, args ...any) {
	s.Events++
	line := fmt.Sprintf(format, args...)
	s.logHash = mix(s.logHash*31 ^ strHash(line))
	if s.Trace {
		who := "-"
		if s.cur != nil {
			who = s.cur.Name
		}
		s.Log = append(s.Log, fmt.Sprintf("[%d %s] %s", s.Steps, who, line))
	}
}

// State folds an observed state into the distinct-state measure.
func (s *Sim) State(x string) { s.stateHash = mix(s.stateHash*131 ^ strHash(x)) }

// Fault counts a fault that actually fired.
func (s *Sim) Fault(kind string) {
	s.Faults[kind]++
	s.Logf("FAULT %s", kind)
}

// Probe counts a rare condition that was reached.
func (s *Sim) Probe(name string) { s.Probes[name]++ }

// Fail records a violation; the first one wins and ends the run.
func (s *Sim) Fail(class, format string, args ...any) {
	if s.Viol == nil {
		s.Viol = &Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
		s.Logf("VIOLATION %s: %s", class, s.Viol.Msg)
	}
}

// FailSig is Fail with the identity of the specific failure.
func (s *Sim) FailSig(sig, class, format string, args ...any) {
	if s.Viol == nil {
		s.Fail(class, format, args...)
		s.Viol.Sig = sig
	}
}

// HarnessFail records a defect of the machinery itself.
func (s *Sim) HarnessFail(format string, args ...any) {
	if s.Harness == nil {
		s.Harness = fmt.Errorf(format, args...)
	}
}

// Failed reports whether the run already has a verdict against it.
func (s *Sim) Failed() bool { return s.Viol != nil || s.Harness != nil }

// Crash marks the world dead: every simulated seam stops having effects and the
// tasks run out as zombies whose results nobody reads.
func (s *Sim) Crash() { s.dead = true }

// Dead reports whether the world crashed.
func (s *Sim) Dead() bool { return s.dead }

// Revive starts a new life after a crash; all tasks must have ended.
func (s *Sim) Revive() { s.dead = false }

// Configure draws the run's scheduling policy.
func (s *Sim) Configure() {
	s.mode = s.Weighted(SCfg, 2, 3, 3, 4)
	switch s.mode {
	case 0: // only blocking points switch
	case 1: // sync and IO points
		s.meanGap = float64([]int{2, 4, 8, 20}[s.Draw(SCfg, 4)])
	case 2: // every statement
		s.meanGap = float64([]int{4, 12, 40, 150}[s.Draw(SCfg, 4)])
		s.stmtOn = true
	case 3: // a random class of program sites, switched at eagerly
		s.siteMod = uint64([]int{5, 17, 53}[s.Draw(SCfg, 3)])
		s.siteCls = uint64(s.Draw(SCfg, int(s.siteMod)))
		s.stmtOn = true
	}
	s.newGap()
}

func (s *Sim) newGap() {
	if s.mode == 1 || s.mode == 2 {
		s.gap = int64(s.src.draw(SSched, 1<<20, func(r *rand.Rand) uint64 {
			return 1 + uint64(r.ExpFloat64()*s.meanGap)
		}))
		if s.gap == 0 {
			s.gap = 1 << 40
		}
	}
}

// Go adds a task. Called from a task, the new task becomes runnable at once.
func (s *Sim) Go(name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name}
	s.tasks = append(s.tasks, t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); ok {
					return
				}
				s.taskPanic(t, r, string(debug.Stack()))
			}
		}()
		fn()
	})
	return t
}

type killed struct{}

// panicOwner is the innermost frame of the panic that belongs to the harness or
// the code under test.
func panicOwner(stack string) string {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.Contains(l, "verif.local/sim/ssync") || strings.Contains(l, "verif.local/sim/satomic") {
			// only raises what the code under test asked for
			continue
		}
		if strings.Contains(l, "verif.local/sim") || strings.Contains(l, "ngicks/go-fsys-helper") {
			return l
		}
	}
	return ""
}

// unusable says a caller tripped over what it was given (a nil result without
// an error, a count beyond the buffer): none of that happens on code that works.
func unusable(r any) bool {
	_, ok := r.(runtime.Error)
	return ok
}

func (s *Sim) taskPanic(t *Task, r any, stack string) {
	own := panicOwner(stack)
	if strings.Contains(own, "verif.local/sim") && !unusable(r) {
		s.HarnessFail("panic in harness task %s: %v\n%s", t.Name, r, stack)
		return
	}
	if s.dead {
		return
	}
	s.Fail("panic", "task %s: code under test panicked: %v at %s", t.Name, r, strings.SplitN(own, "(", 2)[0])
	if s.Trace {
		s.Log = append(s.Log, stack)
	}
}

// OutsidePanic classifies a panic that happened outside any task.
func (s *Sim) OutsidePanic(r any, stack string) {
	own := panicOwner(stack)
	if (strings.Contains(own, "verif.local/sim") || own == "") && !unusable(r) {
		s.HarnessFail("panic outside tasks: %v\n%s", r, stack)
		return
	}
	s.Fail("panic", "code under test panicked: %v at %s", r, strings.SplitN(own, "(", 2)[0])
	if s.Trace {
		s.Log = append(s.Log, stack)
	}
}

// Enter makes s the simulation in progress, so that code called between task
// phases (set-up, recovery, final checks) uses its clock and locks too.
func (s *Sim) Enter() { active = s }

// Leave ends what Enter began.
func (s *Sim) Leave() { active = nil }

// Run drives every task until all non-daemon tasks finish, a verdict is
// reached, nothing can run, or the step budget is spent.
func (s *Sim) Run() {
	prev := active
	active = s
	defer func() { active = prev }()
	for {
		if s.Failed() {
			break
		}
		t := s.pick()
		if t == nil {
			break
		}
		if s.Steps > s.MaxSteps {
			s.Stuck = fmt.Sprintf("step budget spent, running %s", t.Name)
			break
		}
		s.resume(t)
	}
	if s.Failed() || s.Stuck != "" {
		s.killAll()
	}
}

func (s *Sim) resume(t *Task) {
	if s.last != t {
		s.Switches++
		from := 0
		var loc uint32
		if s.last != nil {
			from = s.last.ID + 1
			loc = s.last.lastLoc
		}
		s.schedHash = mix(s.schedHash*1099511628211 ^ uint64(from)<<40 ^ uint64(t.ID+1)<<32 ^ uint64(loc))
	}
	s.last = t
	t.cond = nil
	s.cur = t
	_, ok := t.next()
	s.cur = nil
	if !ok {
		t.done = true
	}
}

func (s *Sim) killAll() {
	s.dead = true
	for _, t := range s.tasks {
		if !t.done {
			s.cur = t
			t.stop()
			s.cur = nil
			t.done = true
		}
	}
}

// Settle runs what background tasks are left until they end; one that cannot
// makes the run stuck.
func (s *Sim) Settle() {
	if s.Failed() || s.Stuck != "" {
		return
	}
	for _, t := range s.tasks {
		t.Daemon = false
	}
	s.Run()
}

// Reap ends every remaining task (daemons, zombies) and forgets all tasks.
func (s *Sim) Reap() {
	prev := active
	active = s
	defer func() { active = prev }()
	was := s.dead
	s.killAll()
	s.dead = was
	s.tasks = nil
	s.last = nil
}

// pick chooses the next task. nil means the run is over.
func (s *Sim) pick() *Task {
	if f := s.forced; f != nil {
		s.forced = nil
		if !f.done && (f.cond == nil || f.cond()) {
			return f
		}
	}
	var run []*Task
	alive := false
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		if !t.Daemon {
			alive = true
		}
		if t.cond == nil || t.cond() {
			run = append(run, t)
		}
	}
	if !alive {
		return nil
	}
	if len(run) == 0 {
		if s.Stuck == "" {
			var w []string
			for _, t := range s.tasks {
				if !t.done {
					w = append(w, t.Name+" waits for "+t.waiting)
				}
			}
			s.Stuck = "deadlock: " + strings.Join(w, "; ")
		}
		return nil
	}
	if len(run) == 1 {
		return run[0]
	}
	if s.dead {
		return run[0]
	}
	// rotate so that index 0 is "keep going with the last task"
	if s.last != nil {
		for i, t := range run {
			if t == s.last {
				run = append(append([]*Task{}, run[i:]...), run[:i]...)
				break
			}
		}
	}
	return run[s.Draw(SSched, len(run))]
}

func (s *Sim) park(t *Task) {
	if !t.yield(struct{}{}) {
		panic(killed{})
	}
}

// Yield is a possible preemption point.
func Yield(kind int, loc uint32) {
	s := active
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	if t.quiet > 0 {
		return
	}
	s.Steps++
	t.lastLoc = loc
	if s.dead {
		return
	}
	if s.Steps > s.MaxSteps {
		s.park(t)
		return
	}
	switch s.mode {
	case 0:
		return
	case 1:
		if kind == KStmt {
			return
		}
	case 3:
		h := uint64(loc)
		if kind != KStmt {
			h = h*7 + uint64(kind) + 1
		}
		if mix(h)%s.siteMod != s.siteCls {
			return
		}
		if s.Draw(SSched, 2) == 0 {
			return
		}
		s.switchAway(t)
		return
	}
	s.gap--
	if s.gap > 0 {
		return
	}
	s.newGap()
	s.switchAway(t)
}

// switchAway hands the token to another runnable task, if there is one.
func (s *Sim) switchAway(t *Task) {
	var run []*Task
	for _, o := range s.tasks {
		if o != t && !o.done && (o.cond == nil || o.cond()) {
			run = append(run, o)
		}
	}
	if len(run) == 0 {
		return
	}
	o := run[s.Draw(SSched, len(run))]
	s.forced = o
	s.park(t)
}

// Block parks the caller until cond holds.
func Block(waiting string, cond func() bool) {
	s := active
	if s == nil || s.cur == nil {
		if !cond() {
			panic("vsim: blocking outside a task on " + waiting)
		}
		return
	}
	t := s.cur
	for !cond() {
		t.cond = cond
		t.waiting = waiting
		s.Steps++
		s.park(t)
	}
	t.cond = nil
}

// Quiet runs fn without preemption points (harness bookkeeping).
func Quiet(fn func()) {
	s := active
	if s == nil || s.cur == nil {
		fn()
		return
	}
	t := s.cur
	t.quiet++
	defer func() { t.quiet-- }()
	fn()
}

// Inline runs fn with no simulation at all around it: for harness code that
// calls into instrumented code between runs.
func (s *Sim) CurName() string {
	if s.cur != nil {
		return s.cur.Name
	}
	return "-"
}
