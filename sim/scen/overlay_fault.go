package scen

import (
	"io/fs"
	"path"
	"strings"

	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// ovCompositeMix is what a user does whose operations start and end complete.
var ovCompositeMix = []fsop.KW{{"lstat", 2}, {"createwrite", 3}, {"stat", 2}, {"writefile", 7}, {"appendfile", 5}, {"mkdir", 6}, {"mkdirall", 4}, {"remove", 6}, {"removeall", 5},
	{"rename", 10}, {"link", 2}, {"symlink", 4}, {"readlink", 1}, {"chmod", 4}, {"list", 3}, {"listpieces", 1}, {"readfile", 4}}

// cand is a state an unfinished operation may leave.
type cand struct {
	what string
	m    *simfs.Disk
	dump string
}

// candidates lists the states op may leave when it is cut short or fails; the
// last is the one it leaves when it is done.
func (o *ovl) candidates(op fsop.Op) []cand {
	var out []cand
	add := func(what string, ops ...fsop.Op) {
		m := o.model.Clone()
		w := o.modelFor(m, op)
		w.H = nil
		for _, op := range ops {
			if r := w.Do(op); r.Class != "ok" {
				return
			}
		}
		d := modelDump(m)
		for _, c := range out {
			if c.dump == d {
				return
			}
		}
		out = append(out, cand{what, m, d})
	}
	add("before")
	switch op.Kind {
	case "writefile", "appendfile", "createwrite":
		for i := 0; i < len(op.Data); i++ {
			p := op
			p.Data = op.Data[:i]
			add("the first bytes written", p)
		}
	case "mkdirall":
		parts := strings.Split(op.A, "/")
		for i := 1; i < len(parts); i++ {
			p := op
			p.A = strings.Join(parts[:i], "/")
			add("the first directories made", p)
		}
	}
	add("after", op)
	return out
}

// settle finds which state an unfinished op left and makes it the model's.
func (o *ovl) settle(op fsop.Op, cands []cand, when string) bool {
	s := o.s
	d, err := o.dump()
	if s.Dead() || s.Failed() {
		return false
	}
	if err != nil {
		s.Fail("view-broken", "%s: the merged view cannot be read: %v\n%s", when, err, d)
		return false
	}
	for _, c := range cands {
		if c.dump == d {
			s.Logf("left: %s", c.what)
			s.Probe("left-" + c.what)
			o.model = c.m
			o.mw = fsop.NewWorld(o.model)
			return true
		}
	}
	if op.Kind == "removeall" {
		if m, ok := o.partlyRemoved(op, d); ok {
			s.Logf("left: partly removed")
			s.Probe("left-partly-removed")
			o.model = m
			o.mw = fsop.NewWorld(m)
			return true
		}
	}
	var b strings.Builder
	for _, c := range cands {
		b.WriteString("--- " + c.what + ":\n" + c.dump + "\n")
	}
	s.Fail("between-states", "%s: %s left a state that is neither the one before it nor the one after it:\n%s\n%stop marks: %s", when, op, d, b.String(), o.top().m)
	return false
}

// partlyRemoved accepts a view that lacks some of what lies at and below the
// entry a recursive removal names, and nothing else.
func (o *ovl) partlyRemoved(op fsop.Op, view string) (*simfs.Disk, bool) {
	m := o.model.Clone()
	w := o.modelFor(m, op)
	f := w.FS
	if op.View > 0 {
		f = w.Views[op.View]
	}
	v, ok := f.(*simfs.Disk)
	if !ok {
		return nil, false
	}
	target, ok := v.Canonical(op.A, false)
	if !ok {
		return nil, false
	}
	has := map[string]bool{}
	for _, l := range strings.Split(view, "\n") {
		has[l] = true
	}
	// drop bottom up what the view no longer shows, as long as it is below target
	for {
		now := modelDump(m)
		if now == view {
			return m, true
		}
		var gone []string
		for _, p := range allPaths(m) {
			if p == target || strings.HasPrefix(p, target+"/") {
				if _, err := statPlain(o.rw.FS, p, o); err != nil {
					gone = append(gone, p)
				}
			}
		}
		if len(gone) == 0 {
			return nil, false
		}
		for _, p := range gone {
			if err := m.RemoveAll(p); err != nil {
				return nil, false
			}
		}
		if modelDump(m) == view {
			return m, true
		}
		return nil, false
	}
}

func statPlain(f fsop.FS, p string, o *ovl) (i fs.FileInfo, err error) {
	o.quiet(func() { i, err = f.Lstat(p) })
	return
}

func allPaths(m *simfs.Disk) []string {
	var out []string
	var walk func(p string)
	walk = func(p string) {
		es, _ := fsop.ReadDir(m, dot(p))
		for _, e := range es {
			c := path.Join(p, e.Name())
			out = append(out, c)
			if e.IsDir() {
				walk(c)
			}
		}
	}
	walk("")
	return out
}

// noHandles fails the run if anything is still open below the overlay.
func (o *ovl) noHandles(when string) bool {
	for i, l := range o.layers {
		if l.d.OpenHandles() != 0 && !l.sql {
			o.s.Fail("handle-leak", "%s: still open in layer %d: %v", when, i, l.d.OpenNames())
			return false
		}
	}
	return true
}

// ovFaultStep runs op under the fault plan and judges what it left.
func (o *ovl) faultStep(op fsop.Op) {
	s := o.s
	cands := o.candidates(op)
	fired, errs := o.plan.Fired, len(o.plan.Hit)
	s.Logf("u> %s", op)
	got := o.rw.Do(op)
	s.Logf("u< %s (%v)", got, got.Err)
	s.State(op.Kind + got.Class)
	if s.Dead() || s.Failed() {
		return
	}
	hit := o.plan.Fired > fired
	if hit {
		s.Probe("faulted-op")
		s.Logf("faults hit: %d", o.plan.Fired-fired)
	}
	switch {
	case hit && got.Class != "ok":
		if !o.settle(op, cands, "after a failed call") {
			return
		}
	case got.Class == "EXDEV" && o.mayXdev(o.model, op):
		s.Probe("exdev")
	default:
		mw := o.modelFor(o.model, op)
		want := mw.Do(op)
		if !ovSame(op, got, want) {
			s.Fail("result-differs", "%s gave %s (%v); what is visible calls for %s (%v)\ntop marks: %s", op, got, got.Err, want, want.Err, o.top().m)
			return
		}
		if hit && !o.check("after a call that said it succeeded under a fault") {
			return
		}
	}
	if !o.noHandles("after " + op.String()) {
		return
	}
	// what was staged is gone unless making or removing it was what failed
	if es, err := fsop.ReadDir(o.top().d.Plain(), "work"); len(es) == 0 && err == nil {
		o.staged = 0
	} else if len(es) > o.staged {
		for _, k := range o.plan.Hit[errs:] {
			if kinds("remove", "removeall", "open", "create", "mkdir")[k] {
				o.staged = len(es)
				s.Probe("staging-cleanup-failed")
				return
			}
		}
		s.Fail("staging-left", "after %s -> %v there is left under work/: %v %v", op, got.Err, es, err)
	}
}

// gen makes the generator of a step's operation.
func (o *ovl) gen(mix []fsop.KW, links bool) *fsop.Gen {
	s := o.s
	m := append([]fsop.KW{}, mix...)
	for i := range m {
		if m[i].Kind == "link" && !links || i > 1 && s.Chance(vsim.SCfg, 0.15) {
			m[i].W = 0
		}
	}
	g := fsop.NewGen(s, o.names, 3, m, nil)
	g.MaxData = 12
	g.Perms = []fs.FileMode{0o755, 0o700, 0o777, 0o644}
	return g
}

func (o *ovl) draw(g *fsop.Gen) (fsop.Op, bool) {
	g.Plan = fsop.NewWorld(o.model.Clone())
	g.Views = 0
	if o.view != "" {
		g.Views = 1
	}
	op := o.chained(g.Next())
	return op, o.allowed(op)
}

// bestEffort are the calls whose failure a copy-up documents to ignore: the
// attributes of a staged copy.
func bestEffort(op simfs.Op) bool {
	return (op.Kind == "chmod" || op.Kind == "chtimes") && strings.HasPrefix(op.Path, "work/")
}

var ovFaultKinds = kinds("lstat", "stat", "open", "create", "read", "readat", "readdir", "write", "close", "mkdir", "remove", "removeall",
	"rename", "link", "symlink", "readlink", "chmod", "chtimes", "fstat",
	"store-load", "store-setwhiteout", "store-clearwhiteout", "store-setopaque", "store-clearopaque")

// ovCrash: operations cut by a crash at any call underneath, then reopening.
var ovCrash = &Scenario{
	Name: "overlay-crash",
	Doc:  "one user runs up to 40 operations over 1-4 layers; the process crashes before, after or inside a disk or metadata call (also while reopening), 1-4 lives; after each reopen the view must be the reference's before or after the cut operation, staging must be empty and the lowers untouched",
	Run: func(s *vsim.Sim) {
		s.Configure()
		names := drawNames(s)[:2+s.Draw(vsim.SCfg, 2)]
		o := newOvl(s, names)
		if s.Failed() {
			return
		}
		links := s.Chance(vsim.SCfg, 0.3)
		o.drawSQL(0.015)
		g := o.gen(ovCompositeMix, links)
		lives := 1 + s.Draw(vsim.SCfg, 4)
		var disks []*simfs.Disk
		for _, l := range o.layers {
			disks = append(disks, l.d)
		}
		var cut *fsop.Op
		var cands []cand
		for life_ := 0; life_ <= lives; life_++ {
			last := life_ == lives
			plan := &simfs.Plan{Sim: s}
			if !last {
				plan.CrashMean = []float64{3, 20, 80, 200}[s.Draw(vsim.SCfg, 4)]
				plan.CrashFilter = func(op simfs.Op) bool { return op.Write || s.Draw(vsim.SFault, 4) == 0 }
			}
			o.setPlan(plan)
			n := 3 + s.Draw(vsim.SOps, 12)
			s.Go("u", func() {
				s.Logf("life %d", life_)
				if err := o.open(); err != nil {
					if !s.Dead() {
						s.Fail("open", "opening the overlay: %v", err)
					}
					return
				}
				if s.Dead() {
					return
				}
				if cut != nil {
					if !o.settle(*cut, cands, "after the crash") {
						return
					}
					cut, cands = nil, nil
				} else if !o.check("at the start of a life") {
					return
				}
				for k := 0; k < n && !s.Failed() && !s.Dead(); k++ {
					op, ok := o.draw(g)
					if !ok {
						continue
					}
					cs := o.candidates(op)
					if op.Kind == "rename" && o.mayXdev(o.model, op) {
						cs = append(cs, cs[0])
					}
					cut, cands = &op, cs
					o.step(op)
					if s.Dead() || s.Failed() {
						return
					}
					cut, cands = nil, nil
					if s.Weighted(vsim.SOps, 5, 1) == 1 && !o.check("after "+op.String()) {
						return
					}
				}
				if s.Dead() || s.Failed() || !o.check("at the end of a life") {
					return
				}
				if err := o.fs.Close(); err != nil && !s.Dead() {
					s.Fail("close", "closing the overlay: %v", err)
				}
			})
			if life(s, disks...) {
				s.Probe("crashed")
				s.Logf("after the crash: marks %s top %s", o.top().m, o.top().content().Dump(simfs.DumpOpt{Perm: true}))
			}
			if s.Failed() {
				return
			}
			o.lowersSame()
		}
	},
}

// ovFault: operations hit by failing calls.
var ovFault = &Scenario{
	Name: "overlay-faults",
	Doc:  "one user runs up to 40 operations over 1-4 layers while disk and metadata calls fail (before or after their effect), reads and writes come short; a failed operation must leave the state before or after it, a successful one the right result; reopening shows the same view",
	Run: func(s *vsim.Sim) {
		s.Configure()
		names := drawNames(s)[:2+s.Draw(vsim.SCfg, 2)]
		o := newOvl(s, names)
		if s.Failed() {
			return
		}
		g := o.gen(ovCompositeMix, s.Chance(vsim.SCfg, 0.3))
		plan := &simfs.Plan{Sim: s, Kinds: ovFaultKinds, Max: 1 + s.Draw(vsim.SCfg, 12), ShortWrites: true,
			MeanGap:     []float64{5, 20, 60, 150}[s.Draw(vsim.SCfg, 4)],
			AfterEffect: s.Chance(vsim.SCfg, 0.5),
			Filter:      func(op simfs.Op) bool { return !bestEffort(op) }}
		if s.Chance(vsim.SCfg, 0.3) {
			plan.ShortReads = 0.3
		}
		if s.Chance(vsim.SCfg, 0.4) {
			// failures of changes only: they are what leaves things half done
			plan.Filter = func(op simfs.Op) bool { return op.Write && !bestEffort(op) }
			plan.MeanGap = 6
		}
		n := 5 + s.Draw(vsim.SOps, 30)
		s.Go("u", func() {
			plan.Off = true
			o.setPlan(plan)
			if err := o.open(); err != nil {
				s.Fail("open", "opening the overlay: %v", err)
				return
			}
			if !o.check("at the start") {
				return
			}
			plan.Off = false
			for k := 0; k < n && !s.Failed(); k++ {
				op, ok := o.draw(g)
				if !ok {
					continue
				}
				o.faultStep(op)
				if s.Failed() {
					return
				}
				switch s.Weighted(vsim.SOps, 20, 5, 1) {
				case 1:
					if !o.check("after " + op.String()) {
						return
					}
				case 2:
					o.quiet(func() { o.reopen(false) })
				}
			}
			plan.Off = true
			if s.Failed() || !o.check("at the end") {
				return
			}
			o.reopen(false)
			o.lowersSame()
			if err := o.fs.Close(); err != nil {
				s.Fail("close", "%v", err)
			}
		})
		s.Run()
	},
}

func init() {
	real := []string{"vroot-adapter/overlayfs", "vroot (prefix views, read-only views)", "fsutil (path resolution)"}
	stub := []string{"layer file systems (simulated disks)", "metadata store (simulated durable store, the built-in sqlite store in 1.5 % of the runs)", "sync", "time"}
	register(&Check{Property: "P18", Quick: 60000, Thorough: 3000000, Parts: []Part{{ovCrash, 1}}, Real: real, Stub: stub,
		Assumptions: []string{"a process crash: what a disk or metadata call had done stays done, in order; power loss of the store is P22"}})
	register(&Check{Property: "P19", Quick: 60000, Thorough: 3000000, Parts: []Part{{ovFault, 1}}, Real: real, Stub: append(stub[:1:1], "metadata store (simulated durable store; the sqlite store is checked under P22)", "sync", "time"),
		Assumptions: []string{"attributes of a copied-up file are documented as best effort; their failure is not injected on staged copies", "a metadata call that reports an error changed nothing"}})
}
