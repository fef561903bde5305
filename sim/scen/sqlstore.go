package scen

import (
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

func (m *marks) clone() *marks {
	c := newMarks()
	for k := range m.white {
		c.white[k] = true
	}
	for k := range m.opaque {
		c.opaque[k] = true
	}
	return c
}

// markOp is one change of a metadata store.
type markOp struct{ kind, name string }

func (p markOp) String() string { return p.kind + "(" + p.name + ")" }

func (p markOp) apply(m *marks) *marks {
	m = m.clone()
	n := cleanMark(p.name)
	switch p.kind {
	case "SetWhiteout":
		m.setWhiteout(n)
	case "ClearWhiteout":
		delete(m.white, n)
	case "SetOpaque":
		m.opaque[n] = true
	case "ClearOpaque":
		delete(m.opaque, n)
	}
	return m
}

func (p markOp) do(st overlayfs.MetadataStore) error {
	switch p.kind {
	case "SetWhiteout":
		return st.SetWhiteout(p.name)
	case "ClearWhiteout":
		return st.ClearWhiteout(p.name)
	case "SetOpaque":
		return st.SetOpaque(p.name)
	}
	return st.ClearOpaque(p.name)
}

// possible holds what the history allows: seen are the marks the open store
// may answer with, durable those a crash may still leave. A change that was
// never acknowledged may show after a reopen and still be gone after the next
// crash; an acknowledged one may not.
type possible struct{ seen, durable []*marks }

func addMarks(l []*marks, m *marks) []*marks {
	for _, o := range l {
		if o.String() == m.String() {
			return l
		}
	}
	return append(l, m)
}

func (p *possible) done(op markOp) {
	var seen, durable []*marks
	for _, m := range p.seen {
		seen = addMarks(seen, op.apply(m))
		if op.apply(m).String() != m.String() {
			// it wrote, on top of what was seen
			durable = addMarks(durable, op.apply(m))
			continue
		}
		for _, m := range p.durable {
			durable = addMarks(durable, op.apply(m))
		}
	}
	p.seen, p.durable = seen, durable
}

func (p *possible) failed(op markOp) {
	for _, m := range append([]*marks{}, p.seen...) {
		p.seen = addMarks(p.seen, op.apply(m))
		p.durable = addMarks(p.durable, op.apply(m))
	}
}

func (p *possible) reopened() { p.seen = append([]*marks{}, p.durable...) }

func (p *possible) String() string {
	var b strings.Builder
	for _, m := range p.seen {
		b.WriteString("  " + m.String() + "\n")
	}
	return b.String()
}

var sqlFaultKinds = kinds("lstat", "stat", "open", "create", "read", "readat", "write", "writeat", "close", "remove", "truncate", "sync", "fstat")

// sqlStore: the built-in metadata store over a simulated disk.
func sqlStoreRun(io bool) func(s *vsim.Sim) {
	return func(s *vsim.Sim) {
		s.Configure()
		d := simfs.New("layer")
		power := s.Chance(vsim.SCfg, 0.6)
		d.WrapEOF = s.Chance(vsim.SCfg, 0.25)
		// names that are prefixes of one another bytewise and by path, and odd bytes
		pool := [][]string{
			{"a", "a/b", "a/b/c", "a0", "a.b", ""},
			{"x", "x/y", "x/é", "x/y/z", "x!", "x/'; drop", ""},
			{"d", "d/\xff\xfe", "d/a%b", "d/a_b", "d/aXb", "D"},
		}[s.Draw(vsim.SCfg, 3)]
		big := s.Chance(vsim.SCfg, 0.3)
		pick := func() string {
			n := pool[s.Draw(vsim.SOps, len(pool))]
			if big && s.Draw(vsim.SOps, 2) == 0 {
				// long names spread the rows over many pages
				n = pool[0] + "/" + strings.Repeat(string(rune('k'+s.Draw(vsim.SOps, 8))), 300+100*s.Draw(vsim.SOps, 8)) + "/" + pool[s.Draw(vsim.SOps, 2)]
			}
			switch s.Draw(vsim.SOps, 6) {
			case 4:
				n = "/" + n
			case 5:
				n = "zz/../" + n + "/"
			}
			return n
		}
		can := &possible{[]*marks{newMarks()}, []*marks{newMarks()}}
		lives := 1 + s.Draw(vsim.SCfg, 4)
		over := false
		for l := 0; l <= lives && !s.Failed() && !over; l++ {
			last := l == lives
			plan := &simfs.Plan{Sim: s}
			if !last {
				plan.CrashMean = []float64{5, 30, 100, 300}[s.Draw(vsim.SCfg, 4)]
			}
			if io && !last {
				plan.Kinds = sqlFaultKinds
				plan.MeanGap = []float64{8, 30, 100}[s.Draw(vsim.SCfg, 3)]
				plan.Max = 1 + s.Draw(vsim.SCfg, 8)
				plan.ShortWrites = s.Chance(vsim.SCfg, 0.5)
				plan.AfterEffect = s.Chance(vsim.SCfg, 0.5)
				if s.Chance(vsim.SCfg, 0.5) {
					plan.Filter = func(op simfs.Op) bool { return op.Write || op.Kind == "sync" }
				}
				if s.Chance(vsim.SCfg, 0.5) {
					plan.CrashMean = 0
				}
			}
			d.Plan = plan
			can.reopened()
			n := 2 + s.Draw(vsim.SOps, 14)
			s.Go("u", func() {
				s.Logf("life %d", l)
				var st overlayfs.MetadataStore
				for try := 0; ; try++ {
					fired := plan.Fired
					r, err := overlayfs.NewMetadataStoreSQLite[vroot.File](d, "meta.db")
					s.Logf("open -> %v", err)
					if err == nil {
						st = r
						break
					}
					if s.Dead() {
						return
					}
					if plan.Fired == fired {
						s.Fail("store-does-not-open", "opening the store with nothing failing: %v", err)
						return
					}
					if d.OpenHandles() != 0 {
						s.Fail("handle-leak", "a failed open of the store left open: %v", d.OpenNames())
						return
					}
				}
				defer func() {
					err := st.Close()
					s.Logf("close -> %v", err)
					if !s.Dead() && d.OpenHandles() != 0 {
						s.Fail("handle-leak", "closing the store left open: %v", d.OpenNames())
					}
				}()
				load := func(must bool) bool {
					fired := plan.Fired
					w, o, err := st.Load()
					if s.Dead() {
						return false
					}
					if err != nil {
						s.Logf("load -> %v", err)
						if plan.Fired == fired && must {
							s.Fail("load-fails", "loading the marks with nothing failing: %v", err)
							return false
						}
						return true
					}
					got := newMarks()
					for _, k := range w {
						got.white[k] = true
					}
					for _, k := range o {
						got.opaque[k] = true
					}
					sort.Strings(w)
					s.Logf("load -> %s", got)
					s.State(got.String())
					if len(w) != len(got.white) || len(o) != len(got.opaque) {
						s.Fail("marks-doubled", "the store reports a mark twice: %q %q", w, o)
						return false
					}
					for _, m := range can.seen {
						if m.String() == got.String() {
							can.seen = []*marks{m}
							return true
						}
					}
					s.Fail("marks-differ", "the store reports\n  %s\nthe history allows\n%s", got, can)
					return false
				}
				if !load(true) {
					return
				}
				broken := false
				for k := 0; k < n && !s.Failed(); k++ {
					if s.Draw(vsim.SOps, 5) == 4 {
						if !load(!broken) {
							return
						}
						continue
					}
					op := markOp{[]string{"SetWhiteout", "ClearWhiteout", "SetOpaque", "ClearOpaque"}[s.Weighted(vsim.SOps, 5, 3, 4, 2)], pick()}
					fired := plan.Fired
					err := op.do(st)
					s.Logf("%s -> %v", op, err)
					if err == nil {
						if s.Dead() {
							// acknowledged before the crash was noticed
							s.Probe("acknowledged-at-crash")
						}
						can.done(op)
					} else {
						can.failed(op)
						if s.Dead() {
							s.Probe("cut-change")
							return
						}
						if plan.Fired == fired && !broken {
							s.Fail("change-fails", "%s with nothing failing: %v", op, err)
							return
						}
						s.Probe("failed-change")
						broken = true
					}
					if len(can.seen)+len(can.durable) > 150 {
						// too many histories to tell apart: nothing more is checked
						s.Probe("too-many-histories")
						over = true
						return
					}
					if s.Dead() {
						return
					}
				}
				load(!broken)
			})
			if life(s, d) {
				s.Probe("crashed")
				if power && s.Chance(vsim.SFault, 0.7) {
					d.PowerLoss(s)
					s.Probe("power-lost")
				}
			}
		}
	}
}

var sqlCrash = &Scenario{Name: "sqlite-crash", Run: sqlStoreRun(false),
	Doc: "the built-in store over a simulated disk, up to 15 changes per life over names that are prefixes of one another; crashes before, after or inside disk calls, also while opening, followed by power loss of unsynced writes (dropped, torn, reordered in sectors); every load must be a state the acknowledged history allows"}

var sqlFault = &Scenario{Name: "sqlite-faults", Run: sqlStoreRun(true),
	Doc: "the same with failing and short disk calls, before or after their effect: a failed change is there whole or not at all, later loads and changes obey it, reopening without faults works"}

func init() {
	register(&Check{Property: "P22", Quick: 12000, Thorough: 200000, Parts: []Part{{sqlCrash, 1}, {sqlFault, 1}},
		Real:        []string{"vroot-adapter/overlayfs (MetadataStoreSQLite)", "overlayfs/internal/sqlvfs", "go-sqlite3 with SQLite as WebAssembly, database/sql"},
		Stub:        []string{"the layer's file system (simulated disk with page-cache loss)", "random names"},
		Assumptions: []string{"directory operations (creating and removing the journal) are durable when they return; the layer interface has no directory sync", "a sync that returns success made everything written before durable"}})
}
