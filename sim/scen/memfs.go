package scen

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

var memTreeMix = []fsop.KW{{"lstat", 2}, {"mkdir", 4}, {"rename", 7}, {"remove", 4}, {"removeall", 3}, {"mkdirall", 3}, {"link", 2},
	{"symlink", 2}, {"writefile", 0}, {"open", 3}, {"readdir", 2}, {"fstat", 1}, {"stat", 2}, {"readlink", 1}, {"chmod", 2}, {"close", 1}, {"closeprobe", 1}}

var memAttrMix = []fsop.KW{{"lstat", 2}, {"chmod", 4}, {"fchmod", 4}, {"chtimes", 4}, {"mtime", 4}, {"open", 5}, {"fstat", 3}, {"rename", 1}, {"closeprobe", 1}, {"setowner", 1}, {"fsetowner", 1}}

// memTree: several tasks work on one in-memory tree through the root and nested
// roots; the history must be linearizable against the reference model.
var memTree = &Scenario{
	Name: "memfs-tree-linearizable",
	Doc:  "2-4 tasks, 3-5 tree operations each, on one memfs through the root and an opened sub-root, preempted at every statement; results and final tree checked for linearizability against the POSIX reference",
	Run: func(s *vsim.Sim) {
		s.Configure()
		real := memfs.New("mem")
		model := simfs.Model("model")
		model.Quirks = simfs.Quirks{NoCreateThroughLink: true, LinkFollows: true, LinkRenameReplaces: true}
		rw, mw := fsop.NewWorld(vroot.Widen(real)), fsop.NewWorld(model)
		names := drawNames(s)[:2+s.Draw(vsim.SCfg, 2)]
		mix := append([]fsop.KW{}, memTreeMix...)
		// swarm: some kinds are left out of a run
		for i := range mix {
			if i > 0 && s.Chance(vsim.SCfg, 0.25) {
				mix[i].W = 0
			}
		}
		links := s.Chance(vsim.SCfg, 0.5)
		for i := range mix {
			// hard links have their own attributes in synthfs (documented), so a
			// run has either links or attribute changes
			if mix[i].Kind == "link" && !links || mix[i].Kind == "chmod" && links {
				mix[i].W = 0
			}
		}
		depth := 3
		if s.Chance(vsim.SCfg, 0.15) {
			// attributes only, of files: nothing else here moves a file's time
			depth, mix = 1, append([]fsop.KW{}, memAttrMix...)
		}
		root := fsop.NewGen(s, names, depth, mix, nil)
		root.Flags = []int{os.O_RDONLY, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_CREATE | os.O_TRUNC}
		if depth == 1 {
			root.Flags = []int{os.O_RDONLY, os.O_RDWR}
			for i, nm := range names {
				for _, op := range []fsop.Op{{Kind: "writefile", A: nm, Data: nm}, {Kind: "chtimes", A: nm, Time: int64(i)}} {
					rw.Do(op)
					mw.Do(op)
				}
			}
		} else {
			seedTree(s, root, 1+s.Draw(vsim.SOps, 6), rw, mw)
			if s.Chance(vsim.SCfg, 0.01) {
				seedFar(s, root, rw, mw)
			}
		}
		views := 0
		if depth > 1 && s.Chance(vsim.SCfg, 0.4) {
			if err := real.MkdirAll("a/b", 0o755); err == nil {
				_ = model.MkdirAll("a/b", 0o755)
				if i, err := real.Lstat("a"); err == nil && i.IsDir() {
					sub, err := real.OpenRoot("a")
					if err != nil {
						s.Fail("openroot", "OpenRoot of an existing directory: %v", err)
						return
					}
					rw.Views = []fsop.FS{nil, vroot.Widen(sub)}
					model.AddView(1, "a")
					views = 1
				}
			}
		}
		nt := 2 + s.Draw(vsim.SOps, 3)
		init := model.Clone()
		root.Plan = fsop.NewWorld(model.Clone())
		rec := &recorder{s: s}
		for t := 0; t < nt; t++ {
			g := fsop.NewGen(s, names, depth, mix, root)
			g.Flags, g.Views, g.WholeDirs = root.Flags, views, true
			g.Perms = []fs.FileMode{0o755, 0o700}
			var ops []fsop.Op
			for i := 3 + s.Draw(vsim.SOps, 3); i > 0; i-- {
				ops = append(ops, g.Next())
			}
			s.Go("t"+itoa(t), func() {
				for _, op := range ops {
					rec.do(t, rw, op)
				}
			})
		}
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		d, err := fsop.Dump(rw.FS, ".", fsop.DumpOpt{Perm: true})
		if err != nil {
			s.Fail("tree-broken", "the tree cannot be listed: %v\n%s", err, d)
			return
		}
		s.Logf("final tree:\n%s", d)
		checkLin(s, "not-linearizable", init, rec.hist, sameErr, func(m *simfs.Disk) bool {
			want, err := fsop.Dump(m, ".", fsop.DumpOpt{Perm: true})
			return err == nil && want == d
		})
	},
}

// sure knows which names are surely there and surely gone while several tasks
// make and remove them.
type sure struct {
	in, gone map[string]bool
	busy     map[string]int // operations on the name under way
	gen      map[string]int // operations on the name started
}

func newSure() *sure {
	return &sure{map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]int{}}
}

// start notes that an operation on nm starts; the function it returns, that it
// ended and what it left behind for sure.
func (x *sure) start(nm string) func(gone, in bool) {
	was, wasGone := x.in[nm], x.out(nm)
	x.in[nm], x.gone[nm] = false, false
	x.busy[nm]++
	x.gen[nm]++
	g, alone := x.gen[nm], x.busy[nm] == 1
	return func(gone, in bool) {
		x.busy[nm]--
		if !alone || x.gen[nm] != g {
			return // overlapped another: not known
		}
		switch {
		case gone || in:
			x.in[nm], x.gone[nm] = in, gone
		default:
			x.in[nm], x.gone[nm] = was, wasGone
		}
	}
}

// out: never made, or gone for sure.
func (x *sure) out(nm string) bool {
	return x.gone[nm] || x.gen[nm] == 0 && !x.in[nm]
}

// memIter: a directory is read in pieces while other tasks change it.
var memIter = &Scenario{
	Name: "memfs-directory-iteration",
	Doc:  "one task reads a memfs directory in pieces of random size while 1-2 others create, remove and rename entries in it; an entry present from start to end appears exactly once, none appears twice under one name, none that was never there appears",
	Run: func(s *vsim.Sim) {
		s.Configure()
		real := memfs.New("mem")
		_ = real.Mkdir("d", 0o755)
		_ = real.Mkdir("e", 0o755)
		// present: has been in d at some time since the last rewind
		present, stays := map[string]bool{}, map[string]bool{}
		sure := newSure()
		n := 1 + s.Draw(vsim.SOps, 6)
		for i := 0; i < n; i++ {
			nm := "s" + itoa(i)
			present[nm], stays[nm] = true, true
			sure.in[nm] = true
			_ = fsop.WriteFile(vroot.Widen(real), "d/"+nm, []byte(nm), 0o644)
		}
		nt := 1 + s.Draw(vsim.SOps, 2)
		for t := 0; t < nt; t++ {
			m := 1 + s.Draw(vsim.SOps, 6)
			type step struct{ k, a int }
			var st []step
			for i := 0; i < m; i++ {
				st = append(st, step{s.Weighted(vsim.SOps, 4, 3, 2, 2), s.Draw(vsim.SOps, n+3)})
			}
			s.Go("w"+itoa(t), func() {
				for _, x := range st {
					nm := "s" + itoa(x.a)
					vsim.Yield(vsim.KOp, 1)
					switch x.k {
					case 0:
						delete(stays, nm)
						gone := sure.start(nm)
						err := real.Remove("d/" + nm)
						gone(err == nil || errors.Is(err, fs.ErrNotExist), false)
						s.Logf("remove d/%s: %v", nm, err)
					case 1:
						present[nm] = true
						made := sure.start(nm)
						f, err := real.Create("d/" + nm)
						made(false, err == nil)
						s.Logf("create d/%s: %v", nm, err)
						if err == nil {
							f.Close()
						}
					case 2:
						delete(stays, nm)
						present["r"+nm] = true
						gone, made := sure.start(nm), sure.start("r"+nm)
						err := real.Rename("d/"+nm, "d/r"+nm)
						gone(err == nil || errors.Is(err, fs.ErrNotExist), false)
						made(false, err == nil)
						s.Logf("rename d/%s d/r%s: %v", nm, nm, err)
					case 3:
						delete(stays, nm)
						gone := sure.start(nm)
						err := real.Rename("d/"+nm, "e/o"+nm)
						gone(err == nil || errors.Is(err, fs.ErrNotExist), false)
						s.Logf("rename d/%s e/%s: %v", nm, "o"+nm, err)
					}
				}
			})
		}
		how := s.Draw(vsim.SOps, 3)
		s.Go("r", func() {
			f, err := real.Open("d")
			if err != nil {
				s.Fail("open", "open d: %v", err)
				return
			}
			rounds := 1 + s.Draw(vsim.SOps, 2)
			for r := 0; r < rounds; r++ {
				seen := map[string]int{}
				for {
					k := s.Draw(vsim.SOps, 4)
					if k == 3 {
						k = -1
					} else {
						k++
					}
					var names []string
					var err error
					switch how {
					case 0:
						var es []fs.DirEntry
						es, err = f.ReadDir(k)
						for _, e := range es {
							names = append(names, e.Name())
						}
					case 1:
						var es []fs.FileInfo
						es, err = f.Readdir(k)
						for _, e := range es {
							names = append(names, e.Name())
						}
					default:
						names, err = f.Readdirnames(k)
					}
					s.Logf("read(%d) -> %v %v", k, names, err)
					for _, nm := range names {
						seen[nm]++
						if seen[nm] > 1 {
							s.Fail("entry-twice", "%s listed twice in one pass", nm)
						}
						if !present[nm] {
							s.Fail("entry-never-there", "%s listed but was never in the directory", nm)
						}
					}
					if k > 0 && len(names) > k {
						s.Fail("too-many", "%d entries for n=%d", len(names), k)
					}
					if err == io.EOF || k < 0 || s.Failed() {
						break
					}
					if err != nil {
						s.Fail("iterate", "read of an open directory failed: %v", err)
						return
					}
					if len(names) == 0 {
						s.Fail("empty-read", "no entries and no error for n=%d", k)
						return
					}
					vsim.Yield(vsim.KOp, 2)
				}
				for nm := range stays {
					if seen[nm] == 0 {
						s.Fail("entry-lost", "%s was in the directory throughout and not listed", nm)
					}
				}
				// what is listed next is what is there from now on
				clear(present)
				clear(stays)
				for i := 0; i < n+3; i++ {
					for _, nm := range []string{"s" + itoa(i), "rs" + itoa(i)} {
						if !sure.out(nm) {
							present[nm] = true
						}
						if sure.in[nm] {
							stays[nm] = true
						}
					}
				}
				if _, err := f.Seek(0, io.SeekStart); err != nil {
					s.Fail("seek", "rewinding a directory: %v", err)
				}
			}
			f.Close()
		})
		s.Run()
	},
}

var memContentMix = []fsop.KW{{"fstat", 1}, {"read", 3}, {"readat", 4}, {"write", 5}, {"writeat", 4}, {"truncate", 3}, {"seek", 2},
	{"open", 2}, {"close", 1}, {"lstat", 1}, {"remove", 1}, {"rename", 1}, {"link", 1}, {"closeprobe", 1}}

// memContent: several tasks work on the content of one or two files through
// their own and shared handles.
var memContent = &Scenario{
	Name: "memfs-content-linearizable",
	Doc:  "2-4 tasks, 2-5 content operations each (read, readat, write, append, writeat, truncate, seek, stat, open with create/trunc/append, close, unlink, rename, link) on one or two memfs files through own and shared handles; results and final content checked for linearizability",
	Run: func(s *vsim.Sim) {
		s.Configure()
		real := memfs.New("mem")
		model := simfs.Model("model")
		model.Quirks = simfs.Quirks{NoCreateThroughLink: true, LinkFollows: true, LinkRenameReplaces: true}
		rw := fsop.NewWorld(vroot.Widen(real))
		ms := fsop.NewModelState(model)
		names := drawNames(s)[:1+s.Draw(vsim.SCfg, 2)]
		mix := append([]fsop.KW{}, memContentMix...)
		for i := range mix {
			if i > 0 && s.Chance(vsim.SCfg, 0.3) {
				mix[i].W = 0
			}
		}
		root := fsop.NewGen(s, names, 1, mix, nil)
		setup := func(op fsop.Op) {
			a, b := rw.Do(op), ms.Do(op)
			s.Logf("setup %s -> %s / %s", op, a, b)
			if a.Class != b.Class || a.Val != b.Val {
				s.Fail("setup", "%s: %s, reference %s", op, a, b)
			}
		}
		for _, nm := range names {
			setup(fsop.Op{Kind: "writefile", A: nm, Data: strings.Repeat("0", s.Draw(vsim.SOps, 10))})
		}
		if s.Failed() {
			return
		}
		flags := []int{os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_RDONLY, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_CREATE}
		var shared []int
		for i := s.Draw(vsim.SOps, 3); i > 0; i-- {
			*root.Slot++
			op := fsop.Op{Kind: "open", A: names[s.Draw(vsim.SOps, len(names))], Flag: flags[s.Draw(vsim.SOps, len(flags))], Perm: 0o644, H: *root.Slot}
			setup(op)
			shared = append(shared, op.H)
		}
		nt := 2 + s.Draw(vsim.SOps, 3)
		rec := &recorder{s: s}
		total := 0
		for t := 0; t < nt; t++ {
			g := fsop.NewGen(s, names, 1, mix, root)
			var ops []fsop.Op
			own := map[int]bool{}
			if s.Chance(vsim.SOps, 0.8) {
				*root.Slot++
				op := fsop.Op{Kind: "open", A: names[s.Draw(vsim.SOps, len(names))], Flag: flags[s.Draw(vsim.SOps, len(flags))], Perm: 0o644, H: *root.Slot}
				setup(op)
				g.Mine = append(g.Mine, op.H)
				own[op.H] = true
			}
			g.Mine = append(g.Mine, shared...)
			g.Flags = append([]int{os.O_RDWR | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL}, flags...)
			for i := 2 + s.Draw(vsim.SOps, 4); i > 0 && total < 16; i-- {
				op := g.Next()
				if op.Kind == "open" {
					own[op.H] = true
				}
				if op.Kind == "close" && !own[op.H] {
					// closing while another task is inside a call on the same
					// handle is not atomic for operating system files either
					op.Kind = "fstat"
				}
				total++
				ops = append(ops, op)
			}
			s.Go("t"+itoa(t), func() {
				for _, op := range ops {
					rec.do(t, rw, op)
				}
			})
		}
		if s.Failed() {
			return
		}
		init := ms.Clone()
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		d, err := fsop.Dump(rw.FS, ".", fsop.DumpOpt{Perm: true})
		if err != nil {
			s.Fail("tree-broken", "the tree cannot be listed: %v\n%s", err, d)
			return
		}
		s.Logf("final tree:\n%s", d)
		acc := func(op fsop.Op, got, want fsop.Result) bool {
			if op.Kind == "read" && got.Val == want.Val && !strings.HasPrefix(got.Val, "0:") {
				// the end may be reported with the last bytes or after them
				return (got.Class == "ok" || got.Class == "EOF") == (want.Class == "ok" || want.Class == "EOF")
			}
			return sameErr(op, got, want)
		}
		if err := fsop.LinearizeFrom(init, rec.hist, acc, func(m *simfs.Disk) bool {
			want, err := fsop.Dump(m, ".", fsop.DumpOpt{Perm: true})
			return err == nil && want == d
		}); err != nil {
			s.Fail("not-linearizable", "%v", err)
		}
		if fsop.Undecided {
			s.Probe("linearizability-undecided")
		}
	},
}

func init() {
	register(&Check{Property: "P14", Quick: 400000, Thorough: 8000000,
		Parts:       []Part{{memTree, 4}, {memIter, 1}},
		Real:        []string{"vroot/synthfs", "vroot/memfs", "fsutil"},
		Stub:        []string{"sync (simulated locks)", "time"},
		Assumptions: []string{"preemption happens only at statement, lock and call boundaries of the instrumented packages; data races inside one statement are not simulated"},
	})
	register(&Check{Property: "P15", Quick: 300000, Thorough: 8000000,
		Parts:       []Part{{memContent, 1}},
		Real:        []string{"vroot/synthfs", "vroot/memfs", "fsutil"},
		Stub:        []string{"sync (simulated locks)", "time"},
		Assumptions: []string{"preemption happens only at statement, lock and call boundaries of the instrumented packages; data races inside one statement are not simulated", "a handle is closed by one task only, and not while another task is inside a call on it"},
	})
}
