package scen

import (
	"io/fs"
	"os"
	"path"

	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

var ovConcMix = []fsop.KW{{"lstat", 2}, {"stat", 2}, {"mkdir", 5}, {"mkdirall", 4}, {"remove", 5}, {"removeall", 4}, {"rename", 7}, {"link", 2}, {"symlink", 3},
	{"readlink", 1}, {"chmod", 3}, {"open", 7}, {"read", 3}, {"readat", 1}, {"write", 4}, {"writeat", 2}, {"truncate", 1}, {"close", 2}, {"list", 2}, {"chtimes", 0}, {"closeprobe", 1}}

// ovConc: concurrent operations on one overlay are linearizable.
var ovConc = &Scenario{
	Name: "overlay-linearizable",
	Doc:  "2-4 tasks issue 2-5 operations each (tree operations, opens, reads and writes through handles, listings of the root) on one overlay over 1-3 lowers and an opened sub-root of it, preempted at every statement and disk call; results and final tree checked for linearizability against one plain file system with the merged content",
	Run: func(s *vsim.Sim) {
		s.Configure()
		names := drawNames(s)[:2+s.Draw(vsim.SCfg, 2)]
		o := newOvl(s, names)
		if s.Failed() {
			return
		}
		mix := append([]fsop.KW{}, ovConcMix...)
		links := s.Chance(vsim.SCfg, 0.3)
		view := s.Chance(vsim.SCfg, 0.4)
		for _, p := range allPaths(o.model) {
			if i, _ := o.model.Lstat(p); i.Mode()&fs.ModeSymlink != 0 {
				view = false
			}
		}
		if i, err := o.model.Lstat("a"); err != nil || !i.IsDir() {
			view = false
		}
		for i := range mix {
			if mix[i].Kind == "link" && !links || mix[i].Kind == "symlink" && view || i > 1 && s.Chance(vsim.SCfg, 0.25) {
				mix[i].W = 0
			}
		}
		if view {
			o.view = "a"
		}
		if err := o.open(); err != nil {
			s.Fail("open", "%v", err)
			return
		}
		if view {
			o.model.AddView(1, "a")
		}
		lowOpened := map[string]bool{}
		for _, l := range o.layers[1:] {
			l.d.AfterOp = func(op simfs.Op, err error) {
				if op.Kind == "open" && err == nil {
					lowOpened[s.CurName()] = true
				}
			}
		}
		root := fsop.NewGen(s, names, 3, mix, nil)
		root.Plan = fsop.NewWorld(o.model.Clone())
		rec := &recorder{s: s}
		nt := 2 + s.Draw(vsim.SOps, 3)
		for t := 0; t < nt; t++ {
			g := fsop.NewGen(s, names, 3, mix, root)
			g.Perms = []fs.FileMode{0o755, 0o700, 0o777}
			if view {
				g.Views = 1
			}
			var ops []fsop.Op
			for i := 2 + s.Draw(vsim.SOps, 4); i > 0; i-- {
				op := g.Next()
				if view && op.View == 0 && (op.Kind == "rename" || op.Kind == "remove" || op.Kind == "removeall") && (path.Clean(op.A) == "a" || path.Clean(op.B) == "a") {
					continue
				}
				if op.Kind == "list" {
					op.A = "."
				}
				ops = append(ops, op)
			}
			name := "t" + itoa(t)
			s.Go(name, func() {
				for _, op := range ops {
					lowOpened[name] = false
					res := rec.do(t, o.rw, op)
					if op.Kind == "open" && res.Class == "ok" && op.Flag&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_CREATE|os.O_TRUNC) == 0 && lowOpened[name] {
						// a read handle on a lower's file keeps showing its content
						for k := len(rec.hist) - 1; k >= 0; k-- {
							if e := &rec.hist[k]; e.Task == t && e.Op.Kind == "open" {
								e.Op.Kind = "opensnap"
								break
							}
						}
					}
				}
			})
		}
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		d, err := fsop.Dump(o.rw.FS, ".", ovDump)
		if err != nil {
			s.Fail("tree-broken", "the tree cannot be listed: %v\n%s", err, d)
			return
		}
		s.Logf("final tree:\n%s", d)
		refuse := func(st *fsop.ModelState, e fsop.Event) bool {
			if e.Op.Kind != "rename" || e.Res.Class != "EXDEV" {
				return false
			}
			f := st.Disk
			if e.Op.View > 0 {
				f = st.Disk.View(e.Op.View)
			}
			i, err := f.Lstat(e.Op.A)
			return err == nil && i.IsDir() && o.contributed[inoOf(i)]
		}
		err = fsop.LinearizeRefusing(fsop.NewModelState(o.model.Clone()), rec.hist, ovSame, refuse, func(m *simfs.Disk) bool { return modelDump(m) == d })
		if err != nil {
			s.Fail("not-linearizable", "%v", err)
			return
		}
		for _, h := range sortedInts(o.rw.H) {
			o.rw.H[h].Close()
		}
		o.rw.H = nil
		if !o.noHandles("after every handle was closed") {
			return
		}
		o.lowersSame()
		if err := o.fs.Close(); err != nil {
			s.Fail("close", "%v", err)
			return
		}
		if err := o.open(); err != nil {
			s.Fail("reopen", "%v", err)
			return
		}
		if d2, err := fsop.Dump(o.rw.FS, ".", ovDump); err != nil || d2 != d {
			s.Fail("reopen-differs", "after reopening (%v):\n%s\nbefore:\n%s", err, d2, d)
		}
	},
}

func init() {
	register(&Check{Property: "P21", Quick: 150000, Thorough: 3000000, Parts: []Part{{ovConc, 1}},
		Real:        []string{"vroot-adapter/overlayfs", "vroot (prefix views, read-only views)", "fsutil (path resolution)"},
		Stub:        []string{"layer file systems (simulated disks)", "metadata store (simulated durable store)", "sync", "time"},
		Assumptions: []string{"read handles on a lower's file keep showing the lower's content, as overlayfs documents; directory handles list by name; the directory a sub-root was opened at is not renamed or removed"},
	})
}
