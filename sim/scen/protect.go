package scen

import (
	"io/fs"
	"os"
	"path"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/clock"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// protHandle is one handle of the run: when it was certainly and when it was
// possibly open.
type protHandle struct {
	name                          string // the name it holds, links resolved
	inv, opened, closeInv, closed int64
	failed                        bool
}

// flakyView is content from elsewhere that cannot always be opened or truncated.
type flakyView struct {
	synthfs.FileView
	s *vsim.Sim
	p float64
}

type flakyHandle struct {
	vroot.File
	v *flakyView
}

func (v *flakyView) fails(kind string) error {
	vsim.Yield(vsim.KIO, 0xd3000001)
	if v.s.Chance(vsim.SFault, v.p) {
		v.s.Fault(kind)
		return errSource
	}
	return nil
}

func (v *flakyView) Open(flag int) (vroot.File, error) {
	if err := v.fails("view-open-error"); err != nil {
		return nil, err
	}
	h, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	return &flakyHandle{h, v}, nil
}

func (h *flakyHandle) Truncate(n int64) error {
	if err := h.v.fails("view-truncate-error"); err != nil {
		return err
	}
	return h.File.Truncate(n)
}

func (h *flakyHandle) Close() error {
	err := h.v.fails("view-close-error")
	if e := h.File.Close(); err == nil {
		err = e
	}
	return err
}

// flakyViews makes every file a flaky view of an in-memory one.
type flakyViews struct {
	in synthfs.FileViewAllocator
	s  *vsim.Sim
	p  *float64
}

func (a flakyViews) Allocate(name string, perm fs.FileMode) (synthfs.FileView, error) {
	v, err := a.in.Allocate(name, perm)
	if err != nil {
		return nil, err
	}
	f := &flakyView{v, a.s, *a.p}
	if err := f.fails("view-allocate-error"); err != nil {
		return nil, err
	}
	return f, nil
}

const notYet = int64(1) << 60

// protRun: opens, closes and removals race; protected names stay.
func protRun(overlay, faults bool) func(s *vsim.Sim) {
	return func(s *vsim.Sim) {
		s.Configure()
		var f, sub fsop.FS
		var o *ovl
		files := []string{"f", "g", "d/f", "d/g", "d/e/f"}
		links := map[string]string{"l": "f", "d/l": "d/e/f", "k": "d"}
		plan := &simfs.Plan{Sim: s}
		started := false
		if faults {
			plan.Kinds = ovFaultKinds
			plan.MeanGap = []float64{5, 20, 60}[s.Draw(vsim.SCfg, 3)]
			plan.Max = 1 + s.Draw(vsim.SCfg, 10)
			plan.AfterEffect = s.Chance(vsim.SCfg, 0.3)
			plan.Filter = func(op simfs.Op) bool { return started && !bestEffort(op) }
		}
		if overlay {
			o = &ovl{s: s, protect: true}
			low, top := simfs.New("low1"), simfs.New("top")
			o.layers = []*ovLayer{{d: top, canonical: true, m: newMarks()}, {d: low}}
			p := top.Plain()
			_ = p.MkdirAll("merged", 0o755)
			_ = p.MkdirAll("work", 0o755)
			for _, n := range files {
				l := low.Plain()
				pre := ""
				if s.Draw(vsim.SOps, 3) == 0 {
					l, pre = p, "merged/"
				}
				_ = l.MkdirAll(path.Dir(pre+n), 0o755)
				_ = fsop.WriteFile(l, pre+n, []byte(n), 0o644)
			}
			_ = low.Plain().MkdirAll("d", 0o755)
			_ = low.Plain().Mkdir("v", 0o755)
			if s.Draw(vsim.SOps, 2) == 0 {
				_ = p.Mkdir("merged/v", 0o755)
			}
			_ = low.Plain().Symlink("f", "l")
			_ = low.Plain().Symlink("e/f", "d/l")
			_ = low.Plain().Symlink("d", "k")
			o.remodel()
			o.setPlan(plan)
			if err := o.open(); err != nil {
				s.Fail("open", "%v", err)
				return
			}
			f = o.rw.FS
			v, err := o.fs.OpenRoot("d")
			if err != nil {
				s.Fail("open", "%v", err)
				return
			}
			sub = vroot.Widen[vroot.File](v)
		} else {
			opt := &synthfs.Option{DisableOpenFileRemoval: true}
			p := 0.0
			if faults {
				opt.Allocator = flakyViews{synthfs.NewMemAllocator(clock.RealWallClock()), s, &p}
			}
			r := synthfs.NewRoot("mem", opt)
			f = vroot.Widen[vroot.File](r)
			_ = r.MkdirAll("d/e", 0o755)
			_ = r.Mkdir("v", 0o755)
			p = []float64{0.05, 0.2, 0.4}[s.Draw(vsim.SCfg, 3)]
			for _, n := range files {
				if faults {
					v := &flakyView{synthfs.NewBytesView([]byte(n), 0o644, time.Time{}), s, p}
					if s.Draw(vsim.SOps, 2) == 0 {
						m, _ := synthfs.NewMemAllocator(clock.RealWallClock()).Allocate(n, 0o644)
						v.FileView = m
					}
					if err := r.AddFile(n, v, nil); err != nil {
						s.Fail("setup", "%v", err)
						return
					}
					continue
				}
				_ = fsop.WriteFile(f, n, []byte(n), 0o644)
			}
			_ = r.Symlink("f", "l")
			_ = r.Symlink("e/f", "d/l")
			_ = r.Symlink("d", "k")
			v, err := r.OpenRoot("d")
			if err != nil {
				s.Fail("open", "%v", err)
				return
			}
			sub = vroot.Widen[vroot.File](v)
		}
		started = true
		var clock int64
		tick := func() int64 { clock++; return clock }
		var hs []*protHandle
		resolve := func(n string) string {
			if n == "k" || strings.HasPrefix(n, "k/") {
				n = "d" + n[1:]
			}
			if t, ok := links[n]; ok {
				return t
			}
			return n
		}
		under := func(n, root string) bool { return n == root || strings.HasPrefix(n, root+"/") }
		// spell draws a way to name n: plainly, through a link, through the view
		spell := func(n string) (fsop.FS, string) {
			if strings.HasPrefix(n, "d/") {
				switch s.Draw(vsim.SOps, 4) {
				case 1:
					return sub, n[2:]
				case 2:
					return f, "k" + n[1:]
				}
			}
			return f, n
		}
		nt := 2 + s.Draw(vsim.SCfg, 3)
		for t := 0; t < nt; t++ {
			s.Go("u"+itoa(t), func() {
				var mine []*protHandle
				var open []vroot.File
				for k := 3 + s.Draw(vsim.SOps, 5); k > 0 && !s.Failed(); k-- {
					fired := plan.Fired
					switch s.Weighted(vsim.SOps, 5, 4, 5, 1) {
					case 0:
						n := append(append([]string{}, files...), "d", "d/e", "l", "d/l", "nope", "d/new", "v", "v")[s.Draw(vsim.SOps, len(files)+8)]
						flag := []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_TRUNC}[s.Draw(vsim.SOps, 6)]
						if n == "v" {
							flag = os.O_RDONLY // it stays a directory
						}
						if flag&os.O_CREATE != 0 && links[n] != "" {
							flag = os.O_RDWR // so that a link's name never becomes a file
						}
						v, p := spell(n)
						h := &protHandle{name: resolve(n), inv: tick(), opened: notYet, closeInv: notYet, closed: notYet}
						hs = append(hs, h)
						file, err := v.OpenFile(p, flag, 0o644)
						s.Logf("%s: open %s %s -> %v", s.CurName(), p, fsop.FlagStr(flag), err)
						if err != nil {
							h.failed, h.closed = true, tick()
							continue
						}
						h.opened = tick()
						mine, open = append(mine, h), append(open, file)
					case 1:
						if len(mine) == 0 {
							continue
						}
						i := s.Draw(vsim.SOps, len(mine))
						h := mine[i]
						if h.closeInv == notYet && !(faults && overlay) {
							// nobody may have taken it away
							if _, err := f.Lstat(h.name); err != nil {
								s.Fail("open-file-removed", "%s is gone while a handle on it is open: %v", h.name, err)
								return
							}
						}
						if h.closeInv == notYet {
							h.closeInv = tick()
						}
						err := open[i].Close()
						if h.closed == notYet {
							h.closed = tick()
						}
						s.Logf("%s: close %s -> %v", s.CurName(), h.name, err)
						if s.Draw(vsim.SOps, 3) > 0 { // else it will be closed again
							mine = append(mine[:i:i], mine[i+1:]...)
							open = append(open[:i:i], open[i+1:]...)
						}
					case 2, 3:
						all := overlay && s.Draw(vsim.SOps, 2) == 1
						n := append(append([]string{}, files...), "d", "d/e", "l", "d/new", "v", "v")[s.Draw(vsim.SOps, len(files)+6)]
						v, p := spell(n)
						// a removal takes the last component as it is
						dir, base := path.Split(n)
						full := path.Join(resolve(strings.TrimSuffix(dir, "/")), base)
						inv := tick()
						var err error
						_, had := f.Lstat(n)
						if all {
							err = v.RemoveAll(p)
						} else {
							err = v.Remove(p)
						}
						ret := tick()
						refused := err != nil && strings.Contains(err.Error(), "used by another process")
						s.Logf("%s: remove(all=%v) %s -> %v", s.CurName(), all, p, err)
						var sure []*protHandle
						var may []string
						for _, h := range hs {
							if !(h.name == full || all && under(h.name, full)) {
								continue
							}
							if h.opened < inv && h.closeInv > ret {
								sure = append(sure, h)
							}
							if h.inv < ret && h.closed > inv {
								may = append(may, h.name)
							}
						}
						switch {
						case err == nil && len(sure) > 0 && had == nil:
							s.Fail("open-file-removed", "removing %s succeeded while a handle on %s was open", full, sure[0].name)
							return
						case refused && len(may) == 0:
							s.Fail("refused-without-handle", "removing %s was refused as in use, but nothing could be open there", full)
							return
						case refused:
							s.Probe("refused")
							for _, h := range sure {
								if _, err := f.Lstat(h.name); err != nil && plan.Fired == fired && h.closeInv == notYet {
									s.Fail("refusal-changed", "after the refusal to remove %s, %s is gone: %v", full, h.name, err)
									return
								}
							}
						case err == nil:
							s.Probe("removed")
						}
					}
				}
				for i, h := range mine {
					if h.closeInv == notYet {
						h.closeInv = tick()
					}
					_ = open[i].Close()
					if h.closed == notYet {
						h.closed = tick()
					}
				}
			})
		}
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		plan.Off = true
		if o != nil && !o.noHandles("after every handle was closed") {
			return
		}
		// nothing is open any more: everything can be removed
		s.Go("end", func() {
			for _, n := range []string{"l", "d/l", "k", "f", "g", "d/new", "d/e/f", "d/f", "d/g", "d/e", "d", "v"} {
				if _, err := f.Lstat(n); err != nil {
					continue
				}
				if err := f.Remove(n); err != nil {
					s.Fail("refused-without-handle", "after every handle was closed, removing %s: %v", n, err)
					return
				}
			}
		})
		s.Run()
	}
}

func init() {
	doc := "2-4 tasks open (all flags, plainly, through links and through a sub-root), close, close again and remove 5 files and 3 directories, one of them empty; "
	register(&Check{Property: "P23", Quick: 150000, Thorough: 5000000,
		Parts: []Part{
			{&Scenario{Name: "overlay-protected-removal", Run: protRun(true, false), Doc: doc + "on an overlay, single and recursive removals"}, 3},
			{&Scenario{Name: "overlay-protected-removal-faults", Run: protRun(true, true), Doc: doc + "on an overlay whose layers and store fail"}, 2},
			{&Scenario{Name: "memfs-protected-removal", Run: protRun(false, false), Doc: doc + "on the in-memory file system, single removals"}, 1},
			{&Scenario{Name: "memfs-protected-removal-faults", Run: protRun(false, true), Doc: doc + "on the in-memory file system, single removals, over file views that cannot always be opened, truncated, closed or allocated"}, 1},
		},
		Real:        []string{"vroot-adapter/overlayfs", "vroot/synthfs", "vroot (prefix views, read-only views)", "fsutil (path resolution)"},
		Stub:        []string{"layer file systems (simulated disks)", "metadata store (simulated durable store)", "sync", "time"},
		Assumptions: []string{"handles are counted by the name they were opened under (documented), so nothing is renamed while open; the in-memory file system documents protection of single removals only"},
	})
}
