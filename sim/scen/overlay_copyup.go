package scen

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// cuMark is one modification of a file: a region overwritten, a record
// appended, a mode set.
type cuMark struct {
	kind    string // region append mode
	off     int
	data    []byte
	mode    fs.FileMode
	invoked bool
	acked   bool
}

// cuFile is one lower file and everything ever done to it.
type cuFile struct {
	o     *ovl
	name  string
	dir   bool // an empty directory
	orig  []byte
	mode  fs.FileMode
	mtime time.Time
	marks []*cuMark
	// publications of a staged copy onto the name
	published int
	sizes     []int
}

func (f *cuFile) touched(kinds string) bool {
	for _, m := range f.marks {
		if m.invoked && strings.Contains(kinds, m.kind) {
			return true
		}
	}
	return false
}

// snap remembers what had been acknowledged when an observation began.
func (f *cuFile) snap() map[*cuMark]bool {
	acked := map[*cuMark]bool{}
	for _, m := range f.marks {
		if m.acked {
			acked[m] = true
		}
	}
	return acked
}

// judge says what is wrong with content observed by a reader that began when
// acked had been acknowledged.
func (f *cuFile) judge(b []byte, acked map[*cuMark]bool) string {
	if len(b) < len(f.orig) {
		return fmt.Sprintf("only %d of the %d original bytes", len(b), len(f.orig))
	}
	want := append([]byte{}, f.orig...)
	for _, m := range f.marks {
		if m.kind != "region" {
			continue
		}
		got := b[m.off : m.off+len(m.data)]
		if acked[m] {
			if bytes.Equal(got, f.orig[m.off:m.off+len(m.data)]) {
				return fmt.Sprintf("the acknowledged write at %d is lost", m.off)
			}
			copy(want[m.off:], m.data)
			continue
		}
		// a read is several calls: it may see a part of a write it overlaps
		for i := range got {
			if m.invoked && got[i] == m.data[i] {
				want[m.off+i] = got[i]
			}
		}
	}
	if !bytes.Equal(b[:len(want)], want) {
		for i := range want {
			if b[i] != want[i] {
				return fmt.Sprintf("byte %d is neither the original one nor one written", i)
			}
		}
	}
	tail := b[len(f.orig):]
	for _, m := range f.marks {
		if m.kind != "append" {
			continue
		}
		n := bytes.Count(tail, m.data)
		if n == 0 && acked[m] {
			return fmt.Sprintf("the acknowledged append %q is lost", m.data)
		}
		if n > 1 || n == 1 && !m.invoked {
			return fmt.Sprintf("append %q is there %d times", m.data, n)
		}
		tail = bytes.Replace(tail, m.data, nil, 1)
	}
	if len(tail) > 0 {
		return fmt.Sprintf("%d bytes nobody wrote at the end", len(tail))
	}
	return ""
}

func (f *cuFile) judgeInfo(i fs.FileInfo, acked map[*cuMark]bool) string {
	any, ok := false, i.Mode().Perm() == f.mode
	for _, m := range f.marks {
		if m.kind == "mode" {
			if acked[m] {
				any = true
			}
		}
	}
	if any {
		ok = false
	}
	for _, m := range f.marks {
		if m.kind == "mode" && m.invoked && i.Mode().Perm() == m.mode {
			ok = true
		}
	}
	if !ok {
		return fmt.Sprintf("mode is %v, originally %v", i.Mode(), f.mode)
	}
	if !f.touched("region append") && !i.ModTime().Equal(f.mtime) {
		return fmt.Sprintf("modification time is %v, originally %v, and nothing was written", i.ModTime(), f.mtime)
	}
	if i.IsDir() != f.dir {
		return fmt.Sprintf("it is %v", i.Mode())
	}
	if !f.dir && i.Size() < int64(len(f.orig)) {
		return fmt.Sprintf("size is %d, originally %d", i.Size(), len(f.orig))
	}
	return ""
}

func copyUpRun(faults, crash bool) func(s *vsim.Sim) {
	return func(s *vsim.Sim) {
		s.Configure()
		s.MaxSteps = 6_000_000
		o := &ovl{s: s}
		low, low2, top := simfs.New("low1"), simfs.New("low2"), simfs.New("top")
		o.layers = []*ovLayer{{d: top, canonical: true, m: newMarks()}, {d: low}, {d: low2}}
		// each lower is a base layer of directories, links and files
		var files []*cuFile
		dirs := []string{"", "d/", "d/e/"}
		nf := 1 + s.Draw(vsim.SOps, 3)
		for i := 0; i < nf; i++ {
			l := o.layers[1+s.Draw(vsim.SOps, 2)].d.Plain()
			dir := dirs[s.Draw(vsim.SOps, 3)]
			if dir != "" {
				_ = l.MkdirAll(strings.TrimSuffix(dir, "/"), 0o755)
				_ = l.Chmod(strings.TrimSuffix(dir, "/"), []fs.FileMode{0o755, 0o777, 0o700}[s.Draw(vsim.SOps, 3)])
			}
			f := &cuFile{name: dir + string(rune('f'+i))}
			n := []int{40, 100, 1000, 64 * 1024, 64*1024 + 1, 150_000}[s.Weighted(vsim.SOps, 4, 3, 2, 1, 1, 1)]
			f.orig = pattern(i, n)
			f.mode = []fs.FileMode{0o644, 0o600, 0o666, 0o777, 0o755}[s.Draw(vsim.SOps, 5)]
			f.mtime = time.Unix(1_000_000+int64(s.Draw(vsim.SOps, 1000)), int64(s.Draw(vsim.SOps, 2))*500).UTC()
			_ = fsop.WriteFile(l, f.name, f.orig, 0o644)
			_ = l.Chmod(f.name, f.mode)
			_ = l.Chtimes(f.name, f.mtime, f.mtime)
			files = append(files, f)
		}
		if s.Chance(vsim.SOps, 0.4) {
			l := o.layers[1+s.Draw(vsim.SOps, 2)].d.Plain()
			f := &cuFile{name: "xd", dir: true, mode: []fs.FileMode{0o755, 0o700, 0o777}[s.Draw(vsim.SOps, 3)], mtime: time.Unix(1_000_000, 0).UTC()}
			_ = l.Mkdir(f.name, 0o755)
			_ = l.Chmod(f.name, f.mode)
			_ = l.Chtimes(f.name, f.mtime, f.mtime)
			files = append(files, f)
		}
		// links as written, however untidy
		linkTo := []string{files[0].name, "./" + files[0].name, strings.ReplaceAll(files[0].name, "/", "//"), files[0].name + "", "./././" + files[0].name}[s.Draw(vsim.SOps, 5)]
		_ = low.Plain().Symlink(linkTo, "lnk")
		deadTo := []string{"nowhere//at/../all/", "d/../../up", ".", "x/", "a\\b/."}[s.Draw(vsim.SOps, 5)]
		_ = low2.Plain().Symlink(deadTo, "dead")
		for _, f := range files {
			f.o = o
		}
		dirModes := map[string]fs.FileMode{}
		p := top.Plain()
		_ = p.Mkdir("merged", 0o755)
		_ = p.Mkdir("work", 0o755)
		for _, l := range o.layers[1:] {
			l.d.Observe = func(op simfs.Op) {
				if op.Write {
					s.Fail("lower-modified", "%s %s on a lower", op.Kind, op.Path)
				}
			}
		}
		all := []*ovl{o}
		if s.Chance(vsim.SCfg, 0.3) {
			// another overlay over the same lowers, with the same policy
			o2 := &ovl{s: s, layers: []*ovLayer{{d: simfs.New("top2"), canonical: true, m: newMarks()}, o.layers[1], o.layers[2]}}
			_ = o2.top().d.Plain().Mkdir("merged", 0o755)
			_ = o2.top().d.Plain().Mkdir("work", 0o755)
			o2.remodel()
			for _, f := range files {
				c := *f
				c.o = o2
				files = append(files, &c)
			}
			all = append(all, o2)
			if s.Chance(vsim.SCfg, 0.5) {
				o.policy = overlayfs.NewCopyUpPolicyWork()
				o2.policy = o.policy
			}
		}
		o.remodel()
		disks := []*simfs.Disk{low, low2}
		for _, d := range []string{"d", "d/e"} {
			if i, err := o.model.Stat(d); err == nil {
				dirModes[d] = i.Mode().Perm()
			}
		}
		for _, o := range all {
			disks = append(disks, o.top().d)
			o.top().d.AfterOp = func(op simfs.Op, err error) {
				if op.Kind == "rename" && strings.HasPrefix(op.Path, "work/") {
					for _, f := range files {
						if f.o == o && op.Path2 == "merged/"+f.name {
							f.published++
							if f.published > 1 {
								s.Fail("copied-twice", "%s was copied up %d times", f.name, f.published)
							}
						}
					}
				}
			}
		}
		userWrite := func(op simfs.Op) bool {
			return (op.Kind == "write" || op.Kind == "writeat" || op.Kind == "close" && op.Write) && strings.HasPrefix(op.Path, "merged/")
		}
		lives := 1
		if crash {
			lives = 1 + s.Draw(vsim.SCfg, 3)
		}
		region := map[*cuFile]int{}
		id := 0
		for life_ := 0; life_ < lives; life_++ {
			open := false // a fault while opening is P19's business
			plan := &simfs.Plan{Sim: s}
			if faults {
				plan.Kinds = ovFaultKinds
				plan.MeanGap = []float64{4, 15, 50}[s.Draw(vsim.SCfg, 3)]
				plan.Max = 1 + s.Draw(vsim.SCfg, 8)
				plan.CloseLoses = true
				plan.ShortWrites, plan.AfterEffect = true, s.Chance(vsim.SCfg, 0.4)
				plan.Filter = func(op simfs.Op) bool { return open && !bestEffort(op) && !userWrite(op) }
			}
			if s.Chance(vsim.SCfg, 0.5) {
				plan.ShortReads = 0.3
			}
			if crash && life_ < lives-1 {
				plan.CrashMean = []float64{3, 10, 40}[s.Draw(vsim.SCfg, 3)]
				plan.CrashFilter = func(op simfs.Op) bool {
					return !userWrite(op) && (op.Write || s.Draw(vsim.SFault, 3) == 0)
				}
			}
			for _, o := range all {
				o.setPlan(plan)
			}
			tasks := 1 + s.Draw(vsim.SCfg, 4)
			observers := 1 + s.Draw(vsim.SCfg, 2)
			left := tasks
			s.Go("open", func() {
				for _, o := range all {
					if err := o.open(); err != nil {
						if !s.Dead() {
							s.Fail("open", "%v", err)
						}
						return
					}
				}
				open = !s.Dead()
			})
			ready := func() bool { return open || s.Dead() || s.Failed() }
			for t := 0; t < tasks; t++ {
				s.Go("mod"+itoa(t), func() {
					defer func() { left-- }()
					vsim.Block("open", ready)
					for k := 1 + s.Draw(vsim.SOps, 3); k > 0 && !s.Dead() && !s.Failed(); k-- {
						f := files[s.Draw(vsim.SOps, len(files))]
						o := f.o
						name := f.name
						if f == files[0] && s.Draw(vsim.SOps, 4) == 0 {
							name = "lnk"
						}
						id++
						fired := plan.Fired
						m := &cuMark{}
						var err error
						what := s.Weighted(vsim.SOps, 5, 4, 3, 2, 2, 1)
						if f.dir {
							what = 2 + 3*(what/5)
						}
						switch what {
						case 0: // overwrite a region of one's own
							off := region[f]
							if off+8 > len(f.orig) {
								continue
							}
							region[f] = off + 8
							m = &cuMark{kind: "region", off: off, data: []byte(fmt.Sprintf("<W%05d>", id))}
							f.marks = append(f.marks, m)
							m.invoked = true
							s.Logf("%s: overwrite %s at %d", s.CurName(), name, off)
							h, e := o.fs.OpenFile(name, os.O_RDWR, 0)
							if err = e; err == nil {
								_, err = h.WriteAt(m.data, int64(m.off))
								if e := h.Close(); err == nil {
									err = e
								}
							}
						case 1:
							m = &cuMark{kind: "append", data: []byte(fmt.Sprintf("<A%05d>", id))}
							f.marks = append(f.marks, m)
							m.invoked = true
							s.Logf("%s: append to %s", s.CurName(), name)
							h, e := o.fs.OpenFile(name, os.O_WRONLY|os.O_APPEND, 0)
							if err = e; err == nil {
								_, err = h.Write(m.data)
								if e := h.Close(); err == nil {
									err = e
								}
							}
						case 2:
							m = &cuMark{kind: "mode", mode: []fs.FileMode{0o640, 0o660, 0o606, 0o744}[s.Draw(vsim.SOps, 4)]}
							f.marks = append(f.marks, m)
							m.invoked = true
							s.Logf("%s: chmod %s %v", s.CurName(), name, m.mode)
							err = o.fs.Chmod(name, m.mode)
						case 3:
							s.Logf("%s: open %s for writing", s.CurName(), name)
							h, e := o.fs.OpenFile(name, []int{os.O_RDWR, os.O_WRONLY, os.O_RDWR | os.O_CREATE}[s.Draw(vsim.SOps, 3)], 0o600)
							if err = e; err == nil {
								err = h.Close()
							}
						case 4:
							s.Logf("%s: link %s", s.CurName(), f.name)
							err = o.fs.Link(f.name, "hard"+itoa(id))
						case 5:
							s.Logf("%s: lchown links", s.CurName())
							if err = o.fs.Lchown("lnk", 1, 1); err == nil {
								err = o.fs.Lchown("dead", 1, 1)
							}
						}
						if s.Dead() {
							return
						}
						if err == nil {
							m.acked = true
						} else if plan.Fired == fired && plan.Fired == 0 {
							s.Fail("refused", "modifying %s failed with nothing wrong underneath: %v", name, err)
						}
						s.Logf("%s: -> %v", s.CurName(), err)
					}
				})
			}
			for t := 0; t < observers; t++ {
				s.Go("obs"+itoa(t), func() {
					vsim.Block("open", ready)
					for k := 0; k < 6 && !s.Dead() && !s.Failed(); k++ {
						f := files[s.Draw(vsim.SOps, len(files))]
						fired := plan.Fired
						acked := f.snap()
						o := f.o
						if f.dir || s.Draw(vsim.SOps, 3) == 0 {
							i, err := o.fs.Stat(f.name)
							if s.Dead() {
								return
							}
							if err != nil {
								if plan.Fired == fired {
									s.Fail("unreadable", "stat %s: %v", f.name, err)
								}
								continue
							}
							if bad := f.judgeInfo(i, acked); bad != "" {
								s.Fail("unfaithful", "%s: %s", f.name, bad)
							}
						} else {
							h, err := o.fs.Open(f.name)
							var b []byte
							if err == nil {
								b, err = readAllFile(h)
								h.Close()
							}
							if s.Dead() {
								return
							}
							if err != nil {
								if plan.Fired == fired {
									s.Fail("unreadable", "reading %s: %v", f.name, err)
								}
								continue
							}
							if bad := f.judge(b, acked); bad != "" {
								s.Fail("unfaithful", "%s as read: %s", f.name, bad)
							}
						}
						if left == 0 && k < 4 {
							k = 4
						}
					}
				})
			}
			crashed := life(s, disks...)
			if s.Failed() || s.Stuck != "" {
				return
			}
			if crashed {
				s.Probe("crashed")
			} else if open {
				for _, o := range all {
					if !o.noHandles("after every task ended") {
						return
					}
				}
				excused := false
				for _, k := range plan.Hit {
					excused = excused || kinds("remove", "removeall", "open", "create", "mkdir")[k]
				}
				if !excused {
					for _, o := range all {
						if es, err := fsop.ReadDir(o.top().d.Plain(), "work"); len(es) > 0 || err != nil {
							s.Fail("staging-left", "after every task ended there is left under work/: %v %v", es, err)
							return
						}
					}
				}
			}
			plan.Off = true
			s.Go("check", func() {
				if !crashed && open {
					for _, f := range files {
						// no failure stands in the way of a later modification
						if !f.dir && s.Chance(vsim.SOps, 0.3) {
							id++
							m := &cuMark{kind: "append", data: []byte(fmt.Sprintf("<A%05d>", id)), invoked: true, acked: true}
							f.marks = append(f.marks, m)
							h, err := f.o.fs.OpenFile(f.name, os.O_WRONLY|os.O_APPEND, 0)
							if err == nil {
								_, err = h.Write(m.data)
								if e := h.Close(); err == nil {
									err = e
								}
							}
							if err != nil {
								s.Fail("refused", "modifying %s after the faults stopped: %v", f.name, err)
								return
							}
						}
					}
					for _, o := range all {
						if err := o.fs.Close(); err != nil {
							s.Fail("close", "%v", err)
							return
						}
					}
				}
				for _, o := range all {
					if err := o.open(); err != nil {
						s.Fail("reopen", "%v", err)
						return
					}
				}
				for _, f := range files {
					if !f.dir {
						b, err := fsop.ReadFile(f.o.rw.FS, f.name)
						if err != nil {
							s.Fail("lost", "%s at the end: %v", f.name, err)
							return
						}
						if bad := f.judge(b, f.snap()); bad != "" {
							s.Fail("unfaithful", "%s at the end: %s", f.name, bad)
							return
						}
					}
					i, err := f.o.fs.Stat(f.name)
					if err != nil {
						s.Fail("lost", "%s at the end: %v", f.name, err)
						return
					}
					if bad := f.judgeInfo(i, f.snap()); bad != "" {
						s.Fail("unfaithful", "%s at the end: %s", f.name, bad)
						return
					}
					if f.published > 0 {
						s.Probe("copied-up")
					}
				}
				for _, o := range all {
					for _, x := range [][2]string{{"lnk", linkTo}, {"dead", deadTo}} {
						to := x[1]
						if t, err := o.fs.ReadLink(x[0]); err != nil || t != to {
							s.Fail("unfaithful", "link target is %q (%v), was %q", t, err, to)
							return
						}
					}
					for _, d := range sortedKeys(dirModes) {
						mode := dirModes[d]
						if i, err := o.fs.Stat(d); err != nil || i.Mode().Perm() != mode {
							s.Fail("unfaithful", "directory %s is %v (%v), was %v", d, i, err, mode)
							return
						}
					}
					o.lowersSame()
					if err := o.fs.Close(); err != nil {
						s.Fail("close", "%v", err)
					}
				}
			})
			s.Run()
			s.Reap()
			if s.Failed() {
				return
			}
		}
	}
}

func readAllFile(h interface{ Read([]byte) (int, error) }) ([]byte, error) {
	var out []byte
	buf := make([]byte, 50_000)
	for {
		n, err := h.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if err.Error() == "EOF" {
				return out, nil
			}
			return out, err
		}
	}
}

func init() {
	doc := "1-4 tasks make the first modifications of 1-3 lower files (overwrite a region, append, chmod, open, link) of up to 150000 bytes in directories of two lowers, 1-2 observers read and stat them all along; "
	register(&Check{Property: "P20", Quick: 120000, Thorough: 1500000,
		Parts: []Part{
			{&Scenario{Name: "copy-up-concurrent", Run: copyUpRun(false, false), Doc: doc + "short reads"}, 2},
			{&Scenario{Name: "copy-up-faults", Run: copyUpRun(true, false), Doc: doc + "failing calls and short writes during the copy"}, 3},
			{&Scenario{Name: "copy-up-crash", Run: copyUpRun(false, true), Doc: doc + "crashes anywhere in the copy, then reopening"}, 3},
			{&Scenario{Name: "copy-up-faults-crash", Run: copyUpRun(true, true), Doc: doc + "both"}, 1},
		},
		Real:        []string{"vroot-adapter/overlayfs", "vroot (prefix views, read-only views)", "fsutil (path resolution)"},
		Stub:        []string{"layer file systems (simulated disks)", "metadata store (simulated durable store)", "sync", "time"},
		Assumptions: []string{"the layers keep modification times and modes; reflinks are not available"},
	})
}
