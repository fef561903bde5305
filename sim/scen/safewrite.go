package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

type (
	swOpt    = fsutil.SafeWriteOption[*simfs.Disk, vroot.File]
	swPolicy = fsutil.TempFilePolicy[*simfs.Disk, vroot.File]
)

type swWriter struct {
	id      int
	name    string
	how     int // 0 Write 1 Copy 2 CopyFs
	policy  swPolicy
	data    []byte
	tree    fstest.MapFS
	want    string // what the final name shows when in place
	sync    bool
	ignore  bool
	perCall bool
	hookErr int // 0 none, 1 pre, 2 post, 3 and 4 the same as options
	fail    int // where the content producer fails, -1 never
	pieces  []int

	started, done, ok bool
	visible, visErr   bool
	err               error
	failErr, closeErr error
	ran               []string // its hooks
}

// swShow renders what is at a final name.
func swShow(d *simfs.Disk, name string) string {
	p := d.Plain()
	i, err := p.Lstat(name)
	if err != nil {
		return "absent"
	}
	if !i.IsDir() {
		b, err := fsop.ReadFile(p, name)
		if err != nil {
			return "unreadable: " + err.Error()
		}
		return "file " + string(b)
	}
	t, err := fsop.Dump(p, name, fsop.DumpOpt{})
	if err != nil {
		return "unreadable: " + err.Error()
	}
	return "dir " + strings.ReplaceAll(t, name+"/", "")
}

func safeWrite(crash, multi bool) func(s *vsim.Sim) {
	return func(s *vsim.Sim) {
		s.Configure()
		d := simfs.New("disk")
		plan := &simfs.Plan{Sim: s, CloseLoses: true}
		d.Plan = plan
		_ = d.Mkdir("d", 0o755)
		long := strings.Repeat("名", 80) + "0123456789" // 250 bytes
		finals := []string{"f0", "d/f1", "d/" + long, "t0", "d/t1"}
		prev := map[string]string{}
		precious := map[string]string{}
		put := func(n string, b []byte) { _ = fsop.WriteFile(d.Plain(), n, b, 0o644) }
		for i, n := range finals {
			if s.Chance(vsim.SOps, 0.5) {
				if i < 3 {
					put(n, pattern(20+i, s.Draw(vsim.SOps, 30)))
				} else if s.Chance(vsim.SOps, 0.5) {
					_ = d.Plain().Mkdir(n, 0o755)
					if s.Chance(vsim.SOps, 0.5) {
						put(n+"/old", []byte("old"))
					}
				}
			}
			prev[n] = swShow(d, n)
		}
		put("keep.txt", []byte("keep"))
		_ = d.Plain().Mkdir("tmpd", 0o755)
		usePrecious := s.Chance(vsim.SOps, 0.5)
		if usePrecious {
			// names the generator is likely to come up with, already taken
			for _, n := range []string{"f0.0000000000.tmp", "f0.0000000001.tmp", "d/f1.0000000001.tmp", "tmpd/0000000000.tmp", "tmpd/0000000001.tmp", "d/f1.0000000000.tmp"} {
				if s.Chance(vsim.SOps, 0.6) {
					put(n, []byte("precious "+n))
					precious[n] = swShow(d, n)
				}
			}
			if s.Chance(vsim.SOps, 0.5) {
				_ = d.Plain().Mkdir("t0.0000000000.tmp", 0o755)
				put("t0.0000000000.tmp/x", []byte("precious"))
				precious["t0.0000000000.tmp"] = swShow(d, "t0.0000000000.tmp")
			}
		}
		nw := 1
		if multi {
			nw = 2 + s.Draw(vsim.SOps, 3)
		}
		if !usePrecious {
			// names that only resemble temporaries
			for _, n := range swAlike {
				if s.Chance(vsim.SOps, 0.3) {
					if i := strings.LastIndex(n, "/"); i > 0 {
						_ = d.Plain().MkdirAll(n[:i], 0o755)
					}
					put(n, []byte("precious "+n))
					precious[n] = swShow(d, n)
				}
			}
		}
		emptyDir := simfs.Model("empty")
		_ = emptyDir.Mkdir("w", 0o755)
		d.SyncAll()
		allSync := true
		var ws []*swWriter
		nn := 1 + s.Draw(vsim.SCfg, len(finals))
		for i := 0; i < nw; i++ {
			w := &swWriter{id: i, fail: -1}
			w.how = s.Weighted(vsim.SOps, 3, 3, 2)
			for {
				k := s.Draw(vsim.SOps, nn)
				w.name = finals[k]
				if w.how == 2 && k < 3 {
					w.name = finals[3+k%2]
				}
				if w.how != 2 && k >= 3 {
					w.name = finals[k-3]
				}
				break
			}
			switch s.Draw(vsim.SOps, 3) {
			case 1:
				w.policy = fsutil.NewTempFilePolicyDir[*simfs.Disk, vroot.File]([]string{"tmpd", ".tmp", "d/deep"}[s.Draw(vsim.SOps, 3)])
			case 2:
				w.policy = fsutil.NewTempFilePolicyRandom[*simfs.Disk, vroot.File]()
			}
			w.sync = s.Chance(vsim.SOps, 0.5)
			if !w.sync || w.how == 2 {
				allSync = false
			}
			w.perCall = s.Chance(vsim.SOps, 0.4)
			w.ignore = s.Chance(vsim.SOps, 0.2)
			if s.Chance(vsim.SOps, 0.2) {
				w.hookErr = 1 + s.Draw(vsim.SOps, 4)
			}
			n := s.Draw(vsim.SOps, 60)
			if s.Chance(vsim.SOps, 0.05) {
				n = 70000 + s.Draw(vsim.SOps, 3000)
			}
			w.data = pattern(i, n+1)
			if w.how == 2 {
				w.tree = fstest.MapFS{}
				w.tree["a"] = &fstest.MapFile{Data: pattern(i, s.Draw(vsim.SOps, 20)+1), Mode: 0o644}
				if s.Chance(vsim.SOps, 0.6) {
					w.tree["b/c"] = &fstest.MapFile{Data: pattern(i+5, s.Draw(vsim.SOps, 20)+1), Mode: 0o600}
				}
				m := simfs.Model("want")
				_ = m.MkdirAll("w/b", 0o755)
				_ = fsop.WriteFile(m, "w/a", w.tree["a"].Data, 0o644)
				if f := w.tree["b/c"]; f != nil {
					_ = fsop.WriteFile(m, "w/b/c", f.Data, 0o644)
				} else {
					_ = m.Remove("w/b")
				}
				w.want = swShow(m, "w")
			} else {
				w.want = "file " + string(w.data)
			}
			if s.Chance(vsim.SOps, 0.2) && w.how != 2 {
				w.fail = s.Draw(vsim.SOps, len(w.data)+1)
				w.failErr = sourceErr(s)
			}
			for k := s.Draw(vsim.SOps, 4); k > 0; k-- {
				w.pieces = append(w.pieces, 1+s.Draw(vsim.SOps, len(w.data)))
			}
			ws = append(ws, w)
		}
		// faults
		if s.Chance(vsim.SCfg, 0.7) {
			plan.Kinds = kinds("open", "create", "write", "close", "sync", "mkdir", "chmod", "rename", "stat", "lstat")
			plan.MeanGap = float64([]int{3, 8, 20}[s.Draw(vsim.SCfg, 3)])
			plan.Max = 1 + s.Draw(vsim.SCfg, 4)
			plan.ShortWrites = true
			if s.Chance(vsim.SCfg, 0.3) && !multi {
				plan.AfterEffect = true
				plan.Filter = func(op simfs.Op) bool { return true }
			}
			if s.Chance(vsim.SCfg, 0.3) {
				plan.Kinds["removeall"], plan.Kinds["remove"] = true, true
			}
		}
		cleanupMayFail := plan.Kinds["removeall"]
		if plan.AfterEffect {
			// creating and reporting failure: nobody can know the name
			plan.Kinds["create"], plan.Kinds["mkdir"] = false, false
		}
		if crash {
			plan.CrashMean = float64([]int{4, 10, 25}[s.Draw(vsim.SCfg, 3)])
		}
		power := crash && allSync && s.Chance(vsim.SCfg, 0.5)
		for _, w := range ws {
			w.sync = w.sync || power
		}
		last := map[string]string{}
		for _, n := range finals {
			last[n] = prev[n]
		}
		observe := func(err error) {
			for _, n := range finals {
				cur := swShow(d, n)
				if cur == last[n] {
					continue
				}
				s.Logf("%s now %s", short(n), short(cur))
				owner := (*swWriter)(nil)
				for _, w := range ws {
					if w.name == n && w.started && !w.done && w.want == cur {
						owner = w
					}
				}
				if owner == nil {
					s.Fail("partial-or-foreign-content", "final name %s shows %s: neither the previous content nor the complete content of a writer at work", short(n), short(cur))
					return
				}
				owner.visible, owner.visErr = true, err != nil
				last[n] = cur
			}
		}
		d.AfterOp = func(op simfs.Op, err error) {
			if op.Write {
				observe(err)
			}
		}
		d.CloseFailed = func(op simfs.Op, err error) {
			for _, w := range ws {
				if op.Write && s.CurName() == "w"+itoa(w.id) && w.closeErr == nil {
					w.closeErr = err
				}
			}
		}
		for _, w := range ws {
			s.Go("w"+itoa(w.id), func() {
				vsim.Yield(vsim.KOp, uint32(w.id))
				w.started = true
				if w.ignore {
					plan.CloseLoses = false // told not to care
				}
				s.Logf("w%d %s %s sync=%v ignoreClose=%v hookErr=%d fail=%d len=%d", w.id, []string{"write", "copy", "copyfs"}[w.how], short(w.name), w.sync, w.ignore, w.hookErr, w.fail, len(w.data))
				opt := swOpt{TempFilePolicy: w.policy, IgnoreCloseErr: w.ignore}
				type hook = func(f vroot.File, path string) error
				var pre, post []hook
				// each hook sees the temporary, at its place in the order
				watch := func(step string, h hook) hook {
					return func(f vroot.File, path string) error {
						w.ran = append(w.ran, step)
						if path != w.name {
							s.Fail("hook-misplaced", "writer %d: a hook of %s is told about %s", w.id, short(w.name), short(path))
						}
						if w.visible {
							s.Fail("hook-misplaced", "writer %d: hook %s runs after the content is at %s", w.id, step, short(w.name))
						}
						got, want := swShow(d, f.Name()), w.want
						if strings.HasPrefix(step, "pre") {
							if want = "file "; w.how == 2 {
								want = swShow(emptyDir, "w")
							}
						}
						if got != want {
							s.Fail("hook-misplaced", "writer %d: at hook %s the temporary %s shows %s", w.id, step, f.Name(), short(got))
						}
						if h != nil {
							return h(f, path)
						}
						return nil
					}
				}
				bad := errors.New("hook says no")
				says := func(n int) hook {
					if w.hookErr == n {
						return func(f vroot.File, path string) error { return bad }
					}
					return nil
				}
				opt.PreHooks = append(opt.PreHooks, watch("pre-option", says(3)))
				pre = append(pre, watch("pre-call", says(1)))
				post = append(make([]hook, 0, 4), watch("post", nil))
				if w.sync && w.perCall {
					post = append(post, fsutil.SyncHook[vroot.File])
				} else if w.sync {
					opt.PostHooks = append(opt.PostHooks, fsutil.SyncHook[vroot.File])
				}
				if w.hookErr == 2 {
					post = append(post, watch("bad", says(2)))
				}
				opt.PostHooks = append(opt.PostHooks, watch("last", says(4)))
				var err error
				switch w.how {
				case 0:
					err = opt.Write(d, w.name, func(dst io.Writer) error {
						b := w.data
						if w.fail >= 0 {
							b = b[:w.fail]
						}
						for _, n := range w.pieces {
							n = min(n, len(b))
							if k, err := dst.Write(b[:n]); err != nil || k < n {
								if err == nil {
									err = io.ErrShortWrite
								}
								return err
							}
							b = b[n:]
						}
						if len(b) > 0 {
							if _, err := dst.Write(b); err != nil {
								return err
							}
						}
						if w.fail >= 0 {
							return w.failErr
						}
						return nil
					}, 0o644, pre, post)
				case 1:
					var r io.Reader = &flakyReader{s: s, b: w.data, failAt: w.fail, err: w.failErr, eofAt: -1, short: true, withData: w.id%2 == 0, name: "src"}
					if len(w.pieces) == 0 && w.fail < 0 {
						r = bytes.NewReader(w.data)
					}
					err = opt.Copy(d, w.name, r, 0o600, pre, post)
				case 2:
					err = opt.CopyFs(d, w.name, w.tree, 0o755, pre, post)
				}
				if s.Dead() {
					return
				}
				w.done, w.ok, w.err = true, err == nil, err
				s.Logf("w%d done: %v", w.id, err)
				s.State(fmt.Sprint("w", w.how, err == nil))
				switch {
				case err != nil && plan.Fired == 0 && w.fail < 0 && w.hookErr == 0 && w.how != 2:
					s.Fail("fails-for-nothing", "writer %d of %s: nothing failed and the call reported %v", w.id, short(w.name), err)
				case err == nil && (w.fail >= 0 || w.hookErr > 0):
					s.Fail("error-swallowed", "writer %d: its content or hook failed and the call reported success", w.id)
				case err == nil && w.closeErr != nil && !w.ignore:
					s.Fail("error-swallowed", "writer %d: closing what it wrote failed (%v) and the call reported success", w.id, w.closeErr)
				case err == nil && strings.Join(w.ran, " ") != "pre-option pre-call post last":
					s.Fail("hook-misplaced", "writer %d reported success and ran the hooks %v", w.id, w.ran)
				case err == nil && !w.visible:
					s.Fail("success-not-in-place", "writer %d reported success but its content never appeared at %s", w.id, short(w.name))
				case err != nil && w.visible && !w.visErr:
					s.Fail("failure-in-place", "writer %d reported %v although its content took effect at %s", w.id, err, short(w.name))
				}
			})
		}
		crashed := life(s, d)
		if s.Failed() || s.Stuck != "" {
			return
		}
		if !crashed && crash {
			s.Probe("no-crash-point-reached")
		}
		if crashed {
			if power {
				d.PowerLoss(s)
				s.Probe("power-loss-with-sync")
			}
			for _, n := range finals {
				cur := swShow(d, n)
				if cur == last[n] {
					continue
				}
				ok := false
				for _, w := range ws {
					if w.name == n && w.started && !w.done && w.want == cur {
						ok = true
						s.Probe("crash-after-rename")
					}
				}
				if !ok {
					s.Fail("crash-broke-content", "after the crash %s shows %s; before it showed %s", short(n), short(cur), short(last[n]))
					return
				}
			}
		}
		for n, want := range precious {
			if got := swShow(d, n); got != want {
				s.Fail("foreign-file-touched", "%s was not created by a safe write and now shows %s", n, short(got))
				return
			}
		}
		if got := swShow(d, "keep.txt"); got != "file keep" {
			s.Fail("foreign-file-touched", "keep.txt shows %s", short(got))
			return
		}
		left := swLeft(d, finals, precious)
		if !crashed {
			if n := d.OpenHandles(); n != 0 {
				s.Fail("handle-leak", "%d handles left open: %v", n, d.OpenNames())
				return
			}
			if !cleanupMayFail && len(left) > 0 {
				s.Fail("temp-left", "temporary entries left behind: %v", left)
				return
			}
		}
		if len(left) > 0 && !usePrecious {
			s.Probe("leftover-swept")
			swSweep(s, d, ws, finals, precious)
		}
	}
}

func swLeft(d *simfs.Disk, finals []string, precious map[string]string) []string {
	dirs := map[string]bool{"tmpd": true, ".tmp": true, "d": true, "d/deep": true, "tmpdx": true, "tmpd/sub": true}
	skip := map[string]bool{"keep.txt": true}
	for _, f := range finals {
		skip[f] = true
	}
	for f := range precious {
		skip[f] = true
	}
	var out []string
	p := d.Plain()
	var walk func(dir string)
	walk = func(dir string) {
		ents, _ := fsop.ReadDir(p, dir)
		for _, e := range ents {
			n := e.Name()
			if dir != "." {
				n = dir + "/" + n
			}
			if dirs[n] {
				walk(n)
			} else if !skip[n] {
				out = append(out, n)
			}
		}
	}
	walk(".")
	sort.Strings(out)
	return out
}

// swAlike are names no temp policy comes up with.
var swAlike = []string{
	"f0.12345.tmp", "f0.12345678901.tmp", "f0.000000000x.tmp", ".0123456789.tmp", "f0.0123456789.tmp.bak", "f0.0123456789",
	"tmpdx/0123456789.tmp", "tmpd/note", "tmpd/012.tmp", "tmpd/x123456789.tmp", "tmpd/01234567890.tmp", "tmpd/sub/0123456789.tmp", "d/0123456789.tmp", "0123456789.tmp",
}

// swSweep runs the policies' own cleaning over what a crash left.
func swSweep(s *vsim.Sim, d *simfs.Disk, ws []*swWriter, finals []string, precious map[string]string) {
	before := map[string]string{}
	for _, n := range finals {
		before[n] = swShow(d, n)
	}
	p := d.Plain()
	seen := map[string]bool{}
	var pols []swPolicy
	for _, w := range ws {
		pol := w.policy
		if pol == nil {
			pol = fsutil.NewTempFilePolicyRandom[*simfs.Disk, vroot.File]()
		}
		if k := fmt.Sprintf("%T%v", pol, pol); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		pols = append(pols, pol)
		for _, n := range swAlike {
			if n != "tmpd/sub/0123456789.tmp" && pol.Match(n) {
				s.Fail("sweep-took-foreign", "%s is taken for a temporary of %+v", n, pol)
				return
			}
		}
	}
	sweep := func(d *simfs.Disk) error {
		for _, pol := range pols {
			if err := fs.WalkDir(vroot.ToIoFs(vroot.Fs[vroot.File](d)), ".", func(path string, e fs.DirEntry, err error) error {
				return pol.WalkFunc(d, path, e, err)
			}); err != nil {
				return err
			}
		}
		return nil
	}
	if s.Chance(vsim.SCfg, 0.4) {
		d.Plan = &simfs.Plan{Sim: s, Kinds: kinds("remove", "removeall", "readdir"), MeanGap: 3, Max: 1}
		s.Go("sweep", func() {
			err := sweep(d)
			s.Logf("sweep: %v", err)
			if left := swLeft(d, finals, precious); err == nil && len(left) > 0 {
				s.Fail("sweep-left", "cleaning reported success and left %v", left)
			}
		})
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		s.Probe("sweep-under-faults")
	}
	if err := sweep(p); err != nil {
		s.Fail("sweep-failed", "cleaning what a crash left: %v", err)
		return
	}
	if left := swLeft(d, finals, precious); len(left) > 0 {
		s.Fail("sweep-left", "temporary entries of a crashed writer are not recognised by its own policy: %v", left)
	}
	for _, n := range finals {
		if got := swShow(d, n); got != before[n] {
			s.Fail("sweep-took-final", "cleaning changed %s to %s", short(n), short(got))
		}
	}
	for _, n := range swAlike {
		if want, ok := precious[n]; ok {
			if got := swShow(d, n); got != want {
				s.Fail("sweep-took-foreign", "%s is no temporary; after cleaning it shows %s", n, short(got))
			}
		}
	}
	if got := swShow(d, "keep.txt"); got != "file keep" {
		s.Fail("sweep-took-final", "cleaning took keep.txt")
	}
}

func short(x string) string {
	if len(x) > 70 {
		return fmt.Sprintf("%s…(%d bytes)", x[:40], len(x))
	}
	return x
}

var (
	swSingle = &Scenario{Name: "safe-write-faults", Run: safeWrite(false, false),
		Doc: "one safe write (Write, Copy or CopyFs; both temp policies; hooks) with failing disk operations, short writes, failing content producers"}
	swCrash = &Scenario{Name: "safe-write-crash", Run: safeWrite(true, false),
		Doc: "one safe write cut by a process crash or power loss at any disk operation, then restart and sweep"}
	swMulti = &Scenario{Name: "safe-write-concurrent", Run: safeWrite(false, true),
		Doc: "2-4 concurrent safe writes to the same and different names, colliding temp names, failing disk operations"}
	swMultiCrash = &Scenario{Name: "safe-write-concurrent-crash", Run: safeWrite(true, true),
		Doc: "2-4 concurrent safe writes cut by a crash"}
)

func init() {
	real := []string{"fsutil (safe_write, open_random, copy_fs, bufpool)", "vroot.ToIoFs"}
	stub := []string{"disk (simfs)", "random names", "sync.Pool"}
	ass := []string{"directory operations are atomic and durable in order, as on a journalling file system", "power loss is simulated only for file writes that have the sync hook"}
	register(&Check{Property: "P01", Quick: 150000, Thorough: 6000000, Parts: []Part{{swSingle, 2}, {swCrash, 4}, {swMulti, 1}, {swMultiCrash, 2}}, Real: real, Stub: stub, Assumptions: ass})
	register(&Check{Property: "P02", Quick: 150000, Thorough: 6000000, Parts: []Part{{swSingle, 3}, {swMulti, 4}, {swMultiCrash, 1}, {swCrash, 1}}, Real: real, Stub: stub, Assumptions: ass})
}
