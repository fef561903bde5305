package scen

import (
	"errors"
	"io/fs"
	"path"
	"slices"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// wkEntry is one entry a walk is expected to reach.
type wkEntry struct {
	real     string // link-free path
	mode     fs.FileMode
	size     int64
	broken   bool // a link that leads nowhere
	again    bool // a directory that is its own ancestor by way of links
	optional bool // too many links on the way
}

// wkFollow counts the links on the way to name.
func wkFollow(d *simfs.Disk, name string) (links int) {
	comps := strings.Split(name, "/")
	cur := ""
	for len(comps) > 0 && links < 100 {
		c := comps[0]
		comps = comps[1:]
		if c == "" || c == "." {
			continue
		}
		if c == ".." {
			cur = path.Dir(cur)
			continue
		}
		next := path.Join(cur, c)
		if t, err := d.ReadLink(next); err == nil {
			links++
			comps = append(strings.Split(t, "/"), comps...)
			continue
		}
		cur = next
	}
	return links
}

// wkExpect lists what a walk from root reaches in a tree nobody touches.
func wkExpect(d *simfs.Disk, root string, resolve bool) map[string]wkEntry {
	out := map[string]wkEntry{}
	var rec func(p string, above []string)
	rec = func(p string, above []string) {
		if len(out) > 4000 {
			return
		}
		i, err := d.Lstat(p)
		if err != nil {
			return
		}
		e := wkEntry{mode: i.Mode(), size: i.Size()}
		if i.Mode()&fs.ModeSymlink != 0 && resolve {
			i, err = d.Stat(p)
			if err != nil {
				e.broken = true
				out[p] = e
				return
			}
			e.mode, e.size = i.Mode(), i.Size()
		}
		e.real, _ = d.Canonical(p, resolve)
		e.real = dot(e.real)
		if wkFollow(d, p) > 35 {
			e.optional = true
		}
		if e.mode.IsDir() {
			for _, a := range above {
				if a == e.real {
					e.again = true
				}
			}
		}
		out[p] = e
		if !e.mode.IsDir() || e.again || e.optional {
			return
		}
		es, _ := fsop.ReadDir(d, p)
		for _, c := range es {
			rec(path.Join(p, c.Name()), append(above[:len(above):len(above)], e.real))
		}
	}
	rec(root, nil)
	return out
}

type wkCall struct {
	path, real string
	info       fs.FileInfo
	err        error
	ret        error
}

var errWalkStop = errors.New("stop the walk")

// walkRun: a walk over a tree with links, while calls fail, other tasks change
// other entries, and the callback skips, stops or tolerates.
func walkRun(conc bool) func(s *vsim.Sim) {
	return func(s *vsim.Sim) {
		s.Configure()
		d := simfs.New("fs")
		p := d.Plain()
		dirs := []string{"."}
		var all []string
		nm := 2 + s.Draw(vsim.SOps, 12)
		names := []string{"a", "b", "c", "d"}
		for i := 0; i < nm; i++ {
			dir := dirs[s.Draw(vsim.SOps, len(dirs))]
			n := path.Join(dir, names[s.Draw(vsim.SOps, len(names))])
			if _, err := p.Lstat(n); err == nil {
				continue
			}
			switch s.Weighted(vsim.SOps, 4, 3, 4) {
			case 0:
				if len(dirs) > 6 {
					continue
				}
				_ = p.Mkdir(n, 0o755)
				dirs = append(dirs, n)
			case 1:
				_ = fsop.WriteFile(p, n, pattern(i, s.Draw(vsim.SOps, 9)), 0o644)
			case 2:
				up := strings.Repeat("../", strings.Count(n, "/"))
				t := "nowhere"
				switch s.Draw(vsim.SOps, 8) {
				case 0, 1, 2, 3:
					// anything there is, seen from the root
					t = up + "."
					if len(all) > 0 && s.Draw(vsim.SOps, 4) > 0 {
						t = up + all[s.Draw(vsim.SOps, len(all))]
					}
				case 4:
					t = names[s.Draw(vsim.SOps, len(names))]
				case 5:
					// by way of a link
					if len(all) > 0 {
						t = up + path.Join(all[s.Draw(vsim.SOps, len(all))], names[s.Draw(vsim.SOps, len(names))])
						if s.Draw(vsim.SOps, 3) == 0 {
							// and back up, from where it leads
							t = up + all[s.Draw(vsim.SOps, len(all))] + []string{"/../", "/..", "/./", "//", "/../../"}[s.Draw(vsim.SOps, 5)]
							if !strings.HasSuffix(t, "..") {
								t += names[s.Draw(vsim.SOps, len(names))]
							}
						}
					}
				case 6:
					t = "../" + up + "x"
				case 7:
					t = "/abs"
				}
				_ = p.Symlink(t, n)
			}
			all = append(all, n)
		}
		if s.Chance(vsim.SCfg, 0.04) {
			// more links side by side than one path may lead through
			_ = p.Mkdir("w", 0o755)
			_ = fsop.WriteFile(p, "w/f", nil, 0o644)
			for i := 0; i < 50; i++ {
				_ = p.Symlink([]string{"f", "k00"}[i%2], "w/k"+itoa(i/10)+itoa(i%10))
			}
		}
		if s.Chance(vsim.SCfg, 0.04) {
			// links one after another
			_ = p.MkdirAll("l/t/a", 0o755)
			n := 6 + s.Draw(vsim.SOps, 28)
			for i := 0; i <= n; i++ {
				to := "c" + itoa(i+1)
				if i == n {
					to = []string{"t", "../a", "nowhere"}[s.Draw(vsim.SOps, 3)]
				}
				_ = p.Symlink(to, "l/c"+itoa(i))
			}
			all = append(all, "l", "l/c0")
		}
		root := "."
		if len(all) > 0 && s.Draw(vsim.SOps, 3) == 0 {
			root = all[s.Draw(vsim.SOps, len(all))]
			if s.Draw(vsim.SOps, 3) == 0 && len(all) > 1 {
				r := path.Join(root, path.Base(all[s.Draw(vsim.SOps, len(all))]))
				if _, err := p.Lstat(r); err == nil {
					root = r
				}
			}
		}
		resolve := s.Draw(vsim.SOps, 3) > 0
		want := wkExpect(p, root, resolve)
		parent, _ := p.Canonical(path.Dir(root), true)
		rootReal := resolve || dot(parent) == path.Dir(root)
		s.Logf("tree:\n%s", p.Dump(simfs.DumpOpt{}))
		s.Logf("walk %q resolve %v", root, resolve)
		plan := &simfs.Plan{Sim: s}
		d.Plan = plan
		if s.Chance(vsim.SCfg, 0.6) {
			plan.Kinds = kinds("lstat", "stat", "open", "readdir", "readlink")
			plan.MeanGap = []float64{3, 10, 30}[s.Draw(vsim.SCfg, 3)]
			plan.Max = 1 + s.Draw(vsim.SCfg, 5)
		}
		skipP := []float64{0, 0, 0.1, 0.3}[s.Draw(vsim.SCfg, 4)]
		stopP := []float64{0, 0, 0.05}[s.Draw(vsim.SCfg, 3)]
		strict := s.Chance(vsim.SCfg, 0.15) // hand errors back
		var calls []wkCall
		var ret error
		ended := false
		s.Go("w", func() {
			ret = vroot.WalkDir[vroot.File](d, root, &vroot.WalkOption{ResolveSymlink: resolve}, func(p, r string, i fs.FileInfo, err error) error {
				vsim.Yield(vsim.KOp, 0xd7000000)
				c := wkCall{path: p, real: r, info: i, err: err}
				switch {
				case err != nil && strict:
					c.ret = err
				case s.Chance(vsim.SOps, skipP):
					c.ret = fs.SkipDir
				case s.Chance(vsim.SOps, stopP):
					c.ret = []error{fs.SkipAll, errWalkStop}[s.Draw(vsim.SOps, 2)]
				}
				calls = append(calls, c)
				s.Logf("fn %q real %q %v -> %v", p, r, err, c.ret)
				if len(calls) > 20000 {
					s.Fail("walk-endless", "the walk called back %d times over %d entries", len(calls), len(want))
					return errWalkStop
				}
				return c.ret
			})
			ended = true
			s.Logf("walk -> %v", ret)
		})
		if conc {
			// others work on entries of their own
			for t := 0; t < 1+s.Draw(vsim.SCfg, 2); t++ {
				s.Go("m"+itoa(t), func() {
					vs := []string{"v0", "v1", "a.v"}
					at := func() string {
						return path.Join(dirs[s.Draw(vsim.SOps, len(dirs))], vs[s.Draw(vsim.SOps, len(vs))])
					}
					for k := 2 + s.Draw(vsim.SOps, 20); k > 0 && !s.Failed(); k-- {
						n := at()
						vsim.Yield(vsim.KOp, 0xd7000001)
						switch s.Draw(vsim.SOps, 6) {
						case 0:
							_ = p.Mkdir(n, 0o755)
						case 1:
							if _, err := p.Lstat(path.Join(n, "v1")); err != nil {
								_ = fsop.WriteFile(p, path.Join(n, "v1"), nil, 0o644)
							}
						case 2:
							_ = p.RemoveAll(n)
						case 3:
							_ = p.Rename(n, at())
						case 4:
							_ = p.Symlink(strings.Repeat("../", strings.Count(n, "/"))+dirs[s.Draw(vsim.SOps, len(dirs))], n)
						case 5:
							if _, err := p.Lstat(n); err != nil {
								_ = fsop.WriteFile(p, n, nil, 0o644)
							}
						}
						vsim.Yield(vsim.KOp, 0xd7000002)
					}
				})
			}
		}
		s.Run()
		if s.Failed() {
			return
		}
		if !ended {
			s.Fail("walk-endless", "the walk did not end")
			return
		}
		for k, v := range map[string]int{"walk-of-many": len(calls) / 30} {
			if v > 0 {
				s.Probe(k)
			}
		}
		if d.OpenHandles() != 0 {
			s.Fail("handle-leak", "the walk left open %v", d.OpenNames())
			return
		}
		wkJudge(s, plan, want, calls, ret, root, rootReal, conc)
	}
}

func wkVolatile(p string) bool {
	for _, c := range strings.Split(p, "/") {
		if c == "v0" || c == "v1" || c == "a.v" {
			return true
		}
	}
	return false
}

func wkJudge(s *vsim.Sim, plan *simfs.Plan, want map[string]wkEntry, calls []wkCall, ret error, root string, rootReal, conc bool) {
	faulty := len(plan.Errs) > 0
	seen := map[string]int{}
	failed := map[string]bool{}
	var skipped func(p string) bool
	type skip struct {
		below, after string // skipped: below this directory; or in this directory
		err          bool
	}
	var skips []skip
	under := func(p, dir string) bool { return dir == "." && p != "." || strings.HasPrefix(p, dir+"/") }
	skipped = func(p string) bool {
		for _, k := range skips {
			if k.below != "" && under(p, k.below) || k.after != "" && under(p, k.after) {
				return true
			}
		}
		return false
	}
	// what lies behind (nearly) too many links may be reached or not
	beyond := func(p string) bool {
		for p != "." && p != "/" {
			p = path.Dir(p)
			if want[p].optional {
				return true
			}
		}
		return false
	}
	stopped := error(nil)
	stop := false
	for n, c := range calls {
		if stop {
			s.Fail("called-after-stop", "callback %d for %q after the callback had ended the walk", n, c.path)
			return
		}
		for _, k := range skips {
			if !k.err && k.below != "" && under(c.path, k.below) {
				s.Fail("skip-ignored", "callback for %q below %q, which was skipped", c.path, k.below)
				return
			}
			if !k.err && k.after != "" && path.Dir(c.path) == k.after {
				s.Fail("skip-ignored", "callback for %q although the rest of %q was skipped", c.path, k.after)
				return
			}
		}
		e, known := want[c.path]
		switch {
		case c.err != nil:
			failed[c.path] = true
			if !faulty && !conc && !e.broken && !e.optional && !beyond(c.path) {
				s.Fail("error-from-nowhere", "the callback got %v for %q although nothing failed", c.err, c.path)
				return
			}
		default:
			seen[c.path]++
			if seen[c.path] > 1 {
				s.Fail("visited-twice", "%q was visited twice", c.path)
				return
			}
			if c.info == nil {
				s.Fail("no-info", "no error and no information for %q", c.path)
				return
			}
			if known && !e.broken {
				if c.info.Mode() != e.mode || !c.info.IsDir() && c.info.Size() != e.size {
					s.Fail("wrong-info", "%q is %v of %d bytes, the callback got %v of %d bytes", c.path, e.mode, e.size, c.info.Mode(), c.info.Size())
					return
				}
				// below a root named by way of a link the real path is only as real as the root
				if c.real != e.real && rootReal {
					s.FailSig("wrong-real-path", "wrong-real-path", "the real path of %q is %q, the callback got %q", c.path, e.real, c.real)
					return
				}
			}
			if !known && !conc && !beyond(c.path) {
				s.Fail("visited-more", "%q was visited: there is no such entry, or only by going in circles", c.path)
				return
			}
			if !known && conc && !wkVolatile(c.path) && !beyond(c.path) {
				s.Fail("visited-more", "%q was visited: there is no such entry, or only by going in circles", c.path)
				return
			}
		}
		switch c.ret {
		case nil:
		case fs.SkipDir:
			k := skip{err: c.err != nil}
			if c.err == nil && c.info.IsDir() || c.err != nil && seen[c.path] > 0 {
				k.below = c.path
			} else {
				k.after = path.Dir(c.path)
			}
			if c.path != root || k.below != "" {
				skips = append(skips, k)
			} else {
				stop = true
			}
		case fs.SkipAll:
			stop = true
		default:
			stop, stopped = true, c.ret
		}
	}
	if ret != stopped {
		s.Fail("walk-result", "the walk returned %v, the callback %v", ret, stopped)
		return
	}
	if stop {
		return
	}
	for _, err := range plan.Errs {
		found := false
		for _, c := range calls {
			if c.err != nil && errors.Is(c.err, err) {
				found = true
			}
			// the entry changed and failed in its own way
			if pe := err.(*fs.PathError); conc && c.err != nil && pe.Path == c.path {
				found = true
			}
		}
		if !found {
			s.Fail("error-swallowed", "%v was never given to the callback", err)
			return
		}
	}
	for _, p := range sortedKeys(want) {
		e := want[p]
		if seen[p] > 0 || e.optional || e.again || skipped(p) {
			continue
		}
		excused := false
		for a, child := p, ""; ; a, child = path.Dir(a), path.Base(a) {
			// a listing that failed excuses what it had not given yet
			if failed[a] && !(seen[a] > 0 && child != "" && slices.Contains(plan.Listed[a], child)) {
				excused = true
			}
			if a == root || a == "." || a == "/" {
				break
			}
		}
		if !excused {
			s.Fail("not-visited", "%q was never visited although nothing on the way to it failed or was skipped", p)
			return
		}
	}
}

var walkQuiet = &Scenario{Name: "walk-faults", Run: walkRun(false),
	Doc: "a walk over a random tree with links (nested, dangling, escaping, cyclic), from a random root, with and without following; calls fail at random; the callback tolerates, skips, stops or hands errors back; every entry of an independent enumeration is visited once or excused by an error the callback got, and every failure reaches the callback"}

var walkConc = &Scenario{Name: "walk-concurrent", Run: walkRun(true),
	Doc: "the same while other tasks create, remove, rename and link other entries of the same directories: what exists throughout is visited exactly once"}

func init() {
	register(&Check{Property: "P25", Quick: 400000, Thorough: 40000000, Parts: []Part{{walkQuiet, 1}, {walkConc, 1}},
		Real: []string{"vroot (WalkDir, ReadDir)", "fsutil (ResolveSymlink)"},
		Stub: []string{"the file system walked (simulated disk)"}})
}
