package scen

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"os"
	"path"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/clock"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

var errViewClosed = errors.New("content was released")

// heldView is content that must be released exactly once, and can be used up
// to then only.
type heldView struct {
	synthfs.FileView
	ext    *simfs.External // nil: a file the tree made
	name   string
	closed int
	bound  bool // has had a name
	w      *synthWorld
}

func (v *heldView) Open(flag int) (vroot.File, error) {
	vsim.Yield(vsim.KIO, 0xd4000001)
	if v.closed > 0 {
		return nil, errViewClosed
	}
	if err := v.w.flaky("view-open-error"); err != nil {
		return nil, err
	}
	return v.FileView.Open(flag)
}

func (v *heldView) Stat() (fs.FileInfo, error) {
	vsim.Yield(vsim.KIO, 0xd4000002)
	if v.closed > 0 {
		return nil, errViewClosed
	}
	if err := v.w.flaky("view-stat-error"); err != nil {
		return nil, err
	}
	return v.FileView.Stat()
}

func (v *heldView) Close() error {
	vsim.Yield(vsim.KIO, 0xd4000003)
	v.closed++
	if err := v.FileView.Close(); err != nil {
		return err
	}
	return v.w.flaky("view-close-error")
}

// heldViews makes every file of the tree a held view.
type heldViews struct {
	w  *synthWorld
	in synthfs.FileViewAllocator
}

func (a heldViews) Allocate(name string, perm fs.FileMode) (synthfs.FileView, error) {
	vsim.Yield(vsim.KIO, 0xd4000004)
	if err := a.w.flaky("view-allocate-error"); err != nil {
		return nil, err
	}
	v, err := a.in.Allocate(name, perm)
	if err != nil {
		return nil, err
	}
	h := &heldView{FileView: v, name: name, w: a.w}
	a.w.own = append(a.w.own, h)
	return h, nil
}

// plainFS shows a disk as the barest possible file system: no links, and files
// that can be read from front to back only.
type plainFS struct{ d *simfs.Disk }

type plainFile struct{ f vroot.File }

func (f plainFile) Stat() (fs.FileInfo, error) { return f.f.Stat() }
func (f plainFile) Read(b []byte) (int, error) { return f.f.Read(b) }
func (f plainFile) Close() error               { return f.f.Close() }

type plainDir struct{ plainFile }

func (f plainDir) ReadDir(n int) ([]fs.DirEntry, error) { return f.f.ReadDir(n) }

func (p plainFS) Open(name string) (fs.File, error) {
	f, err := p.d.Open(name)
	if err != nil {
		return nil, err
	}
	if i, err := p.d.Plain().Stat(name); err == nil && i.IsDir() {
		return plainDir{plainFile{f}}, nil
	}
	return plainFile{f}, nil
}

// fullFS offers everything.
type fullFS struct{ plainFS }

func (p fullFS) Open(name string) (fs.File, error)      { return p.d.Open(name) }
func (p fullFS) Stat(name string) (fs.FileInfo, error)  { return p.d.Stat(name) }
func (p fullFS) Lstat(name string) (fs.FileInfo, error) { return p.d.Lstat(name) }
func (p fullFS) ReadLink(name string) (string, error)   { return p.d.ReadLink(name) }

// synthSrc is one file system content comes from.
type synthSrc struct {
	d      *simfs.Disk
	fsys   fs.FS
	links  bool // it shows links as links
	seek   bool // its files can be read at any place
	files  []string
	exts   map[string]*simfs.External
	before string
}

func (x *synthSrc) ext(p string) *simfs.External {
	e := x.exts[p]
	if e == nil {
		d := x.d
		e = &simfs.External{Name: x.d.Name() + ":" + p, Get: func() ([]byte, error) { return fsop.ReadFile(d.Plain(), p) }}
		x.exts[p] = e
	}
	return e
}

// incoming is what the source shows at p now.
func (x *synthSrc) incoming(p string) *simfs.Incoming {
	d := x.d.Plain()
	in := &simfs.Incoming{Name: path.Base(p)}
	stat := d.Lstat
	if !x.links {
		stat = d.Stat
	}
	i, err := stat(p)
	if err != nil {
		in.Err = err
		return in
	}
	in.Mode, in.Size, in.Mtime = i.Mode(), i.Size(), i.ModTime()
	switch {
	case i.IsDir():
		ents, err := fsop.ReadDir(d, p)
		if err != nil {
			panic(err)
		}
		var names []string
		for _, e := range ents {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			in.Children = append(in.Children, x.incoming(path.Join(p, n)))
		}
	case i.Mode()&fs.ModeSymlink != 0:
		in.Link, _ = d.ReadLink(p)
		in.Mode = fs.ModeSymlink | 0o777
	default:
		in.Ext = x.ext(p)
	}
	return in
}

func count(in *simfs.Incoming) int {
	n := 1
	for _, c := range in.Children {
		n += count(c)
	}
	return n
}

// synthRule is a merge rule of the run.
type synthRule struct {
	name  string
	real  synthfs.AddFunc // nil: the default
	model simfs.Rule
}

type synthWorld struct {
	s     *vsim.Sim
	root  *synthfs.Root
	views []*synthfs.Root
	srcs  []*synthSrc
	plan  *simfs.Plan
	pView float64
	quiet bool
	fired int // flaky views that failed
	rules []synthRule
	held  []*heldView // given to AddFile, by content number
	items []synthItem
	own   []*heldView
	seen  *[]string // what merge rules were shown
}

type synthItem struct {
	view synthfs.FileView
	in   *simfs.Incoming
	err  bool // the view cannot be made
}

func (w *synthWorld) flaky(kind string) error {
	if w.quiet || w.pView == 0 || !w.s.Chance(vsim.SFault, w.pView) {
		return nil
	}
	w.fired++
	w.s.Fault(kind)
	return errSource
}

func (w *synthWorld) faults() int { return w.fired + w.plan.Fired }

func (w *synthWorld) still(fn func()) {
	q, o := w.quiet, w.plan.Off
	w.quiet, w.plan.Off = true, true
	fn()
	w.quiet, w.plan.Off = q, o
}

var errRule = errors.New("the rule says no")

func attrOf(e synthfs.AddEntry) *simfs.Attr {
	if e == nil {
		return nil
	}
	return &simfs.Attr{Mode: e.Info().Mode(), Size: e.Info().Size()}
}

func attrStr(a *simfs.Attr) string {
	if a == nil {
		return "none"
	}
	s := a.Mode.Type().String()
	if a.Mode&fs.ModeSymlink == 0 {
		s += fmt.Sprintf("%o", a.Mode.Perm())
	}
	if a.Mode.IsRegular() && a.Size < 0 {
		s += " ?"
	} else if a.Mode.IsRegular() {
		s += fmt.Sprintf(" %d bytes", a.Size)
	}
	return s
}

// drawn makes a rule out of what is documented about decisions: what it says
// depends on the place and on what is there.
func drawnRule(salt int) simfs.Rule {
	return func(p string, in simfs.Attr, ex *simfs.Attr) (simfs.Decision, error) {
		h := fnv.New32a()
		fmt.Fprintf(h, "%d %s %v", salt, p, ex != nil)
		switch k := h.Sum32() / 7 % 16; {
		case k < 5 || in.Mode.IsDir() && k < 7:
			return simfs.Keep, nil
		case k < 13:
			return simfs.Override, nil
		case k < 15:
			return simfs.Skip, nil
		}
		return simfs.Skip, errRule
	}
}

func docRule(both, other simfs.Decision, fail bool) simfs.Rule {
	return func(p string, in simfs.Attr, ex *simfs.Attr) (simfs.Decision, error) {
		switch {
		case ex == nil:
			return simfs.Override, nil
		case in.Mode.IsDir() && ex.Mode.IsDir():
			return both, nil
		case fail:
			return simfs.Skip, fs.ErrExist
		}
		return other, nil
	}
}

// mkRules: the rules the package has, and drawn ones.
func (w *synthWorld) mkRules() {
	watch := func(f synthfs.AddFunc) synthfs.AddFunc {
		return func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
			if w.seen != nil {
				*w.seen = append(*w.seen, in.Path()+": "+attrStr(attrOf(in))+" on "+attrStr(attrOf(ex)))
			}
			return f(in, ex)
		}
	}
	w.rules = []synthRule{
		{"default", nil, docRule(simfs.Keep, simfs.Override, false)},
		{"overwrite", watch(synthfs.MergeOverwrite), docRule(simfs.Keep, simfs.Override, false)},
		{"keep", watch(synthfs.MergeKeep), docRule(simfs.Keep, simfs.Keep, false)},
		{"fail", watch(synthfs.FailOnConflict), docRule(simfs.Keep, simfs.Override, true)},
		{"override", watch(func(_, _ synthfs.AddEntry) (synthfs.AddDecision, error) { return synthfs.AddDecisionOverride, nil }),
			func(string, simfs.Attr, *simfs.Attr) (simfs.Decision, error) { return simfs.Override, nil }},
	}
	for i := 0; i < 2; i++ {
		d := drawnRule(w.s.Draw(vsim.SCfg, 1000))
		w.rules = append(w.rules, synthRule{"drawn", watch(func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
			k, err := d(in.Path(), *attrOf(in), attrOf(ex))
			return map[simfs.Decision]synthfs.AddDecision{simfs.Skip: synthfs.AddDecisionSkip, simfs.Keep: synthfs.AddDecisionKeep, simfs.Override: synthfs.AddDecisionOverride}[k], err
		}), d})
	}
}

// mkSource builds a source.
func (w *synthWorld) mkSource(i int, names []string) *synthSrc {
	s := w.s
	x := &synthSrc{d: simfs.New("src" + itoa(i)), exts: map[string]*simfs.External{}}
	x.d.Plan = w.plan
	p := x.d.Plain()
	x.links, x.seek = true, true
	switch s.Draw(vsim.SCfg, 3) {
	case 0:
		x.fsys = fullFS{plainFS{x.d}}
	case 1:
		x.fsys = vroot.ToIoFs[vroot.File](x.d)
	default:
		x.fsys, x.links, x.seek = plainFS{x.d}, false, false
	}
	for k := 1 + s.Draw(vsim.SOps, 5); k > 0; k-- {
		at := names[s.Draw(vsim.SOps, len(names))]
		for s.Chance(vsim.SOps, 0.45) && strings.Count(at, "/") < 2 {
			at += "/" + names[s.Draw(vsim.SOps, len(names))]
		}
		if dir := path.Dir(at); dir != "." {
			if p.MkdirAll(dir, 0o755) != nil {
				continue
			}
		}
		switch s.Weighted(vsim.SOps, 6, 2, 2) {
		case 0:
			n := len(x.files)
			if err := fsop.WriteFile(p, at, pattern(10*i+n+1, s.Draw(vsim.SOps, 40)), []fs.FileMode{0o644, 0o600, 0o755, 0o444}[s.Draw(vsim.SOps, 4)]); err == nil {
				if s.Draw(vsim.SOps, 4) == 0 {
					_ = p.Chmod(at, 0o666)
				}
				if !slices.Contains(x.files, at) {
					x.files = append(x.files, at)
				}
			}
		case 1:
			if p.Mkdir(at, []fs.FileMode{0o755, 0o700}[s.Draw(vsim.SOps, 2)]) == nil && s.Draw(vsim.SOps, 2) == 0 {
				_ = p.Chmod(at, 0o777)
			}
		case 2:
			t := append([]string{"nope", "../out", "/abs", "."}, x.files...)
			if !x.links {
				t = append([]string{"nope"}, x.files...)
			}
			to := t[s.Draw(vsim.SOps, len(t))]
			if dir := path.Dir(at); dir != "." && slices.Contains(x.files, to) {
				to = strings.Repeat("../", 1+strings.Count(dir, "/")) + to
			}
			_ = p.Symlink(to, at)
		}
	}
	x.before = p.Dump(simfs.DumpOpt{Perm: true})
	s.Logf("source %d (links=%v seek=%v):\n%s", i, x.links, x.seek, x.before)
	return x
}

// addItem makes the content of one AddFile.
func (w *synthWorld) addItem() int {
	s := w.s
	n := len(w.items)
	data := pattern(100+n, s.Draw(vsim.SOps, 30))
	mode := []fs.FileMode{0o644, 0o600, 0o444, 0o775}[s.Draw(vsim.SOps, 4)]
	it := synthItem{in: &simfs.Incoming{Mode: mode, Mtime: time.Unix(int64(n), 0)}}
	var view synthfs.FileView = synthfs.NewBytesView(data, mode, time.Unix(int64(n), 0))
	name := "bytes"
	var x *synthSrc
	var from string
	switch s.Weighted(vsim.SOps, 4, 3, 0) {
	case 1:
		x = w.srcs[s.Draw(vsim.SOps, len(w.srcs))]
		if len(x.files) == 0 {
			break
		}
		from = x.files[s.Draw(vsim.SOps, len(x.files))]
		var err error
		w.still(func() { view, err = synthfs.NewFsView(x.fsys, from) })
		i, serr := x.d.Plain().Stat(from)
		if serr != nil {
			if err == nil {
				s.Fail("view-of-nothing", "a view of %s, which is gone, was made", from)
			}
			it.err = true
			break
		}
		if err != nil {
			s.Fail("view", "NewFsView %s: %v", from, err)
			return -1
		}
		name = x.d.Name() + ":" + from
		it.in.Mode, it.in.Mtime = i.Mode(), i.ModTime()
		data, _ = fsop.ReadFile(x.d.Plain(), from)
	}
	var lo, hi int
	ranged := false
	if !it.err && len(data) > 0 && (x == nil || x.seek) && s.Chance(vsim.SOps, 0.3) {
		lo = s.Draw(vsim.SOps, len(data))
		hi = lo + 1 + s.Draw(vsim.SOps, len(data)-lo)
		ranged = true
	}
	get := func() ([]byte, error) { return data, nil }
	if from != "" {
		get = func() ([]byte, error) { return fsop.ReadFile(x.d.Plain(), from) }
	}
	h := &heldView{FileView: view, w: w}
	view = h
	if ranged {
		var err error
		if s.Draw(vsim.SOps, 8) == 7 {
			// ranges that are none
			b := [...][2]int64{{-1, 1}, {-1, int64(hi)}, {int64(lo), 0}, {0, -1}, {int64(lo), -int64(hi)}}[s.Draw(vsim.SOps, 5)]
			w.still(func() { _, err = synthfs.NewRangedView(h, b[0], b[1]) })
			if err == nil {
				s.Fail("view", "a view of %d bytes at %d was made", b[1], b[0])
				return -1
			}
		}
		w.still(func() { view, err = synthfs.NewRangedView(h, int64(lo), int64(hi-lo)) })
		if err != nil {
			s.Fail("view", "NewRangedView: %v", err)
			return -1
		}
		whole := get
		get = func() ([]byte, error) {
			b, err := whole()
			if err != nil {
				return nil, err
			}
			return b[lo:hi], nil
		}
		name += fmt.Sprintf("[%d:%d]", lo, hi)
	}
	it.view = view
	it.in.Ext = &simfs.External{Name: name, Get: get}
	it.in.Ext.Name = fmt.Sprintf("#%d %s", n, name)
	h.ext, h.name = it.in.Ext, name
	w.items = append(w.items, it)
	w.held = append(w.held, h)
	s.Logf("content #%d: %s %v", n, name, it.in.Mode)
	return n
}

// custom runs the additions on the tree.
func (w *synthWorld) custom(f fsop.FS, op fsop.Op) (string, error) {
	r := w.root
	if op.View > 0 {
		r = w.views[op.View]
	}
	rule := w.rules[op.Off].real
	switch op.Kind {
	case "addfile":
		return "", r.AddFile(op.A, w.items[op.N].view, rule)
	case "addfs":
		return "", r.AddFS(op.A, w.srcs[op.N].fsys, rule)
	}
	panic(op.Kind)
}

// model runs them on the reference.
func (w *synthWorld) model(d *simfs.Disk, op fsop.Op, left int, seen *[]string) error {
	rule := func(p string, in simfs.Attr, ex *simfs.Attr) (simfs.Decision, error) {
		if seen != nil {
			*seen = append(*seen, p+": "+attrStr(&in)+" on "+attrStr(ex))
		}
		return w.rules[op.Off].model(p, in, ex)
	}
	if op.Kind == "addfile" {
		in := *w.items[op.N].in
		b, err := in.Ext.Get()
		if err != nil {
			return err
		}
		in.Size = int64(len(b))
		return d.Add(op.A, &in, false, rule, left)
	}
	return d.Add(op.A, w.srcs[op.N].incoming("."), true, rule, left)
}

func newSynthWorld(s *vsim.Sim, names []string) (*synthWorld, *simfs.Disk) {
	w := &synthWorld{s: s, plan: &simfs.Plan{Sim: s, Kinds: kinds("open", "read", "readat", "readdir", "stat", "lstat", "readlink", "fstat", "close")}}
	w.plan.Off, w.quiet = true, true
	w.root = synthfs.NewRoot("synth", &synthfs.Option{Allocator: heldViews{w, synthfs.NewMemAllocator(clock.RealWallClock())}})
	m := simfs.Model("model")
	m.Quirks = simfs.Quirks{NoCreateThroughLink: true, LinkFollows: true, LinkRenameReplaces: true}
	w.mkRules()
	for i := 0; i < 2; i++ {
		w.srcs = append(w.srcs, w.mkSource(i, names))
	}
	return w, m
}

// opPath draws where something is added.
func (w *synthWorld) opPath(g *fsop.Gen, whole bool) string {
	s := w.s
	if whole && s.Draw(vsim.SOps, 4) == 0 {
		return "."
	}
	p := g.Path()
	switch s.Draw(vsim.SOps, 12) {
	case 0:
		p += "/" + g.Names[s.Draw(vsim.SOps, len(g.Names))] + "/" + g.Names[s.Draw(vsim.SOps, len(g.Names))]
	case 1:
		p = []string{"..", "../x", "/x", p + "/", "./" + p, p + "/../" + g.Names[0]}[s.Draw(vsim.SOps, 6)]
	}
	return p
}

func (w *synthWorld) draw(g *fsop.Gen) fsop.Op {
	s := w.s
	op := fsop.Op{Kind: []string{"addfile", "addfs"}[s.Draw(vsim.SOps, 2)], Off: int64(s.Weighted(vsim.SOps, 3, 2, 4, 2, 2, 2, 2))}
	if g.Views > 0 && s.Chance(vsim.SOps, 0.25) {
		op.View = 1
	}
	op.A = w.opPath(g, op.Kind == "addfs")
	if n := g.Names[0]; s.Draw(vsim.SOps, 16) == 15 {
		// other ways to write a name, and names that are none
		op.A = [...]string{".", "", "./", n + "/..", "./" + op.A, n + "/../" + op.A, op.A + "/", op.A + "/.", "/" + op.A, "..", "../" + op.A, n + "/../../" + op.A}[s.Draw(vsim.SOps, 12)]
	}
	if op.Kind == "addfile" {
		op.N = w.addItem()
		if op.N < 0 || w.items[op.N].err {
			return g.Next()
		}
	} else {
		op.N = s.Draw(vsim.SOps, len(w.srcs))
	}
	if g.Plan != nil && op.View == 0 {
		_ = w.model(g.Plan.FS.(*simfs.Disk), op, -1, nil)
	}
	return op
}

// released checks that content is released when its last name goes, not before
// and not twice.
func (w *synthWorld) released(m *simfs.Disk, concurrent bool) (err error) {
	names, own := m.Names()
	defer func() {
		for _, h := range w.held {
			h.bound = h.bound || err == nil && names[h.ext] > 0
		}
	}()
	for i, h := range w.held {
		n := names[h.ext]
		switch {
		case h.closed > 0 && n == 0 && !h.bound && !concurrent:
			return fmt.Errorf("content #%d (%s) was released without having been taken", i, h.name)
		case h.closed == 0 && h.bound && n == 0:
			return fmt.Errorf("content #%d (%s) is held after its last name is gone", i, h.name)
		case n > 0 && h.closed > 0:
			return fmt.Errorf("content #%d (%s) was released with %d names left", i, h.name, n)
		case h.closed > 1:
			return fmt.Errorf("content #%d (%s) was released %d times", i, h.name, h.closed)
		}
	}
	open := 0
	for _, h := range w.own {
		if h.closed > 1 {
			return fmt.Errorf("the content of a file made as %s was released %d times", h.name, h.closed)
		}
		if h.closed == 0 {
			open++
		}
	}
	if open != own {
		return fmt.Errorf("%d files have content of their own, %d are held", own, open)
	}
	return nil
}

var synthMix = []fsop.KW{{"lstat", 2}, {"stat", 2}, {"readfile", 3}, {"list", 2}, {"mkdir", 2}, {"mkdirall", 2}, {"rename", 6}, {"remove", 4}, {"removeall", 3},
	{"link", 5}, {"symlink", 3}, {"readlink", 1}, {"writefile", 3}, {"open", 5}, {"readfull", 4}, {"readat", 3}, {"seek", 2}, {"fstat", 4}, {"write", 2}, {"close", 2}, {"chmod", 2}, {"chtimes", 1}, {"truncate", 1}, {"closeprobe", 1}, {"createwrite", 1}, {"setowner", 1}, {"setlowner", 1}, {"fsetowner", 1}, {"fchmod", 1}, {"writeat", 1}, {"appendfile", 1}}

func (w *synthWorld) mix(s *vsim.Sim) []fsop.KW {
	mix := append([]fsop.KW{}, synthMix...)
	links := s.Chance(vsim.SCfg, 0.5)
	for i := range mix {
		if i > 0 && s.Chance(vsim.SCfg, 0.25) {
			mix[i].W = 0
		}
		if mix[i].Kind == "link" && !links || (mix[i].Kind == "chmod" || mix[i].Kind == "fchmod" || mix[i].Kind == "chtimes") && links {
			mix[i].W = 0 // attributes are copied when a link is made
		}
	}
	return mix
}

// synthAssemble: a tree is put together out of sources, with ordinary changes in
// between and sources that fail, change and vanish.
var synthAssemble = &Scenario{
	Name: "synth-assembly",
	Doc:  "4-14 operations on a tree assembled from two file systems and from single contents (bytes, files, ranges) under the package's merge rules and drawn ones, with ordinary changes, hard links, handles and a sub-root, while sources fail, are replaced and vanish; results, tree, what rules were shown, and releases compared with a reference after every call",
	Run: func(s *vsim.Sim) {
		s.Configure()
		names := drawNames(s)[:2+s.Draw(vsim.SCfg, 2)]
		w, m := newSynthWorld(s, names)
		rw := fsop.NewWorld(vroot.Widen[vroot.File](w.root))
		rw.Custom = w.custom
		ms := fsop.NewModelState(m)
		ms.Custom = func(d *simfs.Disk, op fsop.Op) (string, error) { return "", w.model(d, op, -1, nil) }
		g := fsop.NewGen(s, names, 3, w.mix(s), nil)
		g.Flags = []int{os.O_RDONLY, os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_WRONLY | os.O_APPEND}
		g.WholeDirs = true
		faulty := s.Chance(vsim.SCfg, 0.75)
		if faulty {
			w.plan.MeanGap = []float64{4, 15, 40}[s.Draw(vsim.SCfg, 3)]
			w.plan.Max = 1 + s.Draw(vsim.SCfg, 8)
			w.plan.ShortReads = []float64{0, 0.3}[s.Draw(vsim.SCfg, 2)]
			w.pView = []float64{0, 0.03, 0.15}[s.Draw(vsim.SCfg, 3)]
		}
		adds := []float64{0.25, 0.4, 0.6}[s.Draw(vsim.SCfg, 3)]
		for _, x := range w.srcs {
			x.d.Observe = func(op simfs.Op) {
				if op.Write {
					s.Fail("source-changed", "%s %s on a source", op.Kind, op.Path)
				}
			}
		}
		if s.Chance(vsim.SCfg, 0.003) {
			seedFar(s, g, rw, fsop.NewWorld(ms.Disk))
		}
		lost := map[int]bool{} // handles whose place is not known any more
		s.Go("t", func() {
			step := 0
			for k := 4 + s.Draw(vsim.SOps, 11); k > 0 && !s.Failed(); k-- {
				step++
				// a source moves on
				if s.Chance(vsim.SOps, 0.12) {
					x := w.srcs[s.Draw(vsim.SOps, len(w.srcs))]
					if len(x.files) > 0 {
						f := x.files[s.Draw(vsim.SOps, len(x.files))]
						p := x.d.Plain()
						old, err := fsop.ReadFile(p, f)
						if s.Draw(vsim.SOps, 2) == 0 {
							_ = p.Remove(f)
							s.Faults["source-file-vanishes"]++
							s.Logf("source %s loses %s", x.d.Name(), f)
						} else if err == nil {
							b := pattern(200+step, len(old)+s.Draw(vsim.SOps, 8))
							_ = p.Remove(f)
							_ = fsop.WriteFile(p, f, b, 0o644)
							s.Faults["source-file-replaced"]++
							s.Logf("source %s replaces %s", x.d.Name(), f)
						}
						x.before = p.Dump(simfs.DumpOpt{Perm: true})
					}
				}
				if len(w.views) == 0 && s.Chance(vsim.SOps, 0.1) {
					d := names[0]
					if i, err := m.Lstat(d); err == nil && i.IsDir() {
						v, err := w.root.OpenRoot(d)
						if err != nil {
							s.Fail("openroot", "OpenRoot of an existing directory: %v", err)
							return
						}
						w.views = []*synthfs.Root{nil, v}
						rw.Views = []fsop.FS{nil, vroot.Widen[vroot.File](v)}
						ms.Disk.AddView(1, d)
						g.Views = 1
						s.Logf("view 1 on %s", d)
					}
				}
				g.Plan = fsop.NewWorld(ms.Disk.Clone())
				var op fsop.Op
				if s.Chance(vsim.SOps, adds) {
					op = w.draw(g)
				} else {
					op = g.Next()
				}
				if s.Failed() {
					return
				}
				if lost[op.H] && rw.H[op.H] != nil && op.Kind != "close" && op.Kind != "open" {
					continue
				}
				if h := ms.H[op.H]; op.Kind == "seek" && h != nil {
					if i, err := h.Stat(); err == nil && i.IsDir() {
						continue // only rewinding means something there
					}
				}
				before := ms.Clone()
				var shown, want []string
				w.seen = &shown
				fired := w.faults()
				w.quiet, w.plan.Off = !faulty, !faulty
				res := rw.Do(op)
				w.quiet, w.plan.Off = true, true
				w.seen = nil
				s.Logf("%s -> %s %v", op, res, res.Err)
				s.State(op.Kind + res.Class)
				hit := w.faults() != fired
				isAdd := op.Kind == "addfile" || op.Kind == "addfs"
				var model fsop.Result
				if isAdd {
					d := ms.Disk
					if op.View > 0 {
						d = d.View(op.View)
					}
					err := w.model(d, op, -1, &want)
					model = fsop.Result{Class: fsop.Class(err)}
				} else {
					model = ms.Do(op)
				}
				dump := func() string {
					var d string
					w.still(func() { d, _ = fsop.Dump(rw.FS, ".", fsop.DumpOpt{Perm: true, Tolerant: true}) })
					return d
				}
				mdump := func(d *simfs.Disk) string {
					x, _ := fsop.Dump(d, ".", fsop.DumpOpt{Perm: true, Tolerant: true})
					return x
				}
				switch {
				case hit && res.Class != "ok" && res.Class != "EOF":
					s.Probe("fault-reported")
					if op.Kind == "close" {
						break
					}
					if h := rw.H[op.H]; h != nil && strings.Contains("readfull readat seek fstat write truncate", op.Kind) {
						lost[op.H] = true
						break
					}
					// it did nothing, or an addition got part of the way
					after := ms
					got := dump()
					watched := op.Kind == "addfs" && w.rules[op.Off].real != nil
					var cands []*fsop.ModelState
					if !watched {
						cands = append(cands, before)
					}
					if op.Kind != "addfs" && model.Class != "ok" {
						cands = append(cands, after)
					}
					if op.Kind == "addfs" {
						from, to := 0, count(w.srcs[op.N].incoming("."))
						if watched {
							// what was asked took place, except perhaps the last
							from, to = len(shown), len(shown)
							if from > 0 && !strings.Contains(shown[from-1], ": d") {
								from--
							}
						}
						for n := from; n <= to; n++ {
							c := before.Clone()
							d := c.Disk
							if op.View > 0 {
								d = d.View(op.View)
							}
							_ = w.model(d, op, n, nil)
							cands = append(cands, c)
						}
					}
					// of those that look alike, one must account for what was released
					fits, key := false, ""
					for _, c := range cands {
						if got != mdump(c.Disk) {
							continue
						}
						if !fits {
							fits, ms = true, c
						}
						if w.released(c.Disk, false) != nil {
							continue
						}
						switch k := c.Key(false); {
						case key == "":
							key, ms = k, c
						case k != key:
							// only what comes later would tell which of them it is
							s.Probe("ambiguous")
							return
						}
					}
					if !fits {
						s.Fail("failed-operation-changed", "%s failed with %v and left\n%sbefore:\n%swhole:\n%s", op, res.Err, got, mdump(before.Disk), mdump(after.Disk))
						return
					}
					s.Probe("partial-addition")
				case op.Kind == "readat" && errors.Is(res.Err, vroot.ErrOpNotSupported) || op.Kind == "seek" && errors.Is(res.Err, vroot.ErrOpNotSupported):
					// some sources cannot be read at any place
					ms = before
				case isAdd:
					if (res.Class == "ok") != (model.Class == "ok") {
						s.Fail("result", "%s: %v, expected %s", op, res.Err, model.Class)
						return
					}
					if !hit && w.rules[op.Off].real != nil && !strings.Contains(strings.Join(want, ""), "?") && strings.Join(shown, "\n") != strings.Join(want, "\n") {
						s.Fail("rule-shown", "%s showed the rule\n%s\nexpected\n%s", op, strings.Join(shown, "\n"), strings.Join(want, "\n"))
						return
					}
				default:
					if !sameErr(op, res, model) {
						s.Fail("result", "%s -> %s (%v), expected %s", op, res, res.Err, model)
						return
					}
				}
				m = ms.Disk
				if got, want := dump(), mdump(ms.Disk); got != want {
					s.Fail("tree", "after %s:\n%sexpected:\n%s", op, got, want)
					return
				}
				for _, x := range ms.Disk.Stamps() {
					var i fs.FileInfo
					var err error
					w.still(func() { i, err = rw.FS.Lstat(x.Path) })
					if err == nil && !i.ModTime().Equal(x.Time) {
						s.Fail("time", "after %s: %s is of %v, was given %v", op, x.Path, i.ModTime(), x.Time)
						return
					}
					if step%4 != 0 || err != nil || !i.Mode().IsRegular() {
						continue
					}
					w.still(func() {
						var f vroot.File
						if f, err = rw.FS.Open(x.Path); err == nil {
							i, err = f.Stat()
							f.Close()
						}
					})
					if err == nil && !i.ModTime().Equal(x.Time) {
						s.Fail("time", "after %s: %s opened is of %v, was given %v", op, x.Path, i.ModTime(), x.Time)
						return
					}
				}
				if err := w.released(ms.Disk, false); err != nil {
					s.Fail("released", "after %s: %v", op, err)
					return
				}
			}
			for _, h := range rw.H {
				if err := h.Close(); err != nil && !errors.Is(err, fs.ErrClosed) {
					s.Fail("close", "closing a handle: %v", err)
					return
				}
			}
			for _, x := range w.srcs {
				if n := x.d.OpenHandles(); n > 0 {
					s.Fail("source-handle-leak", "%d handles on %s are open after every handle was closed: %v", n, x.d.Name(), x.d.OpenNames())
					return
				}
				if d := x.d.Plain().Dump(simfs.DumpOpt{Perm: true}); d != x.before {
					s.Fail("source-changed", "%s was\n%sand is\n%s", x.d.Name(), x.before, d)
					return
				}
			}
			if s.Chance(vsim.SOps, 0.3) {
				w.archive(ms.Disk, faulty)
			}
			if s.Failed() {
				return
			}
			// everything goes, and with it what is held
			ents, err := fsop.ReadDir(rw.FS, ".")
			if err != nil {
				s.Fail("tree", "listing the root: %v", err)
				return
			}
			for _, e := range ents {
				if err := w.root.RemoveAll(e.Name()); err != nil {
					s.Fail("result", "RemoveAll(%s): %v", e.Name(), err)
					return
				}
				_ = ms.Disk.RemoveAll(e.Name())
			}
			if err := w.released(ms.Disk, false); err != nil {
				s.Fail("released", "after everything was removed: %v", err)
				return
			}
		})
		s.Run()
	},
}

// archive writes the tree into a tar archive, the use the package is made for.
func (w *synthWorld) archive(m *simfs.Disk, faulty bool) {
	s := w.s
	want := map[string]string{}
	var bad bool
	var walk func(p string)
	walk = func(p string) {
		ents, err := fsop.ReadDir(m, p)
		if err != nil {
			bad = true
			return
		}
		for _, e := range ents {
			c := path.Join(p, e.Name())
			i, err := m.Lstat(c)
			if err != nil {
				bad = true
				return
			}
			switch {
			case i.IsDir():
				want[c] = fmt.Sprintf("dir %o", i.Mode().Perm())
				walk(c)
			case i.Mode()&fs.ModeSymlink != 0:
				t, _ := m.ReadLink(c)
				want[c] = "link " + t
			default:
				b, err := fsop.ReadFile(m, c)
				if err != nil {
					bad = true
					return
				}
				want[c] = fmt.Sprintf("file %o %s", i.Mode().Perm(), fsop.Digest(b))
			}
		}
	}
	walk(".")
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	fired := w.faults()
	w.quiet, w.plan.Off = !faulty, !faulty
	err := tw.AddFS(vroot.ToIoFsRoot[vroot.File](w.root))
	w.quiet, w.plan.Off = true, true
	s.Logf("archive -> %v", err)
	if err != nil {
		if !bad && w.faults() == fired {
			s.Fail("archive", "writing the tree into an archive: %v", err)
		}
		return
	}
	if bad {
		s.Fail("archive", "writing an archive succeeded though a source has vanished")
		return
	}
	_ = tw.Close()
	got := map[string]string{}
	tr := tar.NewReader(&buf)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			s.Fail("archive", "reading the archive back: %v", err)
			return
		}
		n := strings.TrimSuffix(h.Name, "/")
		switch h.Typeflag {
		case tar.TypeDir:
			got[n] = fmt.Sprintf("dir %o", h.Mode&0o777)
		case tar.TypeSymlink:
			got[n] = "link " + h.Linkname
		default:
			b, _ := io.ReadAll(tr)
			got[n] = fmt.Sprintf("file %o %s", h.Mode&0o777, fsop.Digest(b))
		}
	}
	delete(got, ".")
	for n, x := range want {
		if got[n] != x {
			s.Fail("archive", "%s is %q in the archive, expected %q", n, got[n], x)
			return
		}
	}
	for n := range got {
		if want[n] == "" {
			s.Fail("archive", "%s is in the archive and not in the tree", n)
			return
		}
	}
	s.Probe("archived")
}

var synthConcMix = []fsop.KW{{"lstat", 2}, {"stat", 2}, {"mkdir", 2}, {"mkdirall", 2}, {"rename", 4}, {"remove", 3}, {"removeall", 3}, {"link", 3}, {"symlink", 2},
	{"open", 4}, {"readat", 4}, {"fstat", 3}, {"readdir", 1}, {"close", 1}, {"chmod", 2}}

// synthConc: additions race with each other and with ordinary changes.
var synthConc = &Scenario{
	Name: "synth-assembly-concurrent",
	Doc:  "2-3 tasks add files and file systems to one tree under the package's and drawn rules, directly and through a sub-root, while they change, open and read it, preempted at every statement; results and final tree checked for linearizability, releases against the final tree",
	Run: func(s *vsim.Sim) {
		s.Configure()
		names := drawNames(s)[:2]
		w, m := newSynthWorld(s, names)
		rw := fsop.NewWorld(vroot.Widen[vroot.File](w.root))
		rw.Custom = w.custom
		ms := fsop.NewModelState(m)
		ms.Custom = func(d *simfs.Disk, op fsop.Op) (string, error) { return "", w.model(d, op, -1, nil) }
		mix := append([]fsop.KW{}, synthConcMix...)
		links := s.Chance(vsim.SCfg, 0.5)
		for i := range mix {
			if i > 0 && s.Chance(vsim.SCfg, 0.25) || mix[i].Kind == "link" && !links || (mix[i].Kind == "chmod" || mix[i].Kind == "fchmod") && links {
				mix[i].W = 0
			}
		}
		root := fsop.NewGen(s, names, 3, mix, nil)
		setup := func(op fsop.Op) bool {
			a, b := rw.Do(op), ms.Do(op)
			s.Logf("setup %s -> %s / %s", op, a, b)
			if !sameErr(op, a, b) {
				s.Fail("setup", "%s: %s (%v), expected %s", op, a, a.Err, b)
			}
			return !s.Failed()
		}
		root.Plan = fsop.NewWorld(ms.Disk)
		for k := s.Draw(vsim.SOps, 4); k > 0; k-- {
			if s.Draw(vsim.SOps, 2) == 0 {
				d := ms.Disk.Clone()
				root.Plan = fsop.NewWorld(d)
				if op := w.draw(root); !setup(op) {
					return
				}
			} else {
				root.Plan = nil
				gg := *root
				gg.Mix = []fsop.KW{{"mkdirall", 3}, {"writefile", 2}, {"symlink", 1}, {"link", 1}}
				if op := gg.Next(); !links && op.Kind == "link" {
					continue
				} else if !setup(op) {
					return
				}
			}
		}
		views := 0
		if i, err := ms.Disk.Lstat(names[0]); err == nil && i.IsDir() && s.Draw(vsim.SCfg, 2) == 0 {
			v, err := w.root.OpenRoot(names[0])
			if err != nil {
				s.Fail("openroot", "OpenRoot of an existing directory: %v", err)
				return
			}
			w.views = []*synthfs.Root{nil, v}
			rw.Views = []fsop.FS{nil, vroot.Widen[vroot.File](v)}
			ms.Disk.AddView(1, names[0])
			views = 1
		}
		rec := &recorder{s: s}
		root.Plan = fsop.NewWorld(ms.Disk.Clone())
		for t := 2 + s.Draw(vsim.SOps, 2); t > 0; t-- {
			g := fsop.NewGen(s, names, 3, mix, root)
			g.Flags = []int{os.O_RDONLY, os.O_RDONLY, os.O_RDWR | os.O_CREATE}
			g.Views, g.WholeDirs = views, true
			g.Perms = []fs.FileMode{0o755, 0o700}
			var ops []fsop.Op
			for i := 2 + s.Draw(vsim.SOps, 3); i > 0; i-- {
				if s.Draw(vsim.SOps, 2) == 0 {
					ops = append(ops, w.draw(g))
				} else {
					ops = append(ops, g.Next())
				}
				if s.Failed() {
					return
				}
			}
			s.Go("t"+itoa(t), func() {
				for _, op := range ops {
					rec.do(t, rw, op)
				}
			})
		}
		init := ms.Clone()
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		for _, h := range rw.H {
			_ = h.Close()
		}
		for _, x := range w.srcs {
			if n := x.d.OpenHandles(); n > 0 {
				s.Fail("source-handle-leak", "%d handles on %s are open after every handle was closed: %v", n, x.d.Name(), x.d.OpenNames())
				return
			}
		}
		d, err := fsop.Dump(rw.FS, ".", fsop.DumpOpt{Perm: true})
		if err != nil {
			s.Fail("tree-broken", "the tree cannot be listed: %v\n%s", err, d)
			return
		}
		s.Logf("final tree:\n%s", d)
		acc := func(op fsop.Op, got, want fsop.Result) bool {
			return op.Kind == "readat" && errors.Is(got.Err, vroot.ErrOpNotSupported) && want.Class != "CLOSED" || sameErr(op, got, want)
		}
		var held error
		if err := fsop.LinearizeFrom(init, rec.hist, acc, func(m *simfs.Disk) bool {
			want, err := fsop.Dump(m, ".", fsop.DumpOpt{Perm: true})
			if err != nil || want != d {
				return false
			}
			for _, h := range w.held {
				h.bound = false
			}
			held = w.released(m, true)
			return held == nil
		}); err != nil {
			if held != nil {
				s.Fail("released", "%v\n%v", held, err)
			} else {
				s.Fail("not-linearizable", "%v", err)
			}
		}
		if fsop.Undecided {
			s.Probe("linearizability-undecided")
		}
	},
}

func init() {
	register(&Check{Property: "P29", Quick: 150000, Thorough: 6000000,
		Parts:       []Part{{synthAssemble, 2}, {synthConc, 1}},
		Real:        []string{"vroot/synthfs", "vroot (io/fs adapters)", "fsutil"},
		Stub:        []string{"sources (simulated disks behind full, adapted and bare io/fs interfaces)", "sync (simulated locks)", "time"},
		Assumptions: []string{"every content is given to the tree once; files of a source do not shrink below a range taken of them; a source is not the tree itself"},
	})
	probes["P29"] = []string{"fault-reported", "partial-addition", "archived"}
}
