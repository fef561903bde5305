package scen

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// marks is one layer's durable masking as the MetadataStore contract keeps it.
type marks struct{ white, opaque map[string]bool }

func newMarks() *marks { return &marks{map[string]bool{}, map[string]bool{}} }

func (m *marks) String() string {
	return fmt.Sprintf("whiteout %q opaque %q", sortedKeys(m.white), sortedKeys(m.opaque))
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// simStore is a MetadataStore over durable marks whose every call is a
// scheduling point, can fail before or after its effect, and can crash.
type simStore struct {
	d      *simfs.Disk // the seam faults and crashes come through
	m      *marks
	closed bool
}

var _ overlayfs.MetadataStore = (*simStore)(nil)

func cleanMark(n string) string { return strings.TrimPrefix(path.Clean("/"+n), "/") }

func (t *simStore) op(kind, name string, write bool, f func(n string)) error {
	if t.closed {
		return errors.New("simstore: closed")
	}
	name = cleanMark(name)
	err := t.d.Custom(simfs.Op{Kind: kind, Path: "store:" + name, Write: write}, func() { f(name) })
	if s := vsim.Active(); s != nil && write {
		s.Logf("%s %q -> %v", kind, name, err)
	}
	return err
}

func (t *simStore) Load() (w, o []string, err error) {
	err = t.op("store-load", "", false, func(string) { w, o = sortedKeys(t.m.white), sortedKeys(t.m.opaque) })
	if err != nil {
		return nil, nil, err
	}
	return w, o, nil
}

func (t *simStore) SetWhiteout(name string) error {
	return t.op("store-setwhiteout", name, true, func(n string) { t.m.setWhiteout(n) })
}

func (m *marks) setWhiteout(n string) {
	for _, mm := range []map[string]bool{m.white, m.opaque} {
		for k := range mm {
			if n == "" && k != "" || strings.HasPrefix(k, n+"/") {
				delete(mm, k)
			}
		}
	}
	delete(m.opaque, n)
	m.white[n] = true
}

func (t *simStore) ClearWhiteout(name string) error {
	return t.op("store-clearwhiteout", name, true, func(n string) { delete(t.m.white, n) })
}

func (t *simStore) SetOpaque(name string) error {
	return t.op("store-setopaque", name, true, func(n string) { t.m.opaque[n] = true })
}

func (t *simStore) ClearOpaque(name string) error {
	return t.op("store-clearopaque", name, true, func(n string) { delete(t.m.opaque, n) })
}

func (t *simStore) Close() error { t.closed = true; return nil }

// ovLayer is one layer on its simulated disk.
type ovLayer struct {
	d         *simfs.Disk
	canonical bool
	ro        bool // reached through a read-only view once it is a lower
	sql       bool // its marks are in the built-in store on the disk
	m         *marks
}

// roSource opens the layer through a read-only view.
func (l *ovLayer) roSource() (*overlayfs.DataSource, error) {
	v := vroot.NewReadOnlyFs[vroot.File](l.d)
	switch {
	case !l.canonical:
		return overlayfs.NewDataSource[*vroot.ReadOnlyFile](v), nil
	case l.sql:
		return overlayfs.NewDataSourceCanonical[*vroot.ReadOnlyFile](v)
	}
	return overlayfs.NewDataSourceCanonicalStore[*vroot.ReadOnlyFile](v, &simStore{d: l.d, m: l.m})
}

// loadSQL reads the marks of a layer from a copy of its disk.
func (l *ovLayer) loadSQL() error {
	st, err := overlayfs.NewMetadataStoreSQLite[vroot.File](l.d.Clone(), "meta.sqlite3")
	if err != nil {
		return err
	}
	w, op, err := st.Load()
	l.m = newMarks()
	for _, k := range w {
		l.m.white[k] = true
	}
	for _, k := range op {
		l.m.opaque[k] = true
	}
	return errors.Join(err, st.Close())
}

// content is the layer's content tree with no faults and no scheduling.
func (l *ovLayer) content() *simfs.Disk {
	p := l.d.Plain()
	if l.canonical {
		p.AddView(9, "merged")
		return p.View(9)
	}
	return p
}

func (l *ovLayer) source() (*overlayfs.DataSource, error) {
	if !l.canonical {
		return overlayfs.NewDataSource[vroot.File](l.d), nil
	}
	return overlayfs.NewDataSourceCanonicalStore[vroot.File](l.d, &simStore{d: l.d, m: l.m})
}

// ovl is one overlay under test and its reference.
type ovl struct {
	s      *vsim.Sim
	names  []string
	layers []*ovLayer // top first
	model  *simfs.Disk
	// contributed are the model inodes of directories a lower contributes to:
	// renaming one may be refused as cross-device.
	contributed map[int]bool
	lowDump     []string
	plan        *simfs.Plan
	protect     bool
	policy      overlayfs.CopyUpPolicy
	sqlite      bool
	chain       int // links on the way from ln/c0
	staged      int // entries under work/ whose removal failed
	fs          *overlayfs.Fs
	rw, mw      *fsop.World
	view        string
}

func inoOf(i fs.FileInfo) int { return i.(interface{ ID() int }).ID() }

// mergeOnto applies a layer over what the deeper layers show.
func mergeOnto(m *simfs.Disk, l *ovLayer) error {
	realDir := func(p string) bool {
		if p == "" || p == "." {
			return true
		}
		for _, c := range ancestry(p) {
			i, err := m.Lstat(c)
			if err != nil || !i.IsDir() {
				return false
			}
		}
		return true
	}
	if l.m != nil {
		for _, n := range sortedKeys(l.m.white) {
			if n != "" && realDir(path.Dir(n)) {
				if err := m.RemoveAll(n); err != nil {
					return err
				}
			}
		}
		for _, n := range sortedKeys(l.m.opaque) {
			if !realDir(n) {
				continue
			}
			es, err := fsop.ReadDir(m, dot(n))
			if err != nil {
				return err
			}
			for _, e := range es {
				if err := m.RemoveAll(path.Join(n, e.Name())); err != nil {
					return err
				}
			}
		}
	}
	src := l.content()
	var walk func(p string) error
	walk = func(p string) error {
		es, err := fsop.ReadDir(src, dot(p))
		if err != nil {
			return err
		}
		for _, e := range es {
			c := path.Join(p, e.Name())
			i, err := src.Lstat(c)
			if err != nil {
				return err
			}
			old, oerr := m.Lstat(c)
			if !(oerr == nil && old.IsDir() && i.IsDir()) {
				if err := m.RemoveAll(c); err != nil {
					return err
				}
			}
			switch {
			case i.IsDir():
				if oerr != nil || !old.IsDir() {
					if err := m.Mkdir(c, 0o700); err != nil {
						return err
					}
				}
				if err := m.Chmod(c, i.Mode().Perm()); err != nil {
					return err
				}
				if err := walk(c); err != nil {
					return err
				}
			case i.Mode()&fs.ModeSymlink != 0:
				t, err := src.ReadLink(c)
				if err != nil {
					return err
				}
				if err := m.Symlink(t, c); err != nil {
					return err
				}
			default:
				b, err := fsop.ReadFile(src, c)
				if err != nil {
					return err
				}
				if err := fsop.WriteFile(m, c, b, 0o644); err != nil {
					return err
				}
				if err := m.Chmod(c, i.Mode().Perm()); err != nil {
					return err
				}
				if err := m.Chtimes(c, i.ModTime(), i.ModTime()); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return walk("")
}

func dot(p string) string {
	if p == "" {
		return "."
	}
	return p
}

func ancestry(p string) []string {
	var out []string
	for p != "." && p != "" {
		out = append([]string{p}, out...)
		p = path.Dir(p)
	}
	return out
}

// remodel computes the merged view from the layers as they stand.
func (o *ovl) remodel() {
	m := simfs.Model("model")
	for i := len(o.layers) - 1; i >= 1; i-- {
		if err := mergeOnto(m, o.layers[i]); err != nil {
			o.s.HarnessFail("merge layer %d: %v", i, err)
			return
		}
	}
	top := o.layers[0]
	masked := &ovLayer{d: simfs.Model("empty"), m: top.m}
	if err := mergeOnto(m, masked); err != nil {
		o.s.HarnessFail("mask: %v", err)
		return
	}
	low := map[string]bool{}
	var dirs []string
	collectDirs(m, "", &dirs)
	for _, d := range dirs {
		low[d] = top.m == nil || !top.m.opaque[d]
	}
	if err := mergeOnto(m, top); err != nil {
		o.s.HarnessFail("merge top: %v", err)
		return
	}
	o.model = m
	o.contributed = map[int]bool{}
	dirs = nil
	collectDirs(m, "", &dirs)
	for _, d := range dirs {
		if low[d] {
			i, _ := m.Lstat(d)
			o.contributed[inoOf(i)] = true
		}
	}
	o.mw = fsop.NewWorld(m)
	o.lowDump = nil
	for _, l := range o.layers[1:] {
		o.lowDump = append(o.lowDump, l.d.Dump(simfs.DumpOpt{Perm: true, Mtime: true})+fmt.Sprint(l.m))
	}
}

func collectDirs(f fsop.FS, p string, out *[]string) {
	es, _ := fsop.ReadDir(f, dot(p))
	for _, e := range es {
		if e.IsDir() {
			c := path.Join(p, e.Name())
			*out = append(*out, c)
			collectDirs(f, c, out)
		}
	}
}

// drawSQL gives the top now and then the built-in store, holding what its
// marks are.
func (o *ovl) drawSQL(p float64) {
	if o.sqlite = o.s.Chance(vsim.SCfg, p); !o.sqlite {
		return
	}
	t := o.top()
	st, err := overlayfs.NewMetadataStoreSQLite[vroot.File](t.d.Plain(), "meta.sqlite3")
	if err != nil {
		o.s.HarnessFail("making the store: %v", err)
		return
	}
	for _, k := range sortedKeys(t.m.white) {
		err = errors.Join(err, st.SetWhiteout(k))
	}
	for _, k := range sortedKeys(t.m.opaque) {
		err = errors.Join(err, st.SetOpaque(k))
	}
	if err = errors.Join(err, st.Close()); err != nil {
		o.s.HarnessFail("filling the store: %v", err)
	}
}

// newOvl draws the layers.
func newOvl(s *vsim.Sim, names []string) *ovl {
	o := &ovl{s: s, names: names}
	s.MaxSteps = 6_000_000 // chasing link loops takes many statements
	n := 1 + s.Weighted(vsim.SCfg, 4, 3, 1)
	for i := 0; i <= n; i++ {
		d := simfs.New([]string{"top", "low1", "low2", "low3"}[i])
		l := &ovLayer{d: d}
		fill := true
		if i == 0 {
			l.canonical = true
			fill = s.Chance(vsim.SCfg, 0.3)
		} else {
			l.canonical = s.Chance(vsim.SCfg, 0.3)
			l.ro = s.Chance(vsim.SCfg, 0.2)
			d.Observe = func(op simfs.Op) {
				if op.Write {
					s.Fail("lower-modified", "%s %s on lower %s", op.Kind, op.Path, d.Name())
				}
			}
		}
		if l.canonical {
			l.m = newMarks()
			_ = d.Mkdir("merged", 0o755)
			_ = d.Mkdir("work", 0o755)
		}
		if fill {
			g := fsop.NewGen(s, names, 3, nil, nil)
			g.MaxData = 20
			w := fsop.NewWorld(l.content())
			s.Logf("layer %d canonical=%v", i, l.canonical)
			g.Perms = []fs.FileMode{0o755}
			g.Mix = []fsop.KW{{Kind: "writefile", W: 5}, {Kind: "mkdirall", W: 5}, {Kind: "symlink", W: 2}, {Kind: "chmod", W: 2}, {Kind: "chtimes", W: 2}}
			g.Perms = []fs.FileMode{0o755, 0o700, 0o777, 0o644}
			g.Plan = fsop.NewWorld(l.content())
			for k := 1 + s.Draw(vsim.SOps, 7); k > 0; k-- {
				op := g.Next()
				s.Logf("  %s", op)
			}
			_ = w
			if l.canonical && n > i {
				for k := s.Draw(vsim.SOps, 3); k > 0; k-- {
					p := g.Path()
					if s.Draw(vsim.SOps, 2) == 0 {
						// a whiteout stands where the layer itself holds nothing,
						// an opaque mark on a directory it does hold: what an
						// overlay over this layer leaves
						if _, err := l.content().Lstat(p); err != nil {
							l.m.setWhiteout(p)
							s.Logf("  whiteout %s", p)
						}
					} else if i, err := l.content().Lstat(p); err == nil && i.IsDir() {
						if c, ok := l.content().Canonical(p, false); ok {
							l.m.opaque[c] = true
							s.Logf("  opaque %s", c)
						}
					}
				}
			}
		}
		o.layers = append(o.layers, l)
	}
	if s.Chance(vsim.SCfg, 0.04) {
		// a long way through links, spread over the layers, well below the limit
		o.chain = 6 + s.Draw(vsim.SOps, 28)
		end := []string{"t", "t", "../" + names[0], "nothing"}[s.Draw(vsim.SOps, 4)]
		for i := 0; i <= o.chain; i++ {
			to := "c" + itoa(i+1)
			if i == o.chain {
				to = end
			}
			c := o.layers[s.Draw(vsim.SOps, len(o.layers))].content()
			_ = c.MkdirAll("ln", 0o755)
			_ = c.Symlink(to, "ln/c"+itoa(i))
		}
		c := o.layers[s.Draw(vsim.SOps, len(o.layers))].content()
		_ = c.MkdirAll("ln", 0o755)
		if s.Draw(vsim.SOps, 2) == 0 {
			_ = c.MkdirAll("ln/t/"+names[0], 0o755)
		} else {
			_ = fsop.WriteFile(c, "ln/t", []byte("end"), 0o644)
		}
		s.Logf("ln/c0 is %d links from %s", o.chain, end)
	}
	o.remodel()
	return o
}

// chained sends an operation through the long way.
func (o *ovl) chained(op fsop.Op) fsop.Op {
	s := o.s
	if o.chain == 0 || op.A == "" || op.View > 0 || op.Kind == "symlink" || op.Kind == "dirprobe" || s.Draw(vsim.SOps, 3) > 0 {
		return op
	}
	p := "ln/c" + itoa(s.Draw(vsim.SOps, 3))
	if s.Draw(vsim.SOps, 3) == 0 {
		p += "/" + o.names[0]
	}
	if op.B != "" && s.Draw(vsim.SOps, 2) == 0 {
		op.B = p
	} else {
		op.A = p
	}
	return op
}

func (o *ovl) top() *ovLayer { return o.layers[0] }

// setPlan attaches the fault plan to every layer (and with it to the stores).
func (o *ovl) setPlan(p *simfs.Plan) {
	o.plan = p
	for _, l := range o.layers {
		l.d.Plan = p
	}
}

func (o *ovl) quiet(f func()) {
	if o.plan != nil {
		was := o.plan.Off
		o.plan.Off = true
		defer func() { o.plan.Off = was }()
	}
	f()
}

// open stacks the overlay over the layers as they stand on disk.
func (o *ovl) open() error {
	var src []*overlayfs.DataSource
	for i, l := range o.layers {
		var d *overlayfs.DataSource
		var err error
		if i == 0 && o.sqlite {
			d, err = overlayfs.NewDataSourceCanonical[vroot.File](l.d)
			l.sql = true
		} else if i > 0 && (l.ro || l.sql) {
			d, err = l.roSource()
		} else {
			d, err = l.source()
		}
		if err != nil {
			for _, d := range src {
				d.Close()
			}
			return err
		}
		src = append(src, d)
	}
	f, err := overlayfs.New(src[0], src[1:], &overlayfs.Option{DisableOpenFileRemoval: o.protect, CopyUpPolicy: o.policy})
	if err != nil {
		for _, d := range src {
			d.Close()
		}
		return err
	}
	o.fs, o.staged = f, 0
	h := map[int]vroot.File{}
	o.rw = fsop.NewWorld(vroot.Widen[vroot.File](f))
	o.rw.H = h
	if es, err := fsop.ReadDir(o.top().d.Plain(), "work"); err != nil || len(es) > 0 {
		o.s.Fail("staging-left", "work/ after New: %v %v", es, err)
	}
	if o.view != "" {
		v, err := f.OpenRoot(o.view)
		if err != nil {
			return err
		}
		o.rw.Views = []fsop.FS{nil, vroot.Widen[vroot.File](v)}
	}
	return nil
}

var ovDump = fsop.DumpOpt{Perm: true}

// dump renders the merged view as the overlay shows it.
func (o *ovl) dump() (d string, err error) {
	o.quiet(func() { d, err = fsop.Dump(o.rw.FS, ".", ovDump) })
	return
}

func modelDump(m *simfs.Disk) string {
	d, err := fsop.Dump(m, ".", ovDump)
	if err != nil {
		return "model: " + err.Error()
	}
	return d
}

// check compares the merged view with the reference.
func (o *ovl) check(when string) bool {
	d, err := o.dump()
	if o.s.Dead() || o.s.Failed() {
		return false
	}
	if err != nil {
		o.s.Fail("view-broken", "%s: the merged view cannot be read: %v\n%s", when, err, d)
		return false
	}
	if want := modelDump(o.model); d != want {
		o.s.Fail("view-differs", "%s: merged view:\n%s\nreference:\n%s\ntop marks: %s", when, d, want, o.top().m)
		return false
	}
	return true
}

// lowersSame fails the run if a lower changed.
func (o *ovl) lowersSame() {
	for i, l := range o.layers[1:] {
		if now := l.d.Dump(simfs.DumpOpt{Perm: true, Mtime: true}) + fmt.Sprint(l.m); now != o.lowDump[i] {
			o.s.Fail("lower-changed", "lower %d was\n%s\nis\n%s", i+1, o.lowDump[i], now)
		}
	}
}

// modelView is the model as the operation's view sees it.
func (o *ovl) modelFor(m *simfs.Disk, op fsop.Op) *fsop.World {
	w := fsop.NewWorld(m)
	w.H = o.mw.H
	if op.View > 0 {
		m.AddView(1, o.view)
		w.Views = []fsop.FS{nil, m.View(1)}
	}
	return w
}

// mayXdev says whether a rename may be refused as cross-device.
func (o *ovl) mayXdev(m *simfs.Disk, op fsop.Op) bool {
	if op.Kind != "rename" {
		return false
	}
	w := o.modelFor(m, op)
	f := w.FS
	if op.View > 0 {
		f = w.Views[op.View]
	}
	i, err := f.Lstat(op.A)
	return err == nil && i.IsDir() && o.contributed[inoOf(i)]
}

// ovMix is what one user of an overlay does.
var ovMix = []fsop.KW{{"lstat", 3}, {"stat", 3}, {"writefile", 6}, {"appendfile", 4}, {"mkdir", 6}, {"mkdirall", 4}, {"remove", 6}, {"removeall", 5},
	{"rename", 9}, {"link", 2}, {"symlink", 4}, {"readlink", 2}, {"chmod", 3}, {"open", 4}, {"close", 2}, {"read", 2}, {"readat", 2}, {"write", 3},
	{"writeat", 2}, {"truncate", 1}, {"seek", 1}, {"fstat", 1}, {"list", 4}, {"listpieces", 3}, {"readfile", 5}, {"chtimes", 1}, {"mtime", 0}, {"dirprobe", 2}, {"closeprobe", 1},
	{"setowner", 1}, {"setlowner", 1}, {"createwrite", 3}}

// ovSeq: one user, many operations, restarts and restacking; everything equals
// a plain file system.
var ovSeq = &Scenario{
	Name: "overlay-equals-plain",
	Doc:  "one user runs 6-30 operations (all kinds, through the overlay, an opened sub-root and handles) on 1-3 lowers, plain or canonical with masks of their own, under a sometimes populated top; now and then the overlay is closed and reopened, or its top is restacked as a lower under a new one; every result, listing and periodic full dump is compared with one plain file system that started with the independently merged content, and lowers are compared with what they were",
	Run: func(s *vsim.Sim) {
		s.Configure()
		names := drawNames(s)[:2+s.Draw(vsim.SCfg, 2)]
		o := newOvl(s, names)
		if s.Failed() {
			return
		}
		links := s.Chance(vsim.SCfg, 0.4)
		o.drawSQL(0.015)
		mix := append([]fsop.KW{}, ovMix...)
		for i := range mix {
			if mix[i].Kind == "link" && !links || i > 1 && s.Chance(vsim.SCfg, 0.15) {
				mix[i].W = 0
			}
		}
		if i, err := o.model.Lstat("a"); err == nil && i.IsDir() && s.Chance(vsim.SCfg, 0.4) {
			o.view = "a"
		}
		g := fsop.NewGen(s, names, 3, mix, nil)
		g.MaxData = 20
		g.Perms = []fs.FileMode{0o755, 0o700, 0o777, 0o644}
		g.Links = append(append([]string{}, g.Links...), "/"+names[0], "../../../"+names[1], "/", "..")
		if s.Chance(vsim.SCfg, 0.5) {
			o.setPlan(&simfs.Plan{Sim: s, ShortReads: 0.3})
		}
		n := 6 + s.Draw(vsim.SOps, 25)
		s.Go("u", func() {
			if err := o.open(); err != nil {
				s.Fail("open", "opening the overlay: %v", err)
				return
			}
			if !o.check("at the start") {
				return
			}
			for k := 0; k < n && !s.Failed(); k++ {
				g.Plan = fsop.NewWorld(o.model.Clone())
				g.Views = 0
				if o.view != "" {
					g.Views = 1
				}
				g.Mine = nil
				for h := range o.rw.H {
					g.Mine = append(g.Mine, h)
				}
				sort.Ints(g.Mine)
				op := o.chained(respell(s, g.Next()))
				if !o.allowed(op) {
					continue
				}
				o.step(op)
				if s.Failed() {
					return
				}
				switch s.Weighted(vsim.SOps, 20, 8, 2, 1) {
				case 1:
					o.check("after " + op.String())
				case 2:
					o.reopen(false)
				case 3:
					if !links && len(o.layers) < 6 {
						o.reopen(true)
					}
				}
			}
			if s.Failed() || !o.check("at the end") {
				return
			}
			o.reopen(false)
			o.check("after the last reopen")
			o.lowersSame()
			if err := o.fs.Close(); err != nil {
				s.Fail("close", "%v", err)
			}
		})
		s.Run()
	},
}

// ovDeep: names far below the base, more levels than a path may cross links.
var ovDeep = &Scenario{
	Name: "overlay-deep-names",
	Doc:  "a directory 30-60 levels down, its upper levels spread over the layers, and sometimes one of hundreds of entries; a few calls on names in it (and through links into it) must give what one plain file system gives",
	Run: func(s *vsim.Sim) {
		s.Configure()
		names := drawNames(s)[:2]
		o := newOvl(s, names)
		if s.Failed() {
			return
		}
		s.MaxSteps = farSteps
		n := 30 + s.Draw(vsim.SOps, 31)
		deep := "dp" + strings.Repeat("/d", n)
		at := func(k int) string { return "dp" + strings.Repeat("/d", k) }
		home := 1 + s.Draw(vsim.SOps, len(o.layers)-1)
		for i, l := range o.layers {
			c := l.content()
			if i == home {
				_ = c.MkdirAll(deep, 0o755)
				_ = fsop.WriteFile(c, deep+"/"+names[0], []byte("deep"), 0o644)
				_ = c.Symlink(names[0], deep+"/l")
				_ = c.Symlink(deep, "far")
			} else if s.Draw(vsim.SOps, 2) == 0 {
				k := s.Draw(vsim.SOps, n)
				_ = c.MkdirAll(at(k), 0o755)
				_ = fsop.WriteFile(c, at(k)+"/x"+itoa(i), []byte("on the way"), 0o644)
			}
		}
		many := 0
		if s.Draw(vsim.SOps, 3) == 0 {
			many = 90 + s.Draw(vsim.SOps, 200)
			for i := range many {
				c := o.layers[s.Draw(vsim.SOps, len(o.layers))].content()
				_ = c.MkdirAll("mn", 0o755)
				_ = fsop.WriteFile(c, "mn/e"+itoa(i), nil, 0o644)
			}
		}
		o.remodel()
		if s.Failed() {
			return
		}
		s.Logf("%d levels, home layer %d, %d entries", n, home, many)
		name := func() string {
			d := []string{deep, deep, "far", deep + "/../d", at(s.Draw(vsim.SOps, n))}[s.Draw(vsim.SOps, 5)]
			return d + "/" + []string{names[0], names[1], "l", "new"}[s.Draw(vsim.SOps, 4)]
		}
		kinds := []string{"stat", "lstat", "readfile", "writefile", "appendfile", "mkdir", "symlink", "readlink", "rename", "remove", "chmod", "list"}
		s.Go("u", func() {
			if err := o.open(); err != nil {
				s.Fail("open", "opening the overlay: %v", err)
				return
			}
			for k := 1 + s.Draw(vsim.SOps, 5); k > 0 && !s.Failed(); k-- {
				op := fsop.Op{Kind: kinds[s.Draw(vsim.SOps, len(kinds))], A: name(), Perm: 0o644}
				switch op.Kind {
				case "mkdir":
					op.Perm = 0o755
				case "writefile", "appendfile":
					op.Data = "written"
				case "symlink":
					op.A, op.B = []string{names[0], "../d", "/" + deep}[s.Draw(vsim.SOps, 3)], op.A
				case "rename":
					op.B = name()
				case "list":
					op.A = path.Dir(op.A)
				}
				if o.allowed(op) {
					o.step(op)
				}
			}
			if s.Failed() {
				return
			}
			o.step(fsop.Op{Kind: "list", A: deep})
			if many > 0 && !s.Failed() {
				o.step(fsop.Op{Kind: "remove", A: "mn/e" + itoa(s.Draw(vsim.SOps, many))})
				if !s.Failed() {
					o.step(fsop.Op{Kind: "list", A: "mn"})
				}
				if !s.Failed() && s.Draw(vsim.SOps, 2) == 0 {
					o.step(fsop.Op{Kind: "removeall", A: "mn"})
				}
			}
			if s.Failed() {
				return
			}
			o.lowersSame()
			if err := o.fs.Close(); err != nil {
				s.Fail("close", "%v", err)
			}
		})
		s.Run()
	},
}

// respell names now and then what is meant in another way, or the base itself.
func respell(s *vsim.Sim, op fsop.Op) fsop.Op {
	re := func(p string) string {
		if p == "" {
			return p
		}
		switch s.Weighted(vsim.SOps, 60, 2, 2, 2, 2) {
		case 1:
			return "./" + p
		case 2:
			return strings.ReplaceAll("."+"//"+p, "/", "//")
		case 3:
			return strings.ReplaceAll(p, "/", "/./")
		case 4:
			return [...]string{".", "./", "././/."}[s.Draw(vsim.SOps, 3)]
		}
		return p
	}
	switch op.Kind {
	case "symlink", "dirprobe":
	case "rename", "link":
		op.A, op.B = re(op.A), re(op.B)
	default:
		op.A = re(op.A)
	}
	return op
}

// allowed leaves out what the overlay documents to do differently.
func (o *ovl) allowed(op fsop.Op) bool {
	if o.view != "" && op.View == 0 {
		// a sub-root is the directory's name, not the directory
		ps := []string{op.A, op.B}
		if op.Kind == "dirprobe" {
			ps = []string{path.Join(op.A, op.B)}
		}
		for _, p := range ps {
			if c, ok := o.model.Canonical(dot(p), false); ok && c == o.view {
				switch op.Kind {
				case "rename", "remove", "removeall", "dirprobe":
					return false
				}
			}
		}
	}
	return true
}

// step runs one operation on both and compares.
func (o *ovl) step(op fsop.Op) fsop.Result {
	s := o.s
	before := o.top().d.OpenHandles()
	s.Logf("u> %s", op)
	if o.plan != nil {
		// what a user's own read returns is compared to the byte
		o.plan.Off = op.Kind == "read" || op.Kind == "readat"
	}
	got := o.rw.Do(op)
	s.Logf("u< %s (%v)", got, got.Err)
	s.State(op.Kind + got.Class)
	if s.Dead() || s.Failed() {
		return got
	}
	if got.Class == "EXDEV" && o.mayXdev(o.model, op) {
		s.Probe("exdev")
		return got
	}
	mw := o.modelFor(o.model, op)
	want := mw.Do(op)
	if !ovSame(op, got, want) {
		s.Fail("result-differs", "%s gave %s (%v); one plain file system gives %s (%v)\ntop marks: %s", op, got, got.Err, want, want.Err, o.top().m)
		return got
	}
	if op.Kind == "open" && got.Class == "ok" && o.top().d.OpenHandles() == before {
		// a read handle on a lower's file keeps showing the lower's content
		s.Probe("lower-backed-handle")
		m := mw.H[op.H].(*simfs.File)
		i, err := m.Stat()
		if err == nil && i.IsDir() {
			// a directory handle is a listing of a name, taken on first use
			o.rw.H[op.H].Close()
			delete(o.rw.H, op.H)
			m.Close()
			delete(mw.H, op.H)
			return got
		}
		mw.H[op.H] = m.Snapshot()
	} else if op.Kind == "open" && got.Class == "ok" {
		if i, err := mw.H[op.H].Stat(); err == nil && i.IsDir() {
			o.rw.H[op.H].Close()
			delete(o.rw.H, op.H)
			mw.H[op.H].Close()
			delete(mw.H, op.H)
		}
	}
	return got
}

// ovSame compares outcomes: RemoveAll below something that is not a directory
// may say there is nothing to remove.
func ovSame(op fsop.Op, got, want fsop.Result) bool {
	if op.Kind == "removeall" && got.Class == "ok" && errors.Is(want.Err, syscall.ENOTDIR) {
		return true
	}
	if (op.Kind == "lstat" || op.Kind == "stat") && got.Err == nil && want.Err == nil && path.Clean(op.A) == "." {
		// what the base itself is called is left open
		got.Val, want.Val = got.Val[strings.IndexByte(got.Val, ' ')+1:], want.Val[strings.IndexByte(want.Val, ' ')+1:]
	}
	return sameErr(op, got, want)
}

// reopen closes everything and opens the overlay again over the same layers,
// or, restacking, over the former top as a lower of a new one.
func (o *ovl) reopen(restack bool) {
	s := o.s
	for _, h := range sortedInts(o.rw.H) {
		o.rw.H[h].Close()
		o.mw.H[h].Close()
		delete(o.rw.H, h)
		delete(o.mw.H, h)
	}
	if n := o.top().d.OpenHandles(); n != 0 && !o.sqlite {
		s.Fail("handle-leak", "open in the top after every handle was closed: %v", o.top().d.OpenNames())
		return
	}
	for _, l := range o.layers[1:] {
		if l.d.OpenHandles() != 0 && !l.sql {
			s.Fail("handle-leak", "open in a lower after every handle was closed: %v", l.d.OpenNames())
			return
		}
	}
	if err := o.fs.Close(); err != nil {
		s.Fail("close", "closing the overlay: %v", err)
		return
	}
	if restack {
		o.lowersSame()
		s.Fault("restack")
		was := modelDump(o.model)
		if o.top().sql {
			s.Probe("sqlite-lower")
			if err := o.top().loadSQL(); err != nil {
				s.Fail("marks-unreadable", "the former top's store: %v", err)
				return
			}
		}
		o.top().ro = s.Chance(vsim.SCfg, 0.5)
		t := &ovLayer{d: simfs.New("top" + itoa(len(o.layers))), canonical: true, m: newMarks()}
		old := o.top()
		old.d.Observe = func(op simfs.Op) {
			if op.Write {
				s.Fail("lower-modified", "%s %s on lower %s", op.Kind, op.Path, old.d.Name())
			}
		}
		_ = t.d.Plain().Mkdir("merged", 0o755)
		o.layers = append([]*ovLayer{t}, o.layers...)
		o.remodel()
		if s.Failed() {
			return
		}
		if now := modelDump(o.model); now != was {
			s.Fail("restack-differs", "the layers no longer add up to the view the overlay showed:\n%s\nwas\n%s", now, was)
			return
		}
		o.setPlan(o.plan)
	} else {
		s.Fault("restart")
	}
	if err := o.open(); err != nil {
		s.Fail("reopen", "reopening the overlay: %v", err)
		return
	}
	o.check("after reopening")
}

func sortedInts[V any](m map[int]V) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

var _ = os.O_RDONLY

func init() {
	register(&Check{Property: "P17", Quick: 60000, Thorough: 3000000,
		Parts:       []Part{{ovSeq, 100}, {ovDeep, 1}},
		Real:        []string{"vroot-adapter/overlayfs", "vroot (prefix views, read-only views)", "fsutil (path resolution)"},
		Stub:        []string{"layer file systems (simulated disks)", "metadata store (simulated durable store, the built-in sqlite store in 1.5 % of the runs)", "sync", "time"},
		Assumptions: []string{"hard links between files of one lower, read handles opened on a lower before a copy-up, and directory handles held across changes behave as overlayfs documents and are left out"},
	})
}
