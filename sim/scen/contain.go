package scen

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// cview is a view under test: the file system and how views are opened from it.
type cview struct {
	fs    fsop.FS
	open  func(name string) (*cview, error)
	close func()
	// ro: calls that change something are refused before the path is looked at
	ro bool
	// ioNames: only io/fs path names are taken, others are invalid
	ioNames bool
	// walks: paths are walked as spelled, not cleaned first
	walks bool
}

// walking marks a view and those opened from it.
func walking(v *cview) *cview {
	v.walks = true
	open := v.open
	v.open = func(n string) (*cview, error) {
		x, err := open(n)
		if err == nil {
			walking(x)
		}
		return x, err
	}
	return v
}

func rooted[F vroot.File, R vroot.Root[F, R]](r R) *cview {
	return &cview{fs: vroot.Widen[F](r), close: func() { _ = r.Close() }, open: func(n string) (*cview, error) {
		x, err := r.OpenRoot(n)
		if err != nil {
			return nil, err
		}
		return rooted[F](x), nil
	}}
}

// wrapped puts one of the wrappers over a root.
func wrapped[F vroot.File, R vroot.Root[F, R]](r R, kind int) *cview {
	switch kind {
	case 1:
		return rooted[F](vroot.NewPathNormalizerRoot[F](r))
	case 2:
		return rooted[F](vroot.NewPathLocalizerRoot[F](r))
	case 3:
		v := rooted[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[F](r))
		markRO(v)
		return v
	case 4:
		v := viaIO(vroot.ToIoFsRoot[F](r))
		v.close = func() { _ = r.Close() }
		return v
	}
	return rooted[F](r)
}

var wrapperNames = []string{"plain", "normalizer", "localizer", "readonly", "iofs"}

func markRO(v *cview) {
	v.ro = true
	open := v.open
	v.open = func(n string) (*cview, error) {
		x, err := open(n)
		if err == nil {
			markRO(x)
		}
		return x, err
	}
}

// viaIO is an io/fs file system seen as a vroot one again.
func viaIO(f fs.FS) *cview {
	return &cview{fs: vroot.FromIoFs(f.(fs.ReadLinkFS), "io"), ro: true, ioNames: true, close: func() {}, open: func(n string) (*cview, error) {
		s, err := fs.Sub(f, n)
		if err != nil {
			return nil, err
		}
		if c, ok := s.(interface{ Close() error }); ok {
			v := viaIO(s)
			v.close = func() { _ = c.Close() }
			return v, nil
		}
		return viaIO(s), nil
	}}
}

// The world: the view is w/in, what it must never reach carries these marks.
const (
	cSecret   = "SECRET"
	cDirMode  = fs.FileMode(0o751)
	cFileMode = fs.FileMode(0o641)
)

type contain struct {
	s      *vsim.Sim
	parent *fsop.World
	view   *cview
	truth  func() string // everything outside that was there from the start
	kind   string
	want   string
	moved  bool // the view's directory was
	// links: symbolic links may point outside
	links bool
	tmp   string // taken out of error texts
}

// lexEscape reports whether p leaves its root whatever it meets.
func (v *cview) lexEscape(p string) bool {
	if v.walks {
		// walked as it is spelled: a link on the way changes what a ".." means
		return strings.HasPrefix(p, "/") || p == ".." || strings.HasPrefix(p, "../")
	}
	p = path.Clean(p)
	return strings.HasPrefix(p, "/") || p == ".." || strings.HasPrefix(p, "../")
}

// outsideState renders what was outside from the start.
func outsideState(f fsop.FS) string {
	d, err := fsop.Dump(f, "w", fsop.DumpOpt{Perm: true, Tolerant: true, Skip: func(p string) bool {
		rel := strings.TrimPrefix(p, "w/")
		return !strings.HasPrefix(rel, "o_") || strings.HasPrefix(path.Base(p), "m") || strings.HasPrefix(rel, "in")
	}})
	if err != nil {
		return "cannot be read: " + err.Error()
	}
	return d
}

func buildOutside(f fsop.FS) {
	_ = f.Mkdir("w", 0o755)
	_ = f.MkdirAll("w/o_out/o_d", 0o755)
	for _, n := range []string{"w/o_s0", "w/o_w", "w/o_out/o_s1", "w/o_out/o_d/o_s2", "w/o_out/a", "w/o_out/o_d/b"} {
		_ = fsop.WriteFile(f, n, []byte(cSecret+n), 0o600)
		_ = f.Chmod(n, cFileMode)
	}
	_ = f.Symlink("o_s1", "w/o_out/o_l")
	for _, n := range []string{"w/o_out/o_d", "w/o_out", "w"} {
		_ = f.Chmod(n, cDirMode)
	}
	_ = f.MkdirAll("w/in/n", 0o755)
	_ = f.Chmod("w/in", 0o755)
	_ = f.Chmod("w/in/n", 0o755)
}

var cMix = []fsop.KW{{"lstat", 3}, {"stat", 4}, {"mkdir", 4}, {"mkdirall", 4}, {"remove", 4}, {"removeall", 5}, {"rename", 5}, {"link", 3},
	{"symlink", 6}, {"readlink", 2}, {"chmod", 4}, {"chtimes", 2}, {"open", 8}, {"read", 4}, {"write", 4}, {"truncate", 1}, {"fstat", 2}, {"readdir", 3}, {"close", 3},
	{"list", 5}, {"readfile", 6}, {"writefile", 8}, {"appendfile", 3},
	{"setowner", 2}, {"setlowner", 1}, {"createwrite", 3}}

var cLinks = []string{"a", "b", "../a", "b/a", "..", "../..", "../o_out", "../../o_out", "../o_out/a", "../o_out/o_d", "../../o_out/o_d/b", "a/../../o_out",
	"../in/a", "n/../..", "../o_s0", "../o_out/new", "./..", "b/../../o_out/a", "nothing"}

func (c *contain) spell(p string, g *fsop.Gen) string {
	s := c.s
	if p == "" || s.Draw(vsim.SOps, 6) != 5 {
		return p
	}
	a := g.Names[s.Draw(vsim.SOps, len(g.Names))]
	switch s.Draw(vsim.SOps, 12) {
	case 0:
		return "./" + p
	case 1:
		return a + "/../" + p
	case 2:
		return p + "/."
	case 3:
		return "../o_s0"
	case 4:
		return a + "/../../o_out/a"
	case 5:
		return ".."
	case 6:
		return p + "//" + a
	case 7:
		return "."
	case 8:
		return p + "/.."
	case 9:
		return p + "/../o_s0"
	case 10:
		return p + "/../../o_out"
	case 11:
		return "../in/" + p
	}
	return p
}

// check looks at one result.
func (c *contain) check(v *cview, op fsop.Op, res fsop.Result) {
	s := c.s
	if s.Failed() {
		return
	}
	if op.Kind != "readlink" {
		for _, m := range []string{cSecret, "o_w", "o_s1", "o_s2", "o_l", "drwxr-x--x", "-rw-r----x"} {
			if strings.Contains(res.Val, m) {
				s.Fail("outside-seen", "%s -> %s %s shows what is outside the view", op, res, res.Val)
				return
			}
		}
	}
	// (o_s0, o_out and o_d can come to be inside, through links that stay there)
	switch op.Kind {
	case "close", "read", "write", "truncate", "fstat", "readdir":
		return
	}
	out := v.lexEscape(op.A) && op.Kind != "symlink" || op.B != "" && v.lexEscape(op.B)
	if !out {
		return
	}
	if res.Err == nil {
		s.Fail("escape-allowed", "%s succeeded", op)
		return
	}
	one := op.Kind != "rename" && op.Kind != "link"
	if one && !v.ro && !v.ioNames && res.Class != "ESCAPE" && !(op.Kind == "removeall" && (op.A == ".." || strings.HasSuffix(op.A, "/."))) {
		s.Fail("no-escape-error", "%s -> %s (%s), want the escape error", op, res.Class, c.err(res.Err))
	}
}

func (c *contain) err(err error) string {
	if err == nil {
		return "<nil>"
	}
	if c.tmp == "" {
		return err.Error()
	}
	return strings.ReplaceAll(err.Error(), c.tmp, "")
}

// outsider is one thing done from outside the view.
func (c *contain) outsider(g *fsop.Gen, serial *int) []fsop.Op {
	s := c.s
	// only direct entries, and none of these calls follows a link at the end:
	// the one outside has no business in what links lead to
	dir := "w/in"
	p := dir + "/" + []string{"a", "b", "n", "c"}[s.Draw(vsim.SOps, 4)]
	up := "../"
	*serial++
	m := "w/o_out/m" + itoa(*serial)
	k := s.Draw(vsim.SOps, 9)
	if !c.links && (k == 0 || k == 1 || k == 5) {
		k = 2
	}
	switch k {
	case 0: // swapped for a link
		t := up + []string{"o_out", "o_out/o_d", "o_out/a", "o_s0", ""}[s.Draw(vsim.SOps, 5)]
		return []fsop.Op{{Kind: "rename", A: p, B: m}, {Kind: "symlink", A: strings.TrimSuffix(t, "/"), B: p}}
	case 1:
		return []fsop.Op{{Kind: "removeall", A: p}, {Kind: "symlink", A: up + "o_out", B: p}}
	case 2: // moved outside
		return []fsop.Op{{Kind: "rename", A: p, B: m}}
	case 3: // moved back
		if *serial > 1 {
			return []fsop.Op{{Kind: "removeall", A: p}, {Kind: "rename", A: "w/o_out/m" + itoa(1+s.Draw(vsim.SOps, *serial-1)), B: p}}
		}
	case 4:
		return []fsop.Op{{Kind: "rename", A: p, B: "w/in/" + g.Names[s.Draw(vsim.SOps, len(g.Names))]}}
	case 5: // the view's own directory swapped
		return []fsop.Op{{Kind: "rename", A: "w/in", B: m}, {Kind: "symlink", A: "o_out", B: "w/in"}}
	case 6:
		if *serial > 1 && s.Draw(vsim.SOps, 2) == 0 {
			return []fsop.Op{{Kind: "remove", A: "w/in"}, {Kind: "rename", A: "w/o_out/m" + itoa(1+s.Draw(vsim.SOps, *serial-1)), B: "w/in"}}
		}
		return []fsop.Op{{Kind: "remove", A: p}}
	case 7:
		return []fsop.Op{{Kind: "mkdir", A: p, Perm: 0o755}}
	}
	return []fsop.Op{{Kind: "symlink", A: "b", B: p}}
}

func (c *contain) gen(share *fsop.Gen) *fsop.Gen {
	g := fsop.NewGen(c.s, []string{"a", "b", "n"}, 3, cMix, share)
	g.Perms = []fs.FileMode{0o755, 0o700}
	g.Flags = []int{os.O_RDONLY, os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL}
	g.Links = cLinks
	if !c.links {
		g.Links = []string{"a", "b", "n"}
		g.Mix = append([]fsop.KW{}, cMix...)
		for i := range g.Mix {
			if g.Mix[i].Kind == "symlink" {
				g.Mix[i].W = 0
			}
		}
	}
	g.WholeDirs = true
	return g
}

func (c *contain) do(v *cview, w *fsop.World, op fsop.Op) fsop.Result {
	c.s.Logf("%s ...", op)
	res := w.Do(op)
	c.s.Logf("%s -> %s (%s)", op, res, c.err(res.Err))
	c.s.State(op.Kind + res.Class)
	c.check(v, op, res)
	return res
}

// probe makes a link that leads out, under names of its own, and uses it.
func (c *contain) probe(v *cview, w *fsop.World, id string, k probeKind) {
	s := c.s
	l := "z" + id
	f := v.fs
	if k.deep {
		if err := f.Mkdir("y"+id, 0o755); err != nil {
			return
		}
		l = "y" + id + "/z"
	}
	t := k.target
	switch {
	case strings.HasPrefix(t, "/"):
		t = c.tmp + t // of the scratch directory, where there is one
	case k.deep:
		t = "../" + t
	}
	if err := f.Symlink(t, l); err != nil {
		return
	}
	made := []string{l}
	if k.chain {
		n := "x" + id
		if err := f.Symlink(l, n); err != nil {
			return
		}
		l = n
		made = append(made, n)
	}
	op := k.op
	for _, p := range []*string{&op.A, &op.B} {
		if strings.HasPrefix(*p, "@") {
			*p = l + (*p)[1:]
		}
	}
	s.Probe("link-leading-out")
	var res fsop.Result
	if op.Kind == "openroot" {
		x, err := v.open(op.A)
		res = fsop.Result{Class: fsop.Class(err), Err: err}
		s.Logf("link %q -> %q: openroot %q -> %s (%s)", l, k.target, op.A, res.Class, c.err(err))
		if err == nil {
			x.close()
		}
	} else {
		s.Logf("link %q -> %q", l, k.target)
		res = c.do(v, w, op)
	}
	if s.Failed() || s.Dead() || res.Class == "ESCAPE" {
		return
	}
	for _, l := range made {
		if i, err := f.Lstat(l); err != nil || i.Mode()&fs.ModeSymlink == 0 {
			return // the view's directory, or all in it, went away meanwhile
		}
	}
	if c.kind == "overlay" && c.moved {
		return // goes by the name, which was another directory's or nobody's for a while
	}
	s.Fail("link-followed-out", "%s with %q -> %q: %s (%s), want the escape error", op, l, k.target, res.Class, c.err(res.Err))
}

type probeKind struct {
	target      string
	deep, chain bool
	op          fsop.Op
}

func (c *contain) drawProbe(g *fsop.Gen) probeKind {
	s := c.s
	k := probeKind{target: []string{"../o_out", "..", "../..", "../in/n", "../o_out/o_d", "/w", "/w/o_out", "./../o_out", "../o_out/zz", "/w/zz"}[s.Draw(vsim.SOps, 10)],
		deep: s.Draw(vsim.SOps, 3) == 2, chain: s.Draw(vsim.SOps, 3) == 2}
	d := g.Bytes()
	k.op = []fsop.Op{{Kind: "stat", A: "@"}, {Kind: "list", A: "@"}, {Kind: "readfile", A: "@"}, {Kind: "openroot", A: "@"}, {Kind: "writefile", A: "@", Data: d, Perm: 0o644},
		{Kind: "writefile", A: "@/q", Data: d, Perm: 0o644}, {Kind: "mkdir", A: "@/q", Perm: 0o755}, {Kind: "mkdirall", A: "@/q/r", Perm: 0o755},
		{Kind: "remove", A: "@/a"}, {Kind: "removeall", A: "@/o_d"}, {Kind: "rename", A: "@/a", B: "q"}, {Kind: "symlink", A: "a", B: "@/q"}, {Kind: "chmod", A: "@", Perm: 0o700},
		{Kind: "chmod", A: "@/a", Perm: 0o700}, {Kind: "lstat", A: "@/a"}, {Kind: "readlink", A: "@/o_l"}, {Kind: "readfile", A: "@/a"}, {Kind: "link", A: "@/a", B: "q"},
		{Kind: "chtimes", A: "@"}, {Kind: "openroot", A: "@/o_d"}, {Kind: "appendfile", A: "@/a", Data: d, Perm: 0o644}, {Kind: "stat", A: "@/o_d/o_s2"},
		{Kind: "setowner", A: "@", N: 70, Off: 80}, {Kind: "setlowner", A: "@/a", N: 70, Off: 80}, {Kind: "createwrite", A: "@", Data: d}, {Kind: "createwrite", A: "@/q", Data: d}}[s.Draw(vsim.SOps, 26)]
	return k
}

// user works through the view and views opened from it.
func (c *contain) user(id string, v *cview, ops []fsop.Op, subs []string, probes map[int]probeKind) {
	s := c.s
	w := fsop.NewWorld(v.fs)
	w.Lib = s.Draw(vsim.SOps, 2) == 1
	cur, cw := v, w
	defer func() {
		for _, w := range []*fsop.World{w, cw} {
			var hs []int
			for h := range w.H {
				hs = append(hs, h)
			}
			sort.Ints(hs)
			for _, h := range hs {
				_ = w.H[h].Close()
			}
		}
		if cur != v {
			cur.close()
		}
	}()
	for i, op := range ops {
		vsim.Yield(vsim.KOp, 0xdc000000)
		if s.Failed() || s.Dead() {
			return
		}
		if n := subs[i]; n != "" {
			// a view opened from the view
			x, err := cur.open(n)
			s.Logf("openroot %q -> %s", n, c.err(err))
			switch {
			case err == nil && cur.lexEscape(n):
				s.Fail("escape-allowed", "OpenRoot(%q) succeeded", n)
				return
			case err != nil && cur.lexEscape(n) && !cur.ioNames && !errors.Is(err, vroot.ErrPathEscapes):
				s.Fail("no-escape-error", "OpenRoot(%q): %s, want the escape error", n, c.err(err))
				return
			case err == nil:
				if cur != v {
					for _, f := range cw.H {
						_ = f.Close()
					}
					cur.close()
				}
				s.Probe("nested-view")
				cur, cw = x, fsop.NewWorld(x.fs)
				cw.Lib = w.Lib
				c.do(cur, cw, fsop.Op{Kind: "list", A: "."})
				c.do(cur, cw, fsop.Op{Kind: "stat", A: "."})
				if s.Failed() {
					return
				}
			}
		}
		if k, ok := probes[i]; ok && cur == v {
			c.probe(v, w, id+itoa(i), k)
			if s.Failed() {
				return
			}
		}
		c.do(cur, cw, op)
	}
}

// plan draws what a task will do.
func (c *contain) plan(g *fsop.Gen, n int) ([]fsop.Op, []string) {
	s := c.s
	var ops []fsop.Op
	var subs []string
	for ; n > 0; n-- {
		op := g.Next()
		if op.Kind != "symlink" {
			op.A = c.spell(op.A, g)
		}
		if op.B != "" {
			op.B = c.spell(op.B, g)
		}
		sub := ""
		if s.Draw(vsim.SOps, 6) == 5 {
			sub = c.spell(g.Path(), g)
		}
		ops, subs = append(ops, op), append(subs, sub)
	}
	return ops, subs
}

func (c *contain) run() {
	s := c.s
	g := c.gen(nil)
	pl := simfs.Model("plan")
	_ = pl.Mkdir("n", 0o755)
	g.Plan = fsop.NewWorld(pl)
	// what is in the view at first
	seedTree(s, g, s.Draw(vsim.SOps, 7), fsop.NewWorld(cPrefix{c.parent.FS, "w/in"}))
	if c.links {
		for i := s.Draw(vsim.SOps, 3); i > 0; i-- {
			t, n := cLinks[s.Draw(vsim.SOps, len(cLinks))], g.Path()
			s.Logf("setup symlink %q -> %q", n, t)
			_ = c.parent.FS.Symlink(t, "w/in/"+n)
			_ = pl.Symlink(t, n)
		}
	}
	c.want = c.truth()
	serial := 0
	for t := 1 + s.Draw(vsim.SOps, 2); t > 0; t-- {
		ops, subs := c.plan(c.gen(g), 3+s.Draw(vsim.SOps, 6))
		probes := map[int]probeKind{}
		if c.links && !c.view.ro {
			for i := range ops {
				if s.Draw(vsim.SOps, 4) == 3 {
					probes[i] = c.drawProbe(g)
				}
			}
		}
		s.Go("u"+itoa(t), func() { c.user(itoa(t)+"_", c.view, ops, subs, probes) })
	}
	if n := s.Draw(vsim.SOps, 8); n > 0 {
		var ops []fsop.Op
		for ; n > 0; n-- {
			ops = append(ops, c.outsider(g, &serial)...)
		}
		s.Go("out", func() {
			for _, op := range ops {
				vsim.Yield(vsim.KOp, 0xdc000001)
				if s.Failed() || s.Dead() {
					return
				}
				if strings.HasPrefix(op.A, "w/in/") || strings.HasPrefix(op.B, "w/in/") {
					// nobody else moves it
					if i, err := c.parent.FS.Lstat("w/in"); err != nil || !i.IsDir() {
						continue
					}
				}
				if op.A == "w/in" {
					c.moved = true
				}
				res := c.parent.Do(op)
				s.Logf("outside: %s -> %s (%s)", op, res.Class, c.err(res.Err))
			}
		})
	}
	s.Run()
	if s.Failed() || s.Stuck != "" {
		return
	}
	if got := c.truth(); got != c.want {
		s.Fail("outside-changed", "outside the view there was\n%s\nnow\n%s", c.want, got)
	}
}

// cPrefix seeds below a directory.
type cPrefix struct {
	fsop.FS
	p string
}

func (d cPrefix) MkdirAll(n string, p fs.FileMode) error { return d.FS.MkdirAll(path.Join(d.p, n), p) }
func (d cPrefix) Mkdir(n string, p fs.FileMode) error    { return d.FS.Mkdir(path.Join(d.p, n), p) }
func (d cPrefix) Symlink(t, n string) error              { return d.FS.Symlink(t, path.Join(d.p, n)) }
func (d cPrefix) OpenFile(n string, f int, p fs.FileMode) (vroot.File, error) {
	return d.FS.OpenFile(path.Join(d.p, n), f, p)
}

var containMem = &Scenario{
	Name: "contained-memfs",
	Doc:  "1-2 tasks work through a view of an in-memory tree (plain, path-converting, read-only or through io/fs; nested views opened on the way) with every spelling and link, while another task swaps directories for links, moves them and the view itself outside and back, preempted at every statement; nothing born outside may be seen, changed or removed, lexical escapes must be refused with the escape error",
	Run: func(s *vsim.Sim) {
		s.Configure()
		c := &contain{s: s, kind: "memfs", links: true}
		real := memfs.New("mem")
		c.parent = fsop.NewWorld(vroot.Widen(real))
		buildOutside(c.parent.FS)
		r, err := real.OpenRoot("w/in")
		if err != nil {
			s.HarnessFail("openroot: %v", err)
			return
		}
		k := s.Draw(vsim.SCfg, 5)
		s.Logf("view: %s", wrapperNames[k])
		c.view = wrapped[vroot.File](r, k)
		c.truth = func() string { return outsideState(c.parent.FS) }
		c.run()
	},
}

var containPrefix = &Scenario{
	Name: "contained-prefix",
	Doc:  "the same through a path-prefixed view (its documented limits: links are followed by the file system below), spellings only",
	Run: func(s *vsim.Sim) {
		s.Configure()
		c := &contain{s: s, kind: "prefix"}
		real := memfs.New("mem")
		c.parent = fsop.NewWorld(vroot.Widen(real))
		buildOutside(c.parent.FS)
		var mk func(f fsop.FS, n string) (*cview, error)
		native := s.Draw(vsim.SCfg, 2) == 0
		mk = func(f fsop.FS, n string) (*cview, error) {
			var p fsop.FS
			var err error
			if native {
				p, err = vroot.Sub[vroot.File](f, n)
			} else {
				p, err = vroot.NewPathPrefixFs[vroot.File](f, n)
			}
			if err != nil {
				return nil, err
			}
			return &cview{fs: p, close: func() {}, open: func(n string) (*cview, error) { return mk(p, n) }}, nil
		}
		v, err := mk(c.parent.FS, "w/in")
		if err != nil {
			s.HarnessFail("prefix: %v", err)
			return
		}
		c.view = v
		c.truth = func() string { return outsideState(c.parent.FS) }
		c.run()
	},
}

var containOverlay = &Scenario{
	Name: "contained-overlay",
	Doc:  "the same through a view opened from an overlay over 1-3 lowers, part of the tree in lower layers; nothing may reach beyond the view nor write to a lower",
	Run: func(s *vsim.Sim) {
		s.Configure()
		o := newOvl(s, []string{"a", "b", "n"})
		for i, l := range o.layers {
			if i > 0 && s.Draw(vsim.SCfg, 2) == 0 {
				obs := l.d.Observe
				l.d.Observe = nil
				buildOutside(l.content())
				g := fsop.NewGen(s, o.names, 2, nil, nil)
				g.Plan = fsop.NewWorld(simfs.Model("plan"))
				g.Links = cLinks
				seedTree(s, g, s.Draw(vsim.SOps, 5), fsop.NewWorld(cPrefix{l.content(), "w/in"}))
				l.d.Observe = obs
			}
		}
		if err := o.open(); err != nil {
			s.HarnessFail("open: %v", err)
			return
		}
		defer o.fs.Close()
		c := &contain{s: s, kind: "overlay", links: true, parent: o.rw}
		buildOutside(c.parent.FS)
		r, err := o.fs.OpenRoot("w/in")
		if err != nil {
			s.Fail("openroot", "OpenRoot: %v", err)
			return
		}
		k := s.Draw(vsim.SCfg, 5)
		s.Logf("view: %s", wrapperNames[k])
		c.view = wrapped[vroot.File](r, k)
		c.truth = func() string { return outsideState(c.parent.FS) }
		c.run()
	},
}

var containOS = &Scenario{
	Name: "contained-osfs",
	Doc:  "the same through osfs.Root (opened directly, from osfs.Fs or from another Root; plain and wrapped) and, spellings only, osfs.Fs on a real scratch directory; calls of the tasks interleave whole",
	Run: func(s *vsim.Sim) {
		s.Configure()
		tmp := scratchDir(s, "contain-")
		if tmp == "" {
			return
		}
		// deep enough for every ".." to stay in the scratch directory
		top := filepath.Join(tmp, "x", "x", "x", "x")
		if err := os.MkdirAll(top, 0o755); err != nil {
			s.HarnessFail("scratch: %v", err)
			return
		}
		pr, err := osfs.NewRoot(top)
		if err != nil {
			s.HarnessFail("root: %v", err)
			return
		}
		defer pr.Close()
		c := &contain{s: s, kind: "osfs", tmp: top, links: true, parent: fsop.NewWorld(vroot.Widen(pr))}
		buildOutside(c.parent.FS)
		k := s.Draw(vsim.SCfg, 5)
		switch s.Draw(vsim.SCfg, 4) {
		case 0, 1:
			r, err := osfs.NewRoot(filepath.Join(top, "w/in"))
			if err != nil {
				s.HarnessFail("root: %v", err)
				return
			}
			c.view = walking(wrapped[*osfs.File](r, k))
		case 2:
			f, err := osfs.NewFs(filepath.Join(top, "w"))
			if err != nil {
				s.HarnessFail("fs: %v", err)
				return
			}
			r, err := f.OpenRoot("in")
			if err != nil {
				s.Fail("openroot", "OpenRoot: %v", err)
				return
			}
			c.view = walking(wrapped[*osfs.File](r, k))
		case 3:
			f, err := osfs.NewFs(filepath.Join(top, "w/in"))
			if err != nil {
				s.HarnessFail("fs: %v", err)
				return
			}
			k = 0
			c.links = false
			c.kind = "osfs-fs"
			c.view = &cview{fs: vroot.Widen(f), close: func() {}, open: func(n string) (*cview, error) {
				r, err := f.OpenRoot(n)
				if err != nil {
					return nil, err
				}
				return walking(rooted[*osfs.File](r)), nil
			}}
		}
		defer c.view.close()
		s.Logf("view: %s %s", c.kind, wrapperNames[k])
		c.truth = func() string { return outsideState(c.parent.FS) }
		c.run()
	},
}

func init() {
	register(&Check{Property: "P16", Quick: 160000, Thorough: 3000000,
		Parts: []Part{{containMem, 6}, {containOverlay, 3}, {containPrefix, 2}, {containOS, 2}},
		Real:  []string{"vroot/synthfs", "vroot/memfs", "vroot wrappers", "vroot/osfs", "vroot-adapter/overlayfs", "os.Root"},
		Stub:  []string{"disks under the overlay's layers"},
		Assumptions: []string{"path-prefixed views and osfs.Fs follow links below them, as documented: they are searched by spelling only",
			"preemption inside the standard library's os.Root is not simulated"}})
}
