package scen

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/ssync"
	"verif.local/sim/vsim"
)

// wfile and wdisk are a file system with its own file type, as Widen is for.
type wfile struct{ vroot.File }

type wdisk struct{ vroot.Fs[vroot.File] }

func (w wdisk) Open(n string) (wfile, error) {
	f, err := w.Fs.Open(n)
	return wfile{f}, err
}
func (w wdisk) Create(n string) (wfile, error) {
	f, err := w.Fs.Create(n)
	return wfile{f}, err
}
func (w wdisk) OpenFile(n string, flag int, p fs.FileMode) (wfile, error) {
	f, err := w.Fs.OpenFile(n, flag, p)
	return wfile{f}, err
}

// wnative brings its own whole-file reads and sub-trees.
type wnative struct{ wdisk }

func (w wnative) ReadDir(n string) ([]fs.DirEntry, error) {
	return vroot.ReadDir[vroot.File](w.Fs, n)
}
func (w wnative) ReadFile(n string) ([]byte, error) { return vroot.ReadFile[vroot.File](w.Fs, n) }
func (w wnative) Sub(n string) (vroot.Fs[wfile], error) {
	p, err := vroot.NewPathPrefixFs[vroot.File](w.Fs, n)
	if err != nil {
		return nil, err
	}
	return wnative{wdisk{p}}, nil
}

// wrapLayer is one wrapper: a prefix, or only cleaning ("" ).
type wrapLayer struct {
	kind   string
	prefix string // cleaned; of a prefixing layer
	clean  bool
}

// wrapRun drives a stack of wrappers against the file system below it.
type wrapRun struct {
	far    []string
	s      *vsim.Sim
	disk   *simfs.Disk
	plan   *simfs.Plan
	layers []wrapLayer // bottom first
	w, m   *fsop.World
	io     map[int]bool // handles opened through the io/fs view
	tree   int
	openAt map[int]int
}

// mapName is where a name of the view leads; ok is false when it leads out of
// some layer, base says that the topmost prefixing layer's own directory is meant.
func (x *wrapRun) mapName(n string, view int) (p string, ok, base bool) {
	p, ok = n, true
	ls := x.layers
	if view == 1 {
		ls = append(append([]wrapLayer{}, ls...), wrapLayer{kind: "io", clean: true, prefix: "."})
	}
	for i := len(ls) - 1; i >= 0; i-- {
		l := ls[i]
		if l.clean {
			p = path.Clean(p)
		}
		if l.prefix == "" {
			continue
		}
		if p != "." && (strings.HasPrefix(p, "/") || p == ".." || strings.HasPrefix(p, "../")) {
			return p, false, false
		}
		if p == "." && l.kind != "io" {
			base = true
		}
		p = path.Join(l.prefix, p)
	}
	return p, true, base
}

func (x *wrapRun) dump() string { return x.disk.Dump(wrapDump) }

var wrapDump = simfs.DumpOpt{Perm: true, Links: true, Owner: true}

var wrapMix = []fsop.KW{{"lstat", 4}, {"stat", 4}, {"mkdir", 4}, {"mkdirall", 4}, {"remove", 5}, {"removeall", 6}, {"rename", 6}, {"link", 4},
	{"symlink", 4}, {"readlink", 3}, {"chmod", 3}, {"chown", 2}, {"lchown", 2}, {"chtimes", 2}, {"mtime", 2}, {"open", 8}, {"close", 4}, {"read", 4}, {"readat", 3},
	{"write", 5}, {"writeat", 3}, {"truncate", 2}, {"sync", 1}, {"fchmod", 2}, {"seek", 3}, {"fstat", 3}, {"readdir", 3}, {"list", 5}, {"readfile", 6},
	{"listpieces", 3}, {"writefile", 8}, {"appendfile", 3}, {"dirprobe", 2}, {"closeprobe", 1}, {"narrow", 2}, {"createwrite", 2}, {"iocall", 1}}

var wrapReads = kinds("lstat", "narrow", "stat", "readlink", "mtime", "list", "readfile", "listpieces")

// wrapMutates: the file system below may have done part of it when it fails.
var wrapMutates = kinds("mkdir", "mkdirall", "remove", "removeall", "rename", "link", "symlink", "chmod", "chown", "lchown", "chtimes", "write", "writeat",
	"truncate", "fchmod", "writefile", "appendfile", "createwrite", "open", "sync", "close")

func ownerOps(f fsop.FS, op fsop.Op) (string, error) {
	if op.Kind == "chown" {
		return "", f.Chown(op.A, op.N, int(op.Off))
	}
	if op.Kind == "narrow" {
		return narrowed(f, op.A, func(h vroot.File) fs.File { return h })
	}
	return "", f.Lchown(op.A, op.N, int(op.Off))
}

// narrowed reads all there is of an entry through what to makes of its handle.
func narrowed(f fsop.FS, name string, to func(vroot.File) fs.File) (string, error) {
	h, err := f.Open(name)
	if err != nil {
		return "", err
	}
	n := to(h)
	defer n.Close()
	i, err := n.Stat()
	if err != nil {
		return "", err
	}
	v := fsop.InfoStr(i)
	v = v[strings.IndexByte(v, ' ')+1:]
	if i.IsDir() {
		d, ok := n.(fs.ReadDirFile)
		if !ok {
			return "a directory that cannot be listed", nil
		}
		es, err := d.ReadDir(-1)
		for _, e := range es {
			if i, err := e.Info(); err == nil {
				v += " " + fsop.InfoStr(i)
			}
		}
		return v + fsop.Entries(es), err
	}
	b, err := io.ReadAll(n)
	return v + " " + fsop.Digest(b), err
}

// ioCall draws a call of the standard read-only interface, now and then with a
// name that interface has no place for.
func ioCall(s *vsim.Sim, op fsop.Op, a string) fsop.Op {
	op.N = s.Draw(vsim.SOps, 6)
	if s.Draw(vsim.SOps, 3) == 2 {
		op.A = [...]string{"", "/" + a, a + "/", "./" + a, a + "//" + a, a + "/../" + a, "..", "../" + a, a + "/.", "./", a + "\x00"}[s.Draw(vsim.SOps, 11)]
	}
	return op
}

func ioValid(n string) bool { return fs.ValidPath(n) && !strings.Contains(n, "\x00") }

// ioRefused checks what came of a call with such a name.
func ioRefused(s *vsim.Sim, op fsop.Op, err error) {
	var pe *fs.PathError
	if !errors.Is(err, fs.ErrInvalid) || !errors.As(err, &pe) {
		s.Fail("invalid-name-taken", "call %d of the io/fs view with %q -> %v, want an invalid-name error", op.N, op.A, err)
	}
}

// ioWant is what such a call gives by the file system's own methods.
func ioWant(f fsop.FS, op fsop.Op) (val string, err error) {
	switch op.N {
	case 0:
		var b []byte
		if b, err = fsop.ReadFile(f, op.A); err == nil {
			val = fsop.Digest(b)
		}
	case 1, 5:
		var l []fs.DirEntry
		if l, err = fsop.ReadDir(f, op.A); err == nil {
			val = fsop.Entries(l)
		}
	case 2, 3:
		var i fs.FileInfo
		if op.N == 2 {
			i, err = f.Stat(op.A)
		} else {
			i, err = f.Lstat(op.A)
		}
		if err == nil {
			val = fsop.InfoStr(i)
			if op.N == 2 || op.A == "." {
				val = val[strings.IndexByte(val, ' ')+1:]
			}
		}
	case 4:
		val, err = f.ReadLink(op.A)
	}
	return val, err
}

func wrapWorld(f fsop.FS) *fsop.World {
	w := fsop.NewWorld(f)
	w.Custom = ownerOps
	return w
}

func wrapScenario(s *vsim.Sim) {
	s.Configure()
	d := simfs.New("below")
	x := &wrapRun{s: s, disk: d, io: map[int]bool{}, openAt: map[int]int{}}
	p := d.Plain()
	_ = p.MkdirAll("srv/base/deep", 0o755)
	_ = p.MkdirAll("srv/out/dir", 0o755)
	_ = fsop.WriteFile(p, "srv/out/secret", []byte("secret"), 0o600)
	_ = p.Symlink("srv", "to-srv")
	_ = p.Symlink("./base", "srv/to-base")

	if s.Chance(vsim.SCfg, 0.01) {
		// much in one directory and much below another, wherever the tree begins
		s.MaxSteps = max(s.MaxSteps, farSteps)
		x.far = []string{"mn", "mn", "mn/e7", "mn/new", "dp" + strings.Repeat("/d", 40), "dp" + strings.Repeat("/d", 40) + "/f"}
		for _, r := range []string{".", "srv", "srv/base", "srv/base/deep"} {
			_ = p.MkdirAll(path.Join(r, "mn"), 0o755)
			for i := range 110 {
				_ = fsop.WriteFile(p, path.Join(r, "mn/e"+itoa(i)), nil, 0o644)
			}
			_ = p.MkdirAll(path.Join(r, x.far[4]), 0o755)
			_ = fsop.WriteFile(p, path.Join(r, x.far[5]), []byte("deep"), 0o644)
		}
	}

	var f fsop.FS = d
	switch s.Draw(vsim.SCfg, 4) {
	case 1:
		f = vroot.Widen[wfile](wdisk{d})
	case 2, 3:
		f = vroot.Widen[wfile](wnative{wdisk{d}})
	}
	x.plan = &simfs.Plan{Sim: s, ShortReads: 0.3, ShortWrites: true, AfterEffect: true, CloseLoses: true, Off: true,
		Kinds: kinds("open", "create", "read", "readat", "write", "writeat", "close", "sync", "truncate", "mkdir", "remove", "removeall", "rename", "link", "symlink",
			"readlink", "stat", "lstat", "readdir", "chmod", "chtimes", "chown", "fstat", "seek")}
	d.Plan = x.plan
	if s.Chance(vsim.SCfg, 0.7) {
		x.plan.MeanGap, x.plan.Max = []float64{3, 10, 25}[s.Draw(vsim.SCfg, 3)], 1+s.Draw(vsim.SCfg, 6)
	}
	steps := [][]string{{"srv", "./srv", "srv/.", "x/../srv", "to-srv", "to-srv//"}, {"base", "./base", "to-base", "base/x/.."}, {"deep", "deep/.", "../base/deep"}}
	depth := 0
	s.Go("u", func() {
		for n := s.Draw(vsim.SCfg, 5); n > 0; n-- {
			k := s.Draw(vsim.SCfg, 4)
			switch k {
			case 0, 1:
				if depth == len(steps) {
					continue
				}
				c := steps[depth]
				n := c[s.Draw(vsim.SCfg, len(c))]
				depth++
				var err error
				if k == 0 {
					f, err = mustFs(vroot.NewPathPrefixFs[vroot.File](f, n))
				} else {
					f, err = vroot.Sub[vroot.File](f, n)
				}
				if strings.HasPrefix(path.Clean(n), "..") && depth > 1 {
					// out of the layer below: refused
					if !errors.Is(err, vroot.ErrPathEscapes) {
						s.Fail("escape-allowed", "a sub-tree at %q gave %v", n, err)
						return
					}
					s.Probe("sub-escape")
					f = nil
				} else if err != nil {
					s.Fail("sub-refused", "a sub-tree at %q of an existing directory: %v", n, err)
					return
				}
				s.Logf("layer: sub-tree %q (%d)", n, k)
				if f == nil {
					return
				}
				x.layers = append(x.layers, wrapLayer{kind: "prefix", prefix: path.Clean(n), clean: true})
			case 2:
				f = vroot.NewPathNormalizerFs[vroot.File](f)
				x.layers = append(x.layers, wrapLayer{kind: "normalizer", clean: true})
				s.Logf("layer: normalizer")
			case 3:
				f = vroot.NewPathLocalizerFs[vroot.File](f)
				x.layers = append(x.layers, wrapLayer{kind: "localizer", clean: true})
				s.Logf("layer: localizer")
			}
		}
		x.history(f)
	})
	s.Run()
}

func mustFs(p *vroot.PathPrefixFs[vroot.File], err error) (fsop.FS, error) {
	if err != nil {
		return nil, err
	}
	return p, nil
}

// ioView reads whole files and directories with the io/fs view's own methods.
type ioView struct {
	fsop.FS
	io fs.FS
}

func (v ioView) ReadFile(n string) ([]byte, error) {
	if !fs.ValidPath(n) {
		return fsop.ReadFile(v.FS, n)
	}
	return fs.ReadFile(v.io, n)
}

func (v ioView) ReadDir(n string) ([]fs.DirEntry, error) {
	if !fs.ValidPath(n) {
		return vroot.ReadDir[vroot.File](struct{ fsop.FS }{v.FS}, n)
	}
	return fs.ReadDir(v.io, n)
}

func (x *wrapRun) history(f fsop.FS) {
	s := x.s
	x.w = wrapWorld(f)
	x.w.Lib = true
	x.w.Custom = func(f fsop.FS, op fsop.Op) (string, error) {
		if op.Kind == "narrow" {
			return narrowed(f, op.A, vroot.NarrowFile)
		}
		return ownerOps(f, op)
	}
	iof := vroot.ToIoFs[vroot.File](f)
	x.w.Views = []fsop.FS{nil, ioView{vroot.FromIoFs(iof.(fs.ReadLinkFS), "io"), iof}}
	x.m = wrapWorld(x.disk.Clone())
	g := fsop.NewGen(s, drawNames(s)[:2+s.Draw(vsim.SCfg, 2)], 3, wrapMix, nil)
	g.Perms = []fs.FileMode{0o755, 0o700, 0o711, 0o640}
	g.Views, g.WholeDirs = 1, true
	g.Far = x.far
	n := 3 + s.Draw(vsim.SOps, 22)
	x.plan.Off = false
	for i := 0; i < n && !s.Failed(); i++ {
		vsim.Yield(vsim.KOp, 0xde000000)
		g.Plan = nil
		root, _, _ := x.mapName(".", 0)
		c := x.disk.Clone()
		if i, err := c.Stat(root); err == nil && i.IsDir() {
			c.AddView(1, root)
			g.Plan = wrapWorld(c.View(1))
		}
		g.Mine = sortedInts(x.w.H)
		op := g.Next()
		if op.Kind == "iocall" {
			// the names it has no place for
			if op = ioCall(s, op, g.Names[0]); !ioValid(op.A) {
				_, err := roIoFs(iof, op)
				s.Logf("io call %d of %q -> %v", op.N, op.A, err)
				ioRefused(s, op, err)
			}
			continue
		}
		if op.Kind == "chown" || op.Kind == "lchown" {
			op.N, op.Off = 1+s.Draw(vsim.SOps, 3), int64(10+s.Draw(vsim.SOps, 3))
		}
		x.step(x.spell(op, g))
	}
}

// spell respells names.
func (x *wrapRun) spell(op fsop.Op, g *fsop.Gen) fsop.Op {
	s := x.s
	re := func(p string) string {
		a := g.Names[s.Draw(vsim.SOps, len(g.Names))]
		switch s.Draw(vsim.SOps, 30) {
		case 29:
			return "./" + p
		case 28:
			return a + "/../" + p
		case 27:
			return p + "/."
		case 26:
			return p + "//" + a
		case 25:
			return [...]string{".", "./", a + "/..", a + "/./../" + a + "/.."}[s.Draw(vsim.SOps, 4)]
		case 24:
			return [...]string{"..", "../out/secret", a + "/../../out/dir", "/srv/out/secret", "../base/" + a, "../" + p}[s.Draw(vsim.SOps, 6)]
		}
		return p
	}
	switch op.Kind {
	case "close", "read", "readat", "write", "writeat", "truncate", "sync", "fchmod", "seek", "fstat", "readdir":
	case "symlink":
		op.B = re(op.B)
	case "rename", "link":
		op.A, op.B = re(op.A), re(op.B)
	default:
		op.A = re(op.A)
	}
	return op
}

func (x *wrapRun) step(op fsop.Op) {
	s := x.s
	mop, ok, base := op, true, false
	handle := false
	switch op.Kind {
	case "close", "read", "readat", "write", "writeat", "truncate", "sync", "fchmod", "seek", "fstat", "readdir":
		handle = true
	case "symlink":
		mop.B, ok, base = x.mapName(op.B, op.View)
	case "rename", "link":
		var o1, o2, b1, b2 bool
		mop.A, o1, b1 = x.mapName(op.A, op.View)
		mop.B, o2, b2 = x.mapName(op.B, op.View)
		ok, base = o1 && o2, b1 || b2
	default:
		mop.A, ok, base = x.mapName(op.A, op.View)
	}
	if handle {
		if x.w.H[op.H] == nil {
			return
		}
		if x.io[op.H] && op.Kind != "close" && op.Kind != "read" && op.Kind != "readat" && op.Kind != "seek" && op.Kind != "fstat" && op.Kind != "readdir" {
			return
		}
	}
	readOnly := op.View == 1 && !handle && !(wrapReads[op.Kind] || (op.Kind == "open" || op.Kind == "closeprobe") && !writesFlag(op.Flag))
	if op.View == 1 && op.Kind == "dirprobe" {
		return
	}
	mop.View = 0
	before := x.disk.Clone()
	was := x.dump()
	errs := len(x.plan.Errs)
	// what one read takes is compared to the byte
	x.plan.Off = op.Kind == "read" || op.Kind == "readat"
	res := x.w.Do(op)
	x.plan.Off = false
	s.Logf("%s -> %s %v", op, res, res.Err)
	s.State(op.Kind + res.Class)
	if s.Failed() {
		return
	}
	if op.Kind == "close" {
		delete(x.w.H, op.H)
	}
	faults := x.plan.Errs[errs:]
	now := x.dump()
	if now != was {
		x.tree++
	}
	if n := x.disk.OpenHandles(); n != len(x.w.H) {
		s.Fail("handle-left", "after %s -> %v the file system below has %d open files %v, the user %d", op, res.Err, n, x.disk.OpenNames(), len(x.w.H))
		return
	}
	unchanged := func(why string) {
		if now != was {
			s.Fail("changed", "%s (%s) changed the tree below to\n%s\nfrom\n%s", op, why, now, was)
		}
	}
	switch {
	case readOnly:
		if res.Err == nil {
			s.Fail("io-view-writes", "%s through the io/fs view succeeded", op)
			return
		}
		unchanged("through the io/fs view")
		return
	case !ok:
		if res.Err == nil || len(faults) == 0 && !errors.Is(res.Err, vroot.ErrPathEscapes) {
			s.Fail("escape-allowed", "%s -> %v, want the escape error", op, res.Err)
			return
		}
		unchanged("leading out")
		return
	case op.Kind == "removeall" && base:
		if res.Err == nil || len(faults) == 0 && !errors.Is(res.Err, syscall.EINVAL) {
			s.Fail("base-removed", "%s of the wrapper's own directory gave %v", op, res.Err)
			return
		}
		unchanged("of the wrapper's own directory")
		return
	case op.Kind == "removeall" && strings.HasSuffix(op.A, "/.") && errors.Is(res.Err, syscall.EINVAL):
		unchanged("refused")
		return
	}
	want := x.m.Do(mop)
	switch op.Kind {
	case "close":
		delete(x.m.H, op.H)
	case "open":
		x.openAt[op.H] = x.tree
		x.io[op.H] = op.View == 1
	case "mtime":
		if i, err := before.Lstat(mop.A); err == nil {
			want.Val = fmt.Sprint(i.ModTime().UnixNano())
		}
	case "chtimes":
		if res.Err == nil {
			if i, err := x.disk.Plain().Stat(mop.A); err != nil || i.ModTime().Unix() != op.Time {
				s.Fail("times-wrong", "%s succeeded; below is %v %v", op, i, err)
				return
			}
		}
	}
	if op.Kind == "readdir" && x.io[op.H] && x.openAt[op.H] != x.tree {
		return
	}
	md := x.m.FS.(*simfs.Disk)
	switch {
	case len(faults) == 0:
		if op.View == 1 && (op.Kind == "lstat" || op.Kind == "stat") && op.A != path.Clean(op.A) {
			break
		}
		if !sameErr(op, res, want) {
			s.Fail("result-differs", "%s gave %s (%v); %s below gives %s (%v)", op, res, res.Err, mop, want, want.Err)
			return
		}
		if op.View == 0 && res.Class != want.Class && op.Kind != "close" {
			s.Fail("error-differs", "%s gave %v; %s below gives %v", op, res.Err, mop, want.Err)
			return
		}
		if m := md.Dump(wrapDump); now != m {
			s.Fail("effect-differs", "after %s -> %v the tree is\n%s\n%s below makes\n%s", op, res.Err, now, mop, m)
		}
	case res.Err == nil && op.Kind != "dirprobe":
		for i, k := range x.plan.Hit[errs:] {
			if !kinds("open", "read", "readat", "stat", "lstat", "readdir", "readlink", "fstat", "seek")[k] &&
				op.Kind != "closeprobe" && (k != "close" || op.Kind == "close" || op.Kind == "writefile" || op.Kind == "appendfile" || op.Kind == "createwrite") {
				s.Fail("fault-hidden", "%s succeeded though %v", op, faults[i])
				return
			}
		}
		s.Probe("succeeded-in-spite")
		if want.Err != nil || res.Val != want.Val {
			s.Fail("false-success", "%s gave %s in spite of %v; %s below gives %s (%v)", op, res, faults, mop, want, want.Err)
			return
		}
		if m := md.Dump(wrapDump); now != m {
			s.Fail("false-success", "%s succeeded in spite of %v; the tree is\n%s\n%s below makes\n%s", op, faults, now, mop, m)
		}
	default:
		s.Probe("failed")
		if !wrapMutates[op.Kind] && op.Kind != "dirprobe" {
			unchanged("failed")
		}
		x.resync()
	}
}

// resync takes what is there as the new reference; all handles go.
func (x *wrapRun) resync() {
	x.plan.Off = true
	for _, h := range sortedInts(x.w.H) {
		_ = x.w.H[h].Close()
	}
	x.plan.Off = false
	x.w.H = map[int]vroot.File{}
	x.m = wrapWorld(x.disk.Clone())
}

// osTree is a real tree as text.
func osTree(top string) string {
	var b strings.Builder
	_ = filepath.WalkDir(top, func(p string, e fs.DirEntry, err error) error {
		n := strings.TrimPrefix(strings.TrimPrefix(p, top), "/")
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", n, err)
			return nil
		}
		i, err := os.Lstat(p)
		switch {
		case n == "":
		case err != nil:
			fmt.Fprintf(&b, "%s: %v\n", n, err)
		case i.IsDir():
			fmt.Fprintf(&b, "%s/ %o\n", n, i.Mode().Perm())
		case i.Mode()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			fmt.Fprintf(&b, "%s -> %s\n", n, t)
		default:
			c, err := os.ReadFile(p)
			if err != nil {
				fmt.Fprintf(&b, "%s: %v\n", n, err)
			}
			fmt.Fprintf(&b, "%s = %s %o\n", n, simfs.Digest(c), i.Mode().Perm())
		}
		return nil
	})
	return b.String()
}

// sameTree compares listings, whatever their order.
func sameTree(a, b string) bool {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	sort.Strings(x)
	sort.Strings(y)
	return slices.Equal(x, y)
}

var osMix = []fsop.KW{{"lstat", 3}, {"stat", 3}, {"mkdir", 5}, {"mkdirall", 3}, {"remove", 4}, {"removeall", 3}, {"rename", 6}, {"link", 3},
	{"symlink", 3}, {"readlink", 2}, {"chmod", 3}, {"chtimes", 2}, {"open", 8}, {"close", 3}, {"read", 3}, {"readat", 3}, {"write", 5}, {"writeat", 3},
	{"truncate", 2}, {"seek", 2}, {"fstat", 2}, {"readdir", 2}, {"list", 3}, {"readfile", 3}, {"writefile", 5}, {"fchmod", 1}, {"dirprobe", 2}, {"listpieces", 2}, {"closeprobe", 1}, {"openroot", 2}, {"createwrite", 2}, {"iocall", 3}}

// osSpell writes the names of op in other ways; out says one leads outside.
func osSpell(s *vsim.Sim, op fsop.Op, names []string, rooted bool) (fsop.Op, bool) {
	out := false
	re := func(p string) string {
		a := names[s.Draw(vsim.SOps, len(names))]
		switch s.Draw(vsim.SOps, 5) {
		case 0:
			return "./" + p
		case 1:
			if rooted {
				return p // a is looked at first
			}
			return a + "/../" + p
		case 2:
			out = true
			if rooted {
				return "../" + p
			}
			return a + "/../../" + p
		case 3:
			out = true
			return [...]string{"..", "../base", "../../x/base/" + p, "/nowhere/" + a, "../" + p}[s.Draw(vsim.SOps, 5)]
		}
		return p
	}
	switch op.Kind {
	case "close", "read", "readat", "write", "writeat", "truncate", "sync", "fchmod", "seek", "fstat", "readdir":
	case "symlink":
		op.B = re(op.B)
	case "rename", "link":
		op.A, op.B = re(op.A), re(op.B)
	default:
		op.A = re(op.A)
	}
	return op, out
}

// osScenario: the operating system's file system, opened in each way there is,
// against the reference.
func osScenario(s *vsim.Sim) {
	s.Configure()
	tmp := scratchDir(s, "osfs-")
	if tmp == "" {
		return
	}
	mask := syscall.Umask(0o022)
	atEnd = append(atEnd, func() { syscall.Umask(mask) })
	const in = "x/x/x/base"
	top := filepath.Join(tmp, "t", "t", "t", "t")
	if err := os.MkdirAll(filepath.Join(top, in), 0o755); err != nil {
		s.HarnessFail("scratch: %v", err)
		return
	}
	m := simfs.Model("model")
	_ = m.MkdirAll(in, 0o755)
	var f fsop.FS
	var openRoot func(name string) (fsop.FS, error)
	var iof fs.FS
	rooted := false
	kind := s.Draw(vsim.SCfg, 6)
	full := filepath.Join(top, in)
	mount := func() error {
		o, err := osfs.NewFs(full)
		if err != nil {
			return err
		}
		openRoot = func(name string) (fsop.FS, error) {
			sub, err := osfs.NewFs(filepath.Join(full, name))
			if err != nil {
				return nil, err
			}
			return vroot.Widen(sub), nil
		}
		var r *osfs.Root
		switch kind {
		case 0:
			f = vroot.Widen(o)
			iof = vroot.ToIoFs(o)
			return nil
		case 1:
			up, err := osfs.NewFs(filepath.Dir(full))
			if err != nil {
				return err
			}
			p, err := vroot.NewPathPrefixFs[*osfs.File](up, filepath.Base(full))
			if err != nil {
				return err
			}
			f = vroot.Widen[*osfs.File](p)
			iof = vroot.ToIoFs[*osfs.File](p)
			return nil
		case 2:
			r, err = osfs.NewRoot(full)
		case 3:
			r, err = o.OpenRoot(".")
		case 4:
			var up *osfs.Root
			if up, err = osfs.NewRoot(filepath.Dir(full)); err == nil {
				atEnd = append(atEnd, func() { up.Close() })
				r, err = up.OpenRoot(filepath.Base(full))
			}
		case 5:
			r, err = osfs.NewRoot(full)
			if err == nil {
				rooted = true
				atEnd = append(atEnd, func() { r.Close() })
				n := vroot.NewPathNormalizerRoot[*osfs.File](r)
				f = vroot.Widen[*osfs.File](n)
				iof = vroot.ToIoFsRoot[*osfs.File](n)
				openRoot = func(name string) (fsop.FS, error) {
					sub, err := n.OpenRoot(name)
					if err != nil {
						return nil, err
					}
					return vroot.Widen[*osfs.File](sub), nil
				}
			}
			return err
		}
		if err != nil {
			return err
		}
		rooted = true
		atEnd = append(atEnd, func() { r.Close() })
		f = vroot.Widen(r)
		iof = vroot.ToIoFsRoot[*osfs.File](r)
		openRoot = func(name string) (fsop.FS, error) {
			sub, err := r.OpenRoot(name)
			if err != nil {
				return nil, err
			}
			return vroot.Widen(sub), nil
		}
		return nil
	}
	if err := mount(); err != nil {
		s.Fail("open", "opening %d: %v", kind, err)
		return
	}
	s.Logf("kind %d", kind)
	rw, mw := fsop.NewWorld(f), fsop.NewWorld(nil)
	rw.Lib = true
	// a root opened at any name is the directory there, or refused
	rw.Custom = func(_ fsop.FS, op fsop.Op) (string, error) {
		if op.Kind == "iocall" {
			return roIoFs(iof, op)
		}
		sub, err := openRoot(op.A)
		if err != nil {
			if sub != nil {
				return "", fmt.Errorf("%v, with a root", err)
			}
			return "", err
		}
		es, err := fsop.ReadDir(sub, ".")
		if cerr := sub.Close(); err == nil {
			err = cerr
		}
		if err != nil {
			return "", err
		}
		return fsop.Entries(es), nil
	}
	mw.Custom = func(f fsop.FS, op fsop.Op) (string, error) {
		if op.Kind == "iocall" {
			return ioWant(f, op)
		}
		es, err := fsop.ReadDir(f, op.A)
		if err != nil {
			return "", err
		}
		return fsop.Entries(es), nil
	}

	if rooted {
		m.AddView(1, in)
		mw.FS = m.View(1)
	} else {
		// links are followed wherever they lead
		p, err := vroot.NewPathPrefixFs[vroot.File](m, in)
		if err != nil {
			s.HarnessFail("model: %v", err)
			return
		}
		mw.FS = p
	}
	atEnd = append(atEnd, func() {
		for _, h := range rw.H {
			h.Close()
		}
	})
	names := drawNames(s)[:2+s.Draw(vsim.SCfg, 2)]
	var gens []*fsop.Gen
	for t := 0; t < 1+s.Draw(vsim.SCfg, 3); t++ {
		var share *fsop.Gen
		if t > 0 {
			share = gens[0]
		}
		g := fsop.NewGen(s, names, 3, osMix, share)
		g.Perms = []fs.FileMode{0o755, 0o700, 0o711, 0o777}
		g.WholeDirs = true
		gens = append(gens, g)
	}
	noTmp := func(err error) string { return strings.ReplaceAll(fmt.Sprint(err), tmp, "") }
	var turn ssync.Mutex
	one := func(t int, g *fsop.Gen) {
		if s.Failed() {
			return
		}
		md := m.Clone()
		md.AddView(1, in)
		g.Plan = fsop.NewWorld(md.View(1))
		g.Plan.Custom = mw.Custom
		op := g.Next()
		if op.Kind == "rename" {
			// the standard library refuses to replace any directory
			if i, err := mw.FS.Lstat(op.B); err == nil && i.IsDir() {
				return
			}
		}
		if op.Kind == "seek" && (op.Off != 0 || op.N != 0) && mw.H[op.H] != nil {
			// where a directory's end is differs between file systems
			if i, err := mw.H[op.H].Stat(); err == nil && i.IsDir() {
				return
			}
		}
		if op.Kind == "iocall" {
			if op = ioCall(s, op, names[0]); !ioValid(op.A) {
				_, err := roIoFs(iof, op)
				s.Logf("u%d io call %d of %q -> %s", t, op.N, op.A, noTmp(err))
				ioRefused(s, op, err)
				return
			}
		}
		if op.Kind == "mkdirall" && rooted {
			// os.Root.MkdirAll creates directories a dangling link names on its way
			for _, c := range ancestry(path.Clean(op.A)) {
				if _, err := mw.FS.Stat(c); err != nil {
					if _, err := mw.FS.Lstat(c); err == nil {
						return
					}
					break
				}
			}
		}
		mop := op
		if op.Kind != "iocall" && (rooted || op.Kind != "openroot") && s.Draw(vsim.SOps, 12) == 11 {
			var out bool
			if op, out = osSpell(s, op, names, rooted); out {
				was := osTree(top)
				res := rw.Do(op)
				s.Logf("u%d %s -> %s", t, op, res)
				s.State(op.Kind + res.Class)
				if res.Err == nil || !errors.Is(res.Err, vroot.ErrPathEscapes) && !(rooted && op.B != "") {
					s.Fail("escape-allowed", "%s gave %s (%s), want the escape error", op, res, noTmp(res.Err))
				}
				if now := osTree(top); now != was {
					s.Fail("escape-changed", "after %s the tree is\n%s\nit was\n%s", op, now, was)
				}
				return
			}
		}
		a, b := rw.Do(op), mw.Do(mop)
		s.Logf("u%d %s -> %s", t, op, a)
		s.State(op.Kind + a.Class)
		if op.Kind == "readdir" && a.Class == "ENOENT" && b.Val == "[]" {
			return // of a removed directory
		}
		if op.Kind == "close" {
			delete(rw.H, op.H)
			delete(mw.H, op.H)
		}
		if !sameErr(op, a, b) || op.B == "" && errors.Is(b.Err, fs.ErrNotExist) && !errors.Is(a.Err, fs.ErrNotExist) {
			s.Fail("result-differs", "%s gave %s (%s); a plain file system gives %s (%v)", op, a, noTmp(a.Err), b, b.Err)
			return
		}
		if op.Kind == "chtimes" && a.Err == nil {
			if c, ok := m.Canonical(path.Join(in, op.A), true); ok {
				if i, err := os.Stat(filepath.Join(top, c)); err != nil || i.ModTime().Unix() != op.Time {
					s.Fail("times-wrong", "%s succeeded; the file has %v %v", op, i, err)
					return
				}
			}
		}
		if x, y := osTree(top), m.Dump(simfs.DumpOpt{Perm: true}); !sameTree(x, y) {
			s.Fail("effect-differs", "after %s -> %s the tree is\n%s\na plain file system makes\n%s", op, noTmp(a.Err), x, y)
			return
		}
	}
	for t, g := range gens {
		n := 4 + s.Draw(vsim.SOps, 20)
		s.Go("u"+itoa(t), func() {
			for i := 0; i < n && !s.Failed(); i++ {
				vsim.Yield(vsim.KOp, 0xdf000000+uint32(t))
				turn.Lock() // calls interleave whole: the reference has no insides
				one(t, g)
				turn.Unlock()
			}
		})
	}
	s.Run()
}

func init() {
	so := &Scenario{Name: "osfs-equals-plain", Run: osScenario,
		Doc: "histories of 1-3 users, their calls interleaved whole, on the operating system's file system in a scratch directory, as an unprivileged user, through osfs.Fs, osfs.Root opened in three ways and wrapped; every result and the whole real tree are compared with the reference"}
	sc := &Scenario{Name: "wrappers", Run: wrapScenario,
		Doc: "histories of every operation through 0-4 nested wrappers (path prefixes, sub-trees with and without native support, through links, normalizer, localizer, widened file systems, the io/fs view and back) over one file system that fails, stops short or fails after the effect at any operation; every result and the whole tree below are compared with the same operation on the mapped name, and open handles below are counted"}
	register(&Check{Property: "P30", Quick: 150000, Thorough: 3000000, Parts: []Part{{sc, 6}, {so, 1}},
		Real:        []string{"vroot (path prefix, Sub, normalizer, localizer, Widen, ToIoFs, FromIoFs, ReadFile, ReadDir, WriteFile)", "vroot/osfs", "os, os.Root and the operating system's file system under osfs"},
		Stub:        []string{"the file system below the wrappers (a simulated disk)", "time"},
		Assumptions: []string{"wrappers clean names as text before passing them on, as documented", "a recursive removal of a name ending in /. may be refused or mean the name"}})
}
