package scen

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

var roMix = []fsop.KW{{"lstat", 3}, {"stat", 3}, {"mkdir", 2}, {"mkdirall", 2}, {"remove", 2}, {"removeall", 2}, {"rename", 2}, {"link", 1},
	{"symlink", 1}, {"readlink", 2}, {"chmod", 2}, {"chtimes", 1}, {"open", 12}, {"close", 2}, {"read", 5}, {"readat", 4}, {"write", 3}, {"writeat", 2},
	{"truncate", 2}, {"sync", 1}, {"fchmod", 1}, {"seek", 3}, {"fstat", 3}, {"readdir", 4}, {"infos", 3}, {"list", 3}, {"readfile", 2}, {"listpieces", 2},
	{"writefile", 2}, {"appendfile", 1}, {"create", 2}, {"chown", 1}, {"any", 6}, {"bridge", 8}}

// roFlags is every combination of access mode and modifiers.
func roFlags() []int {
	var out []int
	for acc := 0; acc < 4; acc++ {
		for m := 0; m < 32; m++ {
			f := acc
			for i, x := range []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND, os.O_SYNC} {
				if m&(1<<i) != 0 {
					f |= x
				}
			}
			out = append(out, f)
		}
	}
	return out
}

func writesFlag(f int) bool {
	return f&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0
}

var roMutates = kinds("mkdir", "mkdirall", "remove", "removeall", "rename", "link", "symlink", "chmod", "chtimes", "write", "writeat", "truncate",
	"fchmod", "writefile", "appendfile", "create", "chown")

// callAny calls some exported method of x with drawn arguments, whatever it
// does: what matters is what reaches the file system below.
func callAny(s *vsim.Sim, x any, p string) {
	v := reflect.ValueOf(x)
	t := v.Type()
	if t.NumMethod() == 0 {
		return
	}
	i := s.Draw(vsim.SOps, t.NumMethod())
	m, mt := v.Method(i), v.Method(i).Type()
	var args []reflect.Value
	for k := 0; k < mt.NumIn(); k++ {
		at := mt.In(k)
		if mt.IsVariadic() && k == mt.NumIn()-1 {
			break
		}
		switch {
		case at == reflect.TypeFor[[]byte]():
			args = append(args, reflect.ValueOf([]byte("zz")))
		case at == reflect.TypeFor[time.Time]():
			args = append(args, reflect.ValueOf(time.Unix(77, 0)))
		case at.Kind() == reflect.String:
			args = append(args, reflect.ValueOf(p).Convert(at))
		case at == reflect.TypeFor[vroot.LockLevel]():
			return
		case at.Kind() == reflect.Int, at.Kind() == reflect.Int64, at.Kind() == reflect.Uint32:
			args = append(args, reflect.ValueOf(s.Draw(vsim.SOps, 3)).Convert(at))
		case at == reflect.TypeFor[io.Reader]():
			args = append(args, reflect.ValueOf(strings.NewReader("zz")))
		case at == reflect.TypeFor[io.Writer]():
			args = append(args, reflect.ValueOf(new(bytes.Buffer)))
		default:
			return
		}
	}
	s.Logf("any %s.%s(%q)", t, t.Method(i).Name, p)
	m.Call(args)
}

func infosStr(l []fs.FileInfo) (string, bool) {
	var out []string
	for _, i := range l {
		if i == nil || reflect.ValueOf(i).Kind() == reflect.Pointer && reflect.ValueOf(i).IsNil() {
			return "", false
		}
		out = append(out, fsop.InfoStr(i))
	}
	sort.Strings(out)
	return strings.Join(out, "; "), true
}

// roStack wraps fsys in 1-3 views, at least one of them read-only; twin gets the
// others only.
func roStack(s *vsim.Sim, fsys, twin fsop.FS) (view, tw fsop.FS, desc string, ok bool) {
	n := 1 + s.Draw(vsim.SCfg, 3)
	at := s.Draw(vsim.SCfg, n) // one layer surely is read-only
	for i := 0; i < n; i++ {
		k := s.Draw(vsim.SCfg, 5)
		if i == at {
			k = s.Draw(vsim.SCfg, 2)
		}
		switch k {
		case 0:
			fsys, desc = vroot.Widen(vroot.NewReadOnlyFs(fsys)), desc+" readonly"
		case 1:
			fsys, desc = vroot.FromIoFs(vroot.ToIoFs(fsys).(fs.ReadLinkFS), "v"), desc+" iofs"
		case 2:
			a, err := vroot.Sub(fsys, "a")
			b, terr := vroot.Sub(twin, "a")
			if (err == nil) != (terr == nil) {
				s.Fail("sub-differs", "Sub(a) of the view: %v, of what it wraps: %v", err, terr)
				return nil, nil, "", false
			}
			if err == nil {
				fsys, twin, desc = a, b, desc+" sub"
			}
		case 3:
			fsys, desc = vroot.NewPathNormalizerFs(fsys), desc+" normalizer"
		case 4:
			fsys, desc = vroot.NewPathLocalizerFs(fsys), desc+" localizer"
		}
	}
	return fsys, twin, desc, true
}

func readOnly(conc bool) func(s *vsim.Sim) {
	return func(s *vsim.Sim) {
		s.Configure()
		names := []string{"a", "b", "c"}
		mem := !conc && s.Chance(vsim.SCfg, 0.35)
		disk := simfs.New("disk")
		disk.Quirks.LazyInfo = true
		// a view may not lean on handles of what it wraps refusing writes
		disk.Quirks.LaxAccess = s.Chance(vsim.SCfg, 0.5)
		plan := &simfs.Plan{Sim: s, Kinds: kinds("open", "read", "readat", "readdir", "stat", "lstat", "readlink", "fstat", "seek")}
		disk.Plan = plan
		plan.Off = true
		if s.Chance(vsim.SCfg, 0.4) {
			plan.MeanGap, plan.Max = 8, 3
			plan.ShortReads = 0.2
		}
		root := memfs.New("mem")
		var base fsop.FS = disk
		if mem {
			base = vroot.Widen(root)
		}
		bw := fsop.NewWorld(base)
		g0 := fsop.NewGen(s, names, 2, roMix, nil)
		g0.Flags = roFlags()
		_ = base.Mkdir("a", 0o755)
		for i, p := range []string{"a/a", "a/b", "b", "a/c", "c"} {
			switch s.Draw(vsim.SOps, 4) {
			case 0, 1:
				_ = vroot.WriteFile(base, p, bytes.Repeat([]byte{byte('p' + i)}, 1+4*i), 0o644)
			case 2:
				_ = base.Mkdir(p, 0o755)
			}
		}
		seedTree(s, g0, s.Draw(vsim.SOps, 7), bw)
		view, twin, desc := fsop.FS(nil), fsop.FS(nil), ""
		if mem && s.Chance(vsim.SCfg, 0.6) {
			ro := vroot.NewReadOnlyRoot(root)
			view, twin, desc = vroot.Widen(ro), base, "readonly-root"
			switch s.Draw(vsim.SCfg, 3) {
			case 1:
				sub, err := ro.OpenRoot("a")
				tsub, terr := root.OpenRoot("a")
				if err != nil || terr != nil {
					s.Fail("openroot", "OpenRoot(a): %v %v", err, terr)
					return
				}
				view, twin, desc = vroot.Widen(sub), vroot.Widen(tsub), "readonly-root sub-root"
			case 2:
				io := vroot.ToIoFsRoot(root)
				view, desc = vroot.FromIoFs(io.(fs.ReadLinkFS), "v"), "iofs-root"
			}
		} else {
			var ok bool
			if view, twin, desc, ok = roStack(s, base, base); !ok {
				return
			}
		}
		s.Logf("view:%s over mem=%v", desc, mem)
		dump := func() string {
			d, err := fsop.Dump(base, ".", fsop.DumpOpt{Perm: true})
			if err != nil {
				return "?" + err.Error()
			}
			return d
		}
		viewer := map[string]bool{}
		disk.AfterOp = func(op simfs.Op, err error) {
			if err == nil && op.Write && op.Kind != "sync" && viewer[s.CurName()] {
				s.Fail("modified", "through the read-only view %s %q reached the wrapped file system", op.Kind, op.Path)
			}
		}
		plan.Off = false
		initial := dump()
		nt := 1 + s.Draw(vsim.SCfg, 3)
		vw, tw := fsop.NewWorld(view), fsop.NewWorld(twin)
		gs := make([]*fsop.Gen, nt)
		for t := range nt {
			g := fsop.NewGen(s, names, 2, roMix, g0)
			g.Flags, g.WholeDirs = g0.Flags, true
			gs[t] = g
			var ops []fsop.Op
			for i := 4 + s.Draw(vsim.SOps, 14); i > 0; i-- {
				op := g.Next()
				switch op.Kind {
				case "open":
					if s.Draw(vsim.SOps, 3) > 0 {
						op.Flag &= os.O_SYNC | os.O_EXCL
					}
				case "infos":
					op.N = -s.Draw(vsim.SOps, 2)
					if s.Draw(vsim.SOps, 2) == 0 {
						op.N = 1 + s.Draw(vsim.SOps, 2)
					}
					op.A = []string{".", "a", op.A}[s.Draw(vsim.SOps, 3)]
				case "bridge":
					op.A, op.N = g.Path(), s.Draw(vsim.SOps, 6)
					op.Data = []string{"", "", "a", "b"}[s.Draw(vsim.SOps, 4)]
				case "any":
					if len(g.Mine) > 0 && s.Draw(vsim.SOps, 2) == 0 {
						op.H = g.Mine[s.Draw(vsim.SOps, len(g.Mine))]
					}
				}
				ops = append(ops, op)
			}
			name := "v" + itoa(t)
			viewer[name] = true
			s.Go(name, func() {
				for _, op := range ops {
					if s.Failed() {
						return
					}
					vsim.Yield(vsim.KOp, 0xd9000000+uint32(t))
					roStep(s, base, vw, tw, plan, disk, op, conc || nt > 1)
				}
			})
		}
		if conc {
			for t := range 1 + s.Draw(vsim.SCfg, 2) {
				g := fsop.NewGen(s, names, 2, []fsop.KW{{"writefile", 4}, {"remove", 4}, {"rename", 3}, {"mkdir", 2}, {"removeall", 1}, {"symlink", 1}}, g0)
				var ops []fsop.Op
				for i := 2 + s.Draw(vsim.SOps, 8); i > 0; i-- {
					ops = append(ops, g.Next())
				}
				s.Go("m"+itoa(t), func() {
					for _, op := range ops {
						vsim.Yield(vsim.KOp, 0xd9000100)
						s.Logf("m> %s: %s", op, bw.Do(op).Class)
					}
				})
			}
		}
		s.Run()
		if s.Failed() || conc {
			return
		}
		plan.Off = true
		if got := dump(); got != initial {
			s.Fail("modified", "after calls through the read-only view the wrapped file system holds\n%s\nbefore\n%s", got, initial)
		}
	}
}

// roStep runs one operation through the view and, where that makes sense, on
// what it wraps.
func roStep(s *vsim.Sim, base fsop.FS, vw, tw *fsop.World, plan *simfs.Plan, disk *simfs.Disk, op fsop.Op, shared bool) {
	if op.Kind == "any" {
		if h := vw.H[op.H]; op.H > 0 && h != nil {
			callAny(s, h, op.A)
			delete(vw.H, op.H) // its position is anyone's guess now
			delete(tw.H, op.H)
			return
		}
		if fsys := vw.FS; s.Draw(vsim.SOps, 3) > 0 {
			callAny(s, fsys, op.A)
		} else {
			if s.Draw(vsim.SOps, 2) == 0 {
				fsys = base // the bridge to io/fs is itself a read-only view
			}
			iof := vroot.ToIoFs(fsys)
			if f, err := iof.Open(op.A); err == nil {
				callAny(s, f, op.A)
				_ = f.Close()
			}
			callAny(s, iof, op.A)
		}
		return
	}
	fired := plan.Fired
	var res fsop.Result
	switch op.Kind {
	case "infos", "create", "chown", "bridge":
		res = roExtra(s, vw, op)
	default:
		res = vw.Do(op)
	}
	s.Logf("v> %s: %s %v", op, res, res.Err)
	s.State(op.Kind + res.Class)
	if s.Failed() {
		return
	}
	if roMutates[op.Kind] || op.Kind == "open" && writesFlag(op.Flag) {
		if res.Err == nil && res.Val != "no-handle" {
			s.Fail("not-refused", "%s through the read-only view succeeded", op)
		}
		return
	}
	if op.Kind == "sync" || op.Kind == "open" && op.Flag&os.O_APPEND != 0 && res.Err != nil {
		return // refusing these is caution, not a difference in what is read
	}
	faulted := plan.Fired != fired || plan.ShortReads > 0 && plan.MeanGap > 0 && strings.HasPrefix(op.Kind, "read")
	off := plan.Off
	plan.Off = true
	yields := disk.Yields
	disk.Yields = false
	var want fsop.Result
	switch op.Kind {
	case "infos":
		want = roExtra(s, tw, op)
	case "bridge":
		plain := op
		plain.Kind, plain.A = roBridge[op.N], path.Join(op.Data, op.A)
		want = tw.Do(plain)
		if plain.Kind == "lstat" && op.A == "." {
			want.Val = want.Val[strings.IndexByte(want.Val, ' ')+1:]
		}
	default:
		want = tw.Do(op)
	}
	disk.Yields = yields
	plan.Off = off
	if s.Failed() {
		return
	}
	if faulted || shared {
		if (vw.H[op.H] == nil) != (tw.H[op.H] == nil) || faulted {
			delete(vw.H, op.H)
			delete(tw.H, op.H)
		}
		if faulted && !shared && roWhole[op.Kind] && (res.Err == nil || res.Err == io.EOF) && res.Val != want.Val {
			s.Fail("fault-hidden", "%s through the view gives %s while a call below fails; the wrapped file system holds %s", op, res, want)
		}
		if faulted {
			return
		}
	}
	if op.Kind == "close" {
		return
	}
	if !shared && (res.Val != want.Val || (res.Err == nil) != (want.Err == nil) ||
		errors.Is(res.Err, fs.ErrNotExist) != errors.Is(want.Err, fs.ErrNotExist) || (res.Err == io.EOF) != (want.Err == io.EOF)) {
		s.Fail("read-differs", "%s through the view gives %s (%v), the wrapped file system gives %s (%v)", op, res, res.Err, want, want.Err)
	}
}

// roWhole is what must be right or fail, whatever fails below.
var roWhole = kinds("lstat", "stat", "readlink", "infos", "list", "readfile", "listpieces", "fstat", "bridge")

// roBridge is what a call through the io/fs interface amounts to.
var roBridge = []string{"readfile", "list", "stat", "lstat", "readlink", "list"}

// roIoFs makes a call through the standard read-only interface.
func roIoFs(fsys fs.FS, op fsop.Op) (val string, err error) {
	if op.Data != "" {
		if fsys, err = fs.Sub(fsys, op.Data); err != nil {
			return "", err
		}
	}
	switch op.N {
	case 0:
		var b []byte
		if b, err = fs.ReadFile(fsys, op.A); err == nil {
			val = fsop.Digest(b)
		}
	case 1, 5:
		var l []fs.DirEntry
		if op.N == 1 {
			l, err = fs.ReadDir(fsys, op.A)
		} else {
			var f fs.File
			if f, err = fsys.Open(op.A); err == nil {
				if d, ok := f.(fs.ReadDirFile); ok {
					l, err = d.ReadDir(-1)
				}
				_ = f.Close()
			}
		}
		if err == nil {
			val = fsop.Entries(l)
		}
	case 2, 3:
		var i fs.FileInfo
		if op.N == 2 {
			i, err = fs.Stat(fsys, op.A)
		} else {
			i, err = fs.Lstat(fsys, op.A)
		}
		if err == nil {
			val = fsop.InfoStr(i)
			if op.N == 2 || op.A == "." {
				val = val[strings.IndexByte(val, ' ')+1:]
			}
		}
	case 4:
		val, err = fs.ReadLink(fsys, op.A)
	}
	return val, err
}

// roExtra runs operations fsop has no word for.
func roExtra(s *vsim.Sim, w *fsop.World, op fsop.Op) fsop.Result {
	switch op.Kind {
	case "bridge":
		val, err := roIoFs(vroot.ToIoFs(w.FS), op)
		return fsop.Result{Class: fsop.Class(err), Val: val, Err: err}
	case "create":
		f, err := w.FS.Create(op.A)
		if err == nil {
			_ = f.Close()
		}
		return fsop.Result{Class: fsop.Class(err), Err: err}
	case "chown":
		err := w.FS.Chown(op.A, 1, 1)
		if err == nil {
			return fsop.Result{Class: "ok"}
		}
		err = w.FS.Lchown(op.A, 1, 1)
		if err == nil {
			return fsop.Result{Class: "ok"}
		}
		if h := w.H[op.H]; h != nil {
			err = h.Chown(1, 1)
		}
		return fsop.Result{Class: fsop.Class(err), Err: err}
	}
	h, err := w.FS.Open(op.A)
	if err != nil {
		return fsop.Result{Class: fsop.Class(err), Err: err}
	}
	defer h.Close()
	vals := ""
	for range 20 {
		l, err := h.Readdir(op.N)
		str, ok := infosStr(l)
		if !ok {
			s.Fail("nil-info", "Readdir(%d) of %s returned a nil entry (of %d)", op.N, op.A, len(l))
		}
		if err == nil && op.N > 0 && len(l) == 0 {
			s.Fail("no-progress", "Readdir(%d) returned nothing and no error", op.N)
		}
		vals += str + "|"
		if err != nil || op.N <= 0 || s.Failed() {
			return fsop.Result{Class: fsop.Class(err), Val: vals, Err: err}
		}
	}
	s.Fail("no-end", "Readdir(%d) of %s never ended", op.N, op.A)
	return fsop.Result{}
}

func init() {
	doc := "1-3 tasks make every kind of call, with every flag combination and through every method found by reflection, on stacks of read-only views, bridges to and from io/fs, sub-views and path adapters; nothing mutating may arrive below, mutators must be refused, "
	register(&Check{Property: "P24", Quick: 300000, Thorough: 12000000, Parts: []Part{
		{&Scenario{Name: "read-only-views", Run: readOnly(false), Doc: doc + "single-task reads must equal those of the wrapped file system"}, 2},
		{&Scenario{Name: "read-only-views-concurrent", Run: readOnly(true), Doc: doc + "while other tasks change the wrapped file system directly"}, 1}},
		Real: []string{"vroot (ReadOnlyFs, ReadOnlyRoot, ReadOnlyFile, FromIoFs, ToIoFs, ToIoFsRoot, Sub, path adapters, Widen)", "vroot/memfs in a third of the runs"},
		Stub: []string{"the wrapped file system (simulated disk) in the other runs"}})
}
