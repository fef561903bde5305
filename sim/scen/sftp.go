package scen

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/pkg/sftp"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/simsftp"
	"verif.local/sim/vsim"
)

var sftpMix = []fsop.KW{{"lstat", 4}, {"stat", 4}, {"mkdir", 4}, {"mkdirall", 4}, {"remove", 5}, {"removeall", 6}, {"rename", 5}, {"link", 2},
	{"symlink", 4}, {"readlink", 3}, {"chmod", 3}, {"open", 12}, {"close", 4}, {"read", 5}, {"readat", 4}, {"write", 6}, {"writeat", 4},
	{"truncate", 3}, {"sync", 2}, {"fchmod", 2}, {"seek", 4}, {"fstat", 3}, {"readdir", 4}, {"list", 4}, {"readfile", 5}, {"listpieces", 2},
	{"writefile", 8}, {"appendfile", 3}, {"chtimes", 2}, {"mtime", 2}, {"closeprobe", 1},
	{"setowner", 2}, {"setlowner", 1}, {"fsetowner", 1}, {"createwrite", 3}}

var sftpMutates = kinds("mkdir", "mkdirall", "remove", "removeall", "rename", "link", "symlink", "chmod", "write", "writeat", "truncate", "fchmod",
	"writefile", "appendfile", "open", "chtimes", "setowner", "setlowner", "fsetowner", "createwrite")

const sftpBase = "srv/base"

// sftpRun drives one sftp-backed file system, reconnecting when the connection
// is lost, against a plain one.
type sftpRun struct {
	s      *vsim.Sim
	srv    *simsftp.Server
	conn   *simsftp.Conn
	client *sftp.Client
	w      *fsop.World // over sftpfs
	m      *fsop.World // the plain file system, whole disk
	posix  bool
	base   string
	tree   int         // how often the tree has changed
	lib    bool        // through vroot.ReadDir, ReadFile and WriteFile
	openAt map[int]int // handle: the tree it was opened on
}

func (x *sftpRun) dial() bool {
	x.srv.Plan.Off = true
	defer func() { x.srv.Plan.Off = false }()
	x.conn = x.srv.Dial()
	c, err := sftp.NewClientPipe(x.conn, x.conn, sftp.UseConcurrentReads(false), sftp.UseFstat(true))
	if err != nil {
		x.s.HarnessFail("sftp client: %v", err)
		return false
	}
	x.client = c
	x.w = fsop.NewWorld(sftpfs.New(c, x.posix, x.base))
	x.w.Lib = x.lib
	return true
}

func (x *sftpRun) hangUp() {
	_ = x.client.Close() // waits until the client's receiver is gone
}

// mop is op as the plain file system has to do it; ok is false when the path
// leaves the base.
func (x *sftpRun) mop(op fsop.Op) (fsop.Op, bool) {
	ok := true
	in := func(p string) string {
		c := path.Clean(p)
		if strings.HasPrefix(c, "/") || c == ".." || strings.HasPrefix(c, "../") {
			ok = false
			return p
		}
		return path.Join(sftpBase, c)
	}
	switch op.Kind {
	case "close", "read", "readat", "write", "writeat", "truncate", "sync", "fchmod", "seek", "fstat", "readdir", "fsetowner":
		return op, true
	case "symlink":
		op.B = in(op.B)
	case "rename", "link":
		op.A, op.B = in(op.A), in(op.B)
	default:
		op.A = in(op.A)
		if op.Kind == "setlowner" {
			op.Kind = "setowner" // as documented: the protocol has no other
		}
	}
	return op, ok
}

func (x *sftpRun) dump(d *simfs.Disk, perm bool) string {
	return d.Dump(simfs.DumpOpt{Perm: perm, Owner: perm})
}

func sftpScenario(s *vsim.Sim) {
	s.Configure()
	disk := simfs.Model("server")
	plan := &simsftp.Plan{Sim: s}
	x := &sftpRun{s: s, srv: &simsftp.Server{Disk: disk, Plan: plan, OpenSSH: s.Chance(vsim.SCfg, 0.5), Fsync: s.Chance(vsim.SCfg, 0.5),
		Batch: 1 + s.Draw(vsim.SCfg, 3)}, posix: s.Chance(vsim.SCfg, 0.5), lib: s.Chance(vsim.SCfg, 0.5), openAt: map[int]int{}, base: "/" + sftpBase}
	switch s.Draw(vsim.SCfg, 4) {
	case 1:
		plan.MeanGap, plan.Max = 6, 4
	case 2:
		plan.MeanGap, plan.Max = 14, 3
	case 3:
		plan.MeanGap, plan.Max, plan.Short = 30, 2, 0.3
	}
	_ = disk.MkdirAll(sftpBase, 0o755)
	_ = disk.MkdirAll("srv/out/dir", 0o755)
	_ = vroot.WriteFile[vroot.File](disk, "srv/out/secret", []byte("secret"), 0o600)
	_ = vroot.WriteFile[vroot.File](disk, "srv/out/dir/f", []byte("deep"), 0o644)
	names := []string{"a", "b", "c"}
	g := fsop.NewGen(s, names, 3, sftpMix, nil)
	g.Perms = []fs.FileMode{0o755, 0o700, 0o711, 0o500}
	g.FilePerms = []fs.FileMode{0o644, 0o600, 0o640, 0o755}
	g.Flags = []int{os.O_RDONLY, os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL,
		os.O_RDWR | os.O_TRUNC, os.O_WRONLY, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_CREATE | os.O_APPEND}
	g.Links = []string{"a", "b", "../a", "b/a", "c", "../b/a", "nothing", "../out", "../../out", "../out/dir"}
	g.WholeDirs = true
	// what the generator believes the tree to be
	g.Plan = fsop.NewWorld(simfs.Model("plan"))
	seed := fsop.NewWorld(sftpPrefix{disk})
	seedTree(s, g, s.Draw(vsim.SOps, 8), seed)
	if s.Chance(vsim.SCfg, 0.01) {
		seedFar(s, g, seed, g.Plan)
	}
	model := disk.Clone()
	x.m = fsop.NewWorld(model)
	n := 3 + s.Draw(vsim.SOps, 18)
	if !x.dial() {
		return
	}
	s.Go("u", func() {
		for i := 0; i < n && !s.Failed(); i++ {
			vsim.Yield(vsim.KOp, 0xdb000000)
			op := g.Next()
			op = x.spell(op, g)
			if !x.step(op) {
				return
			}
			if s.Failed() {
				return
			}
			if x.conn.Dropped {
				// what is tried on the lost connection has to fail
				for k := s.Draw(vsim.SOps, 3); k > 0 && !s.Failed(); k-- {
					if !x.step(x.spell(g.Next(), g)) {
						return
					}
				}
				x.reconnect()
			} else if plan.MeanGap > 0 && plan.Fired < plan.Max && s.Chance(vsim.SFault, 0.02) {
				s.Fault("idle-drop")
				s.Logf("  connection lost")
				plan.Fired++
				x.conn.Drop()
			}
		}
	})
	s.Run()
	x.hangUp()
}

func (x *sftpRun) reconnect() {
	x.hangUp()
	x.resync()
	x.dial()
}

// resync makes the plain file system what the server has; all handles go.
func (x *sftpRun) resync() {
	off := x.srv.Plan.Off
	x.srv.Plan.Off = true
	var hs []int
	for h := range x.w.H {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	for _, h := range hs {
		_ = x.w.H[h].Close()
	}
	x.w.H = map[int]vroot.File{}
	x.m = fsop.NewWorld(x.srv.Disk.Clone())
	x.srv.Plan.Off = off
}

// spell respells a path now and then.
func (x *sftpRun) spell(op fsop.Op, g *fsop.Gen) fsop.Op {
	s := x.s
	orig := op
	if op.A == "" || op.Kind == "symlink" || s.Draw(vsim.SOps, 8) != 7 {
		return op
	}
	a := g.Names[s.Draw(vsim.SOps, len(g.Names))]
	switch s.Draw(vsim.SOps, 9) {
	case 0:
		op.A = "./" + op.A
	case 1:
		op.A = a + "/../" + op.A
	case 2:
		op.A = op.A + "/."
	case 3:
		op.A = "../out/secret"
	case 4:
		op.A = a + "/../../out/dir"
	case 5:
		op.A = "/srv/out/secret"
	case 6:
		op.A = ".."
	case 7:
		op.A = op.A + "//" + a
	case 8:
		op.A = [...]string{".", "./", a + "/..", "nothing/..", a + "/./../" + a + "/.."}[s.Draw(vsim.SOps, 5)]
	}
	if (op.Kind == "rename" || op.Kind == "link") && s.Draw(vsim.SOps, 2) == 0 {
		op.A, op.B = op.B, op.A
	}
	if op.Kind == "rename" && (path.Clean(op.A) == "." || path.Clean(op.B) == ".") {
		return orig // through a link the whole base could move: the caller's wish
	}
	return op
}

func (x *sftpRun) step(op fsop.Op) bool {
	s := x.s
	mop, inside := x.mop(op)
	md := x.m.FS.(*simfs.Disk)
	before := md.Clone()
	beforeDump := x.dump(before, true)
	dead := x.conn.Dropped
	fired := x.srv.Plan.Fired
	hits := len(x.srv.Plan.Hit)
	h := x.w.H[op.H]
	res := x.w.Do(op)
	if x.conn.Dropped && res.Err != nil {
		// which error the client gives first is its goroutines' affair
		s.Logf("%s -> failed", op)
		s.State(op.Kind + "lost")
	} else {
		s.Logf("%s -> %s %v", op, res, res.Err)
		s.State(op.Kind + res.Class)
	}
	if s.Failed() {
		return false
	}
	fault := x.srv.Plan.Fired != fired
	if x.conn.Dropped {
		x.client.Wait() // until the client has noticed
	}
	needsH := inside && mop == op
	if needsH && h == nil {
		return true
	}
	switch {
	case dead && res.Err == nil && op.Kind != "seek" && op.Kind != "readdir" && !(op.Kind == "sync" && !x.srv.Fsync):
		s.Fail("success-without-connection", "%s succeeded with no connection", op)
		return false
	case !inside:
		if !errors.Is(res.Err, vroot.ErrPathEscapes) {
			s.Fail("escape-allowed", "%s -> %s (%v), want the escape error", op, res, res.Err)
		}
		x.same(op, before, "a refused escape")
		return !s.Failed()
	case path.Clean(op.A) == "." && op.A != "" && op.Kind != "symlink" || path.Clean(op.B) == "." && op.B != "":
		// the base itself: what operations on it do differs between file
		// systems; one with something in it stays
		if op.Kind == "remove" {
			if es, err := vroot.ReadDir[vroot.File](before, sftpBase); err == nil && len(es) == 0 {
				_ = x.srv.Disk.MkdirAll(sftpBase, 0o755)
				x.resync()
				return true
			}
		}
		if op.Kind == "removeall" && res.Err == nil {
			s.Fail("base-removed", "%s succeeded", op)
			return false
		}
		if op.Kind == "removeall" {
			x.same(op, before, "of the base itself")
			if s.Failed() {
				return false
			}
		}
		if i, err := x.srv.Disk.Lstat(sftpBase); err != nil || !i.IsDir() {
			s.Fail("base-removed", "%s took the base directory away: %v", op, err)
			return false
		}
		if res.Err == nil && op.Kind == "list" {
			break
		}
		x.resync()
		return true
	case dead:
		if op.Kind == "sync" {
			return true
		}
		x.same(op, before, "with no connection")
		return !s.Failed()
	}
	if op.Kind == "removeall" && (strings.HasSuffix(op.A, "/.")) {
		if res.Err == nil {
			s.Fail("dot-removed", "%s succeeded", op)
		}
		x.same(op, before, "refused")
		return !s.Failed()
	}
	if op.Kind == "rename" && !x.posix && x.srv.OpenSSH {
		// this server renames onto nothing
		if _, err := before.Lstat(mop.B); err == nil {
			if res.Err == nil {
				s.Fail("rename-onto", "%s succeeded though the server refuses to replace", op)
			}
			x.same(op, before, "refused by the server")
			return !s.Failed()
		}
	}
	if mop.Kind == "open" {
		// the handle starts at the end and counts its offset itself, as documented
		mop.Flag &^= os.O_APPEND
	}
	want := x.m.Do(mop)
	if f := x.m.H[op.H]; f != nil && op.Kind == "open" && op.Flag&os.O_APPEND != 0 {
		_, _ = f.Seek(0, io.SeekEnd)
	}
	switch {
	case mop.Kind == "setowner":
		want.Val = ""
	case op.Kind == "mtime" && want.Err == nil:
		// only the server's clock counts, and only whole seconds travel
		i, _ := before.Lstat(mop.A)
		want.Val = strconv.FormatInt(i.ModTime().Unix()*1e9, 10)
	case op.Kind == "chtimes" && res.Err == nil:
		if i, err := x.srv.Disk.Stat(mop.A); err != nil || i.ModTime().Unix() != op.Time {
			s.Fail("times-wrong", "%s succeeded; the server has %v %v", op, i, err)
			return false
		}
	}
	if x.dump(x.srv.Disk, true) != beforeDump {
		x.tree++
	}
	switch op.Kind {
	case "open":
		x.openAt[op.H] = x.tree
	case "seek":
		x.openAt[op.H] = -1
	}
	if op.Kind == "readdir" && x.openAt[op.H] != x.tree {
		return true // listed by name, once, with no way back: what it shows of later changes is left open
	}
	switch {
	case !fault:
		x.compare(op, res, want)
	case res.Err == nil:
		// something failed on the way: success all the same has to be true
		// (what the tree shows is compared below; these show nowhere else)
		for _, k := range x.srv.Plan.Hit[hits:] {
			if k == "write" || k == "fsync" || k == "close" && (op.Kind == "close" || op.Kind == "writefile" || op.Kind == "appendfile" || op.Kind == "createwrite") {
				s.Fail("fault-hidden", "%s succeeded though a %s request met a fault", op, k)
				return false
			}
		}
		s.Probe("succeeded-in-spite")
		if want.Err != nil && !(op.Kind == "removeall" && (errors.Is(want.Err, syscall.ENOTDIR) || errors.Is(want.Err, syscall.ELOOP))) {
			s.Fail("false-success", "%s succeeded, a plain file system says %v", op, want.Err)
			return false
		}
		if res.Val != want.Val {
			s.Fail("wrong-result", "%s -> %q, a plain file system gives %q", op, res.Val, want.Val)
			return false
		}
		if a, b := x.dump(x.srv.Disk, false), x.dump(md, false); a != b {
			s.Fail("false-success", "%s succeeded; the server has\n%s\na plain file system\n%s", op, a, b)
			return false
		}
		x.resync() // permissions may be off
	default:
		s.Probe("failed")
		x.bounded(op, mop, before, beforeDump)
		if sftpMutates[op.Kind] {
			x.resync()
		} else if needsH {
			x.srv.Plan.Off = true
			_ = h.Close()
			x.srv.Plan.Off = false
			delete(x.w.H, op.H)
			delete(x.m.H, op.H)
		} else if f := x.m.H[op.H]; f != nil {
			_ = f.Close()
			delete(x.m.H, op.H)
		}
	}
	return !s.Failed()
}

// same: the server's tree is exactly what it was.
func (x *sftpRun) same(op fsop.Op, before *simfs.Disk, why string) {
	if a, b := x.dump(x.srv.Disk, true), x.dump(before, true); a != b {
		x.s.Fail("changed", "%s (%s) changed the server's tree to\n%s\nfrom\n%s", op, why, a, b)
	}
}

// compare checks a fault-free call.
func (x *sftpRun) compare(op fsop.Op, res, want fsop.Result) {
	s := x.s
	if op.Kind == "read" && res.Err == io.EOF && want.Err == nil && res.Val == want.Val && !strings.HasPrefix(res.Val, "0:") {
		res.Err = nil // told with the last bytes
	}
	if (res.Err == nil) != (want.Err == nil) && !(op.Kind == "removeall" && want.Class != "ok") {
		s.Fail("outcome-differs", "%s -> %v, a plain file system gives %v", op, res.Err, want.Err)
		return
	}
	if errors.Is(want.Err, fs.ErrNotExist) && !errors.Is(res.Err, fs.ErrNotExist) {
		s.Fail("not-exist-lost", "%s -> %v, a plain file system gives %v", op, res.Err, want.Err)
		return
	}
	if !x.srv.OpenSSH && errors.Is(want.Err, fs.ErrExist) && (op.Kind == "mkdir" || op.Kind == "open" || op.Kind == "symlink") && !errors.Is(res.Err, fs.ErrExist) {
		s.Fail("exist-lost", "%s -> %v, a plain file system gives %v", op, res.Err, want.Err)
		return
	}
	if res.Val != want.Val && !(res.Err != nil && op.Kind != "read" && op.Kind != "readat") {
		s.Fail("wrong-result", "%s -> %q, a plain file system gives %q", op, res.Val, want.Val)
		return
	}
	// permissions of what was just made are the file system's best effort
	md := x.m.FS.(*simfs.Disk)
	if op.Kind == "mkdirall" && res.Err == nil {
		mop, _ := x.mop(op)
		for p := path.Dir(mop.A); len(p) > len(sftpBase); p = path.Dir(p) {
			if i, err := x.srv.Disk.Stat(p); err == nil && i.Mode().Perm() == 0o755 {
				_ = md.Chmod(p, 0o755)
			}
		}
	}
	if (op.Kind == "open" && op.Perm == 0o666 || op.Kind == "createwrite") && res.Err == nil {
		mop, _ := x.mop(op)
		if i, err := x.srv.Disk.Stat(mop.A); err == nil && i.Mode().Perm() == 0o666 {
			_ = md.Chmod(mop.A, 0o666)
		}
	}
	if a, b := x.dump(x.srv.Disk, true), x.dump(md, true); a != b {
		s.Fail("tree-differs", "after %s -> %v the server has\n%s\na plain file system\n%s", op, res.Err, a, b)
	}
}

// bounded: a call that failed may have done its work, part of it or nothing,
// but touched nothing else.
func (x *sftpRun) bounded(op, mop fsop.Op, before *simfs.Disk, beforeDump string) {
	s := x.s
	got := x.dump(x.srv.Disk, true)
	if !sftpMutates[op.Kind] {
		if got != beforeDump {
			s.Fail("changed", "the failed %s changed the server's tree to\n%s\nfrom\n%s", op, got, beforeDump)
		}
		return
	}
	switch op.Kind {
	case "write", "writeat", "truncate", "fchmod", "chtimes", "fsetowner":
		return // any part of it; which entries show the file is its links' business
	}
	var own []string
	for i, p := range []string{mop.A, mop.B} {
		if p == "" || op.Kind == "symlink" && i == 0 {
			continue
		}
		for _, follow := range []bool{false, true} {
			if c, ok := before.Canonical(p, follow); ok && (!follow || op.Kind != "removeall" && op.Kind != "remove" && op.Kind != "rename") {
				own = append(own, c)
			}
		}
	}
	if op.Kind == "mkdirall" {
		// the first part that was not there
		own = nil
		p := mop.A
		for {
			q := path.Dir(p)
			if _, err := before.Stat(q); err == nil {
				break
			}
			p = q
		}
		for _, follow := range []bool{false, true} {
			if c, ok := before.Canonical(p, follow); ok {
				own = append(own, c)
			}
		}
	}
	if op.Kind == "open" || op.Kind == "writefile" || op.Kind == "appendfile" || op.Kind == "link" || op.Kind == "chmod" || mop.Kind == "setowner" || op.Kind == "createwrite" {
		// other links of the same file change with it
		return
	}
	a, b := lines(got), lines(beforeDump)
	for l := range a {
		if !b[l] && !below(l, own) {
			s.Fail("touched-outside", "the failed %s changed something it does not name: now %q", op, l)
			return
		}
	}
	for l := range b {
		if !a[l] && !below(l, own) {
			s.Fail("touched-outside", "the failed %s changed something it does not name: %q is gone", op, l)
			return
		}
	}
}

func lines(d string) map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(d, "\n") {
		m[l] = true
	}
	return m
}

func below(line string, own []string) bool {
	for _, o := range own {
		if strings.HasPrefix(line, o) && (len(line) == len(o) || line[len(o)] == '/' || line[len(o)] == ' ') {
			return true
		}
	}
	return false
}

// sftpPrefix shows the base directory for seeding only.
type sftpPrefix struct{ *simfs.Disk }

func (d sftpPrefix) Mkdir(n string, p fs.FileMode) error {
	return d.Disk.Mkdir(path.Join(sftpBase, n), p)
}
func (d sftpPrefix) MkdirAll(n string, p fs.FileMode) error {
	return d.Disk.MkdirAll(path.Join(sftpBase, n), p)
}
func (d sftpPrefix) Symlink(t, n string) error { return d.Disk.Symlink(t, path.Join(sftpBase, n)) }
func (d sftpPrefix) OpenFile(n string, f int, p fs.FileMode) (vroot.File, error) {
	return d.Disk.OpenFile(path.Join(sftpBase, n), f, p)
}

func init() {
	sc := &Scenario{Name: "sftp", Run: sftpScenario,
		Doc: "histories of every operation on the sftp-backed file system; the server refuses, fails after the effect, tears writes, cuts replies, loses the connection before or after any request, answers oddly and returns short reads; after every call the server's whole tree, outside of the base included, is compared with a plain file system's"}
	conc := &Scenario{Name: "sftp-tasks", Run: sftpConc,
		Doc: "2-3 tasks over one connection: each works in a directory of its own and must see it as if alone, they list one open directory in pieces, which together must be all of it, and remove and make the same trees"}
	register(&Check{Property: "P27", Quick: 100000, Thorough: 4000000, Parts: []Part{{sc, 4}, {conc, 1}},
		Real:        []string{"vroot-adapter/sftpfs", "github.com/pkg/sftp client"},
		Stub:        []string{"the server (SFTP v3 over a simulated disk, OpenSSH's and pkg/sftp's manners)", "the connection"},
		Assumptions: []string{"permissions given at creation are best effort, as documented", "the client is set to fstat handles and to read sequentially"}})
}
