// Package simfs is the simulated disk: an in-memory POSIX-like file system
// whose every operation is a scheduling point, can fail the way real disks do,
// and can be the instant the machine crashes. It keeps what was written apart
// from what was made durable, so that a power loss drops exactly what was not
// synced.
//
// The same type, with no fault plan attached, is the reference model of "one
// plain file system" the oracles compare against.
package simfs

import (
	"cmp"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/sim/vsim"
)

var _ vroot.Fs[vroot.File] = (*Disk)(nil)

// ErrDead is what a task that outlived its crashed world gets.
var ErrDead = errors.New("simfs: world crashed")

type pending struct {
	trunc int64 // -1: a write
	off   int64
	data  []byte
}

type inode struct {
	id       int
	dir      bool
	link     string // symlink target
	isLink   bool
	mode     fs.FileMode // permission bits (and setuid etc.)
	mtime    time.Time
	stamp    time.Time // a time somebody gave it, until it is written
	data     []byte
	children map[string]*inode
	parent   *inode
	nlink    int
	uid, gid int

	durable []byte
	pend    []pending
	removed bool
	ext     *External
}

// Op describes one operation to the fault plan.
type Op struct {
	Kind  string // open create read readat write writeat close sync truncate mkdir remove removeall rename link symlink readlink stat lstat readdir chmod chtimes chown fstat seek
	Path  string
	Path2 string
	N     int
	Write bool // mutates
}

// Fault is the plan's answer.
type Fault struct {
	Err      error // fail with it
	After    bool  // ... after the effect took place
	Short    int   // >0: transfer only this many bytes (error Err, if any, follows)
	CrashPre bool
	CrashPst bool
	Partial  int // for a crash inside a write: bytes that reached the file, -1 all
}

// Disk is one simulated file system.
type Disk struct {
	name   string
	root   *inode
	nextID *int
	umask  fs.FileMode
	views  map[int]*inode
	// Quirks say where the file system modelled legitimately differs from POSIX.
	Quirks Quirks

	// Plan decides faults; nil means a perfect disk.
	Plan *Plan
	// Observe sees each operation as it is about to run (and may fail the run).
	Observe func(Op)
	// AfterOp sees each operation after its effect.
	AfterOp func(Op, error)
	// CloseFailed sees each close that reports failure.
	CloseFailed func(Op, error)
	// Yields off makes a model out of a disk.
	Yields bool
	// WrapEOF has positioned reads say which file ended.
	WrapEOF bool

	epoch          int
	open           map[*File]struct{}
	ReadDirReverse bool
	// Clock gives modification times.
	clock func() time.Time
	Ops   int
}

// New makes an empty disk.
func New(name string) *Disk {
	d := &Disk{name: name, umask: 0o022, open: map[*File]struct{}{}, Yields: true, nextID: new(int), views: map[int]*inode{}}
	d.root = d.newInode(true, 0o755)
	d.root.parent = d.root
	return d
}

// Model makes a disk to be used as a reference: no yields, no faults.
func Model(name string) *Disk {
	d := New(name)
	d.Yields = false
	return d
}

func (d *Disk) now() time.Time {
	if d.clock != nil {
		return d.clock()
	}
	return vsim.TimeNow()
}

func (d *Disk) newInode(dir bool, perm fs.FileMode) *inode {
	*d.nextID++
	n := &inode{id: *d.nextID, dir: dir, mode: perm, nlink: 1}
	if dir {
		n.children = map[string]*inode{}
	}
	n.mtime = d.now()
	return n
}

// Plan draws faults and crashes for one or more disks from the run's tape.
type Plan struct {
	Sim *vsim.Sim
	// Kinds lists operation kinds eligible for error faults.
	Kinds map[string]bool
	// MeanGap is the mean number of eligible operations between faults.
	MeanGap float64
	// Also is an error to fail operations of a kind with now and then.
	Also map[string]error
	// Max bounds the number of faults in the run.
	Max int
	// ShortReads lets reads legally return fewer bytes with this probability.
	ShortReads float64
	// ShortWrites lets writes transfer a part and fail.
	ShortWrites bool
	// ShortOK names the file whose writes may, now and then, take a part only
	// and report just the count.
	ShortOK string
	// AfterEffect lets an operation take effect and report failure all the same.
	AfterEffect bool
	// Filter narrows eligibility.
	Filter func(Op) bool
	// Crash arms one crash.
	CrashMean float64
	crashGap  int64
	gap       int64
	armed     bool
	// Errs lists the injected errors in order.
	Errs []error
	// Hit are the kinds of calls that failed; wrappers may rewrite an error.
	Hit   []string
	Fired int
	Off   bool
	// OnCrash runs at the crash instant.
	OnCrash func()
	// CloseLoses lets a failing close lose what was written through the handle,
	// as a file system with delayed writes does.
	CloseLoses bool
	// CrashFilter narrows the operations a crash may land on.
	CrashFilter func(Op) bool
	// Listed is what failing listings of a directory gave all the same.
	Listed map[string][]string
}

func (p *Plan) arm() {
	if p.armed {
		return
	}
	p.armed = true
	p.newGap()
	if p.CrashMean > 0 {
		p.crashGap = int64(p.Sim.DrawF(vsim.SFault, 1<<20, func(r *rand.Rand) uint64 {
			return 1 + uint64(r.ExpFloat64()*p.CrashMean)
		}))
	}
}

func (p *Plan) newGap() {
	p.gap = 0
	if p.MeanGap <= 0 || p.Fired >= p.Max {
		return
	}
	p.gap = int64(p.Sim.DrawF(vsim.SFault, 1<<20, func(r *rand.Rand) uint64 {
		return 1 + uint64(r.ExpFloat64()*p.MeanGap)
	}))
}

var errnos = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EINTR}

func (p *Plan) decide(op Op) Fault {
	var f Fault
	if p == nil || p.Off || p.Sim.Dead() {
		return f
	}
	p.arm()
	if p.crashGap > 0 && (p.CrashFilter == nil || p.CrashFilter(op)) {
		p.crashGap--
		if p.crashGap == 0 {
			k := p.Sim.Draw(vsim.SFault, 3)
			switch {
			case k == 0:
				f.CrashPre = true
				p.Sim.Fault("crash-before-" + op.Kind)
			case k == 1 || !(op.Kind == "write" || op.Kind == "writeat"):
				f.CrashPst = true
				p.Sim.Fault("crash-after-" + op.Kind)
			default:
				f.CrashPst = true
				if op.N > 0 {
					f.Partial = p.Sim.Draw(vsim.SFault, op.N) + 1
				}
				p.Sim.Fault("crash-inside-" + op.Kind)
			}
			return f
		}
	}
	isRead := op.Kind == "read" || op.Kind == "readat"
	isWrite := op.Kind == "write" || op.Kind == "writeat"
	if p.Kinds[op.Kind] && p.gap > 0 && (p.Filter == nil || p.Filter(op)) {
		p.gap--
		if p.gap == 0 {
			p.Fired++
			defer p.newGap()
			e, k := error(syscall.EIO), p.Sim.Weighted(vsim.SFault, 6, 3, 1, 1, 2, 2)
			switch {
			case k < len(errnos):
				e = errnos[k]
				if e == syscall.ENOSPC && !op.Write {
					e = syscall.EIO
				}
			case k == 4 && isRead:
				e = io.ErrUnexpectedEOF
			case k == 4 && isWrite:
				e = io.ErrShortWrite
			case k == 4:
				e = os.ErrDeadlineExceeded
			case p.Also[op.Kind] != nil:
				e = p.Also[op.Kind]
			}
			f.Err = &fs.PathError{Op: op.Kind, Path: op.Path, Err: e}
			p.Errs = append(p.Errs, f.Err)
			p.Hit = append(p.Hit, op.Kind)
			if isWrite && p.ShortWrites && op.N > 1 {
				if k := p.Sim.Draw(vsim.SFault, 3); k > 0 {
					f.Short = 1 + p.Sim.Draw(vsim.SFault, op.N-1)
					if p.ShortOK != "" && p.ShortOK == op.Path && p.Sim.Draw(vsim.SFault, 4) == 3 {
						f.Err = nil
						p.Sim.Fault("short-write-no-error")
						return f
					}
					p.Sim.Fault("short-write-" + e.Error())
					return f
				}
			}
			if isRead && op.N > 1 {
				if k := p.Sim.Draw(vsim.SFault, 3); k > 0 {
					f.Short = 1 + p.Sim.Draw(vsim.SFault, op.N-1)
					p.Sim.Fault("partial-read-error")
					return f
				}
			}
			if p.AfterEffect && op.Write && !strings.HasPrefix(op.Kind, "store-") && p.Sim.Draw(vsim.SFault, 4) == 3 {
				f.After = true
				p.Sim.Fault("fail-after-effect-" + op.Kind)
				return f
			}
			p.Sim.Fault("fail-" + op.Kind)
			return f
		}
	}
	if isRead && op.N > 1 && p.ShortReads > 0 && p.Sim.Chance(vsim.SFault, p.ShortReads) {
		f.Short = 1 + p.Sim.Draw(vsim.SFault, op.N-1)
		p.Sim.Faults["short-read"]++
	}
	return f
}

const locIO = 0xd0000000

// begin is the seam every operation passes. It returns the fault to apply, or
// ErrDead when the caller's world has crashed.
func (d *Disk) begin(op Op) (Fault, error) {
	if !d.Yields {
		return Fault{}, nil
	}
	s := vsim.Active()
	if s == nil || !vsim.InTask() {
		return Fault{}, nil
	}
	if s.Dead() {
		return Fault{}, ErrDead
	}
	vsim.Yield(vsim.KIO, locIO+kindNo(op.Kind))
	if s.Dead() {
		return Fault{}, ErrDead
	}
	d.Ops++
	if d.Observe != nil {
		d.Observe(op)
	}
	f := d.Plan.decide(op)
	if f.CrashPre {
		d.crash(op)
		return Fault{}, ErrDead
	}
	return f, nil
}

// Custom runs an effect that is not a file operation (a simulated store's
// commit, say) through the disk's seam: scheduling point, faults, crash.
func (d *Disk) Custom(op Op, effect func()) error {
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return f.Err
	}
	effect()
	return d.end(op, f, nil)
}

// Canonical is the link-free path, from the disk's own root, of the entry name
// leads to; ok is false when there is none. A missing last component is kept.
func (d *Disk) Canonical(name string, follow bool) (string, bool) {
	r, err := d.walk(name, follow)
	if err != nil {
		return "", false
	}
	n := r.node
	var parts []string
	if n == nil || !n.dir {
		parts = []string{r.base}
		n = r.parent
	}
	for n.parent != n {
		found := false
		for k, c := range n.parent.children {
			if c == n {
				parts = append([]string{k}, parts...)
				found = true
				break
			}
		}
		if !found {
			return "", false
		}
		n = n.parent
	}
	return path.Join(parts...), true
}

func (d *Disk) crash(op Op) {
	s := d.Plan.Sim
	s.Logf("CRASH at %s %s %s %s", d.name, op.Kind, op.Path, op.Path2)
	s.Crash()
	if d.Plan.OnCrash != nil {
		d.Plan.OnCrash()
	}
}

// end closes an operation: a crash after its effect, and the observer.
func (d *Disk) end(op Op, f Fault, err error) error {
	if f.CrashPst {
		d.crash(op)
		return ErrDead
	}
	if f.After && err == nil {
		err = f.Err
	}
	if d.Yields && vsim.InTask() {
		if d.AfterOp != nil {
			d.AfterOp(op, err)
		}
		if op.Write {
			vsim.Yield(vsim.KIO, locIO+0x100+kindNo(op.Kind))
		}
	}
	return err
}

func kindNo(k string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(k))
	return h.Sum32() & 0xff
}

// Dead-write guard: effects of zombies never reach the disk because begin
// refuses them; handles of an earlier life are refused by epoch as well.

// NextLife ends every handle: what a process restart does.
func (d *Disk) NextLife() {
	d.epoch++
	d.open = map[*File]struct{}{}
}

// OpenHandles counts handles not yet closed.
func (d *Disk) OpenHandles() int { return len(d.open) }

// OpenNames lists the paths of handles not yet closed.
func (d *Disk) OpenNames() []string {
	var out []string
	for f := range d.open {
		out = append(out, f.name)
	}
	sort.Strings(out)
	return out
}

// PowerLoss drops what was not synced. keep decides, per file with unsynced
// writes, how much of them survived.
func (d *Disk) PowerLoss(s *vsim.Sim) {
	var walk func(n *inode, p string)
	seen := map[*inode]bool{}
	walk = func(n *inode, p string) {
		if n.dir {
			names := make([]string, 0, len(n.children))
			for k := range n.children {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				walk(n.children[k], path.Join(p, k))
			}
			return
		}
		if n.isLink || seen[n] || len(n.pend) == 0 {
			return
		}
		seen[n] = true
		img := append([]byte(nil), n.durable...)
		mode := s.Draw(vsim.SFault, 4)
		switch mode {
		case 0: // nothing unsynced survived
			s.Fault("power-loss-drop-all")
		case 1: // everything did
			for _, w := range n.pend {
				img = applyPend(img, w, len(w.data))
			}
			s.Fault("power-loss-keep-all")
		case 2: // a prefix, its last write torn
			k := s.Draw(vsim.SFault, len(n.pend)+1)
			for i := 0; i < k; i++ {
				img = applyPend(img, n.pend[i], len(n.pend[i].data))
			}
			if k < len(n.pend) && len(n.pend[k].data) > 0 {
				img = applyPend(img, n.pend[k], s.Draw(vsim.SFault, len(n.pend[k].data)))
			}
			s.Fault("power-loss-torn-prefix")
		case 3: // any subset, in sectors
			for _, w := range n.pend {
				if w.trunc >= 0 {
					if s.Draw(vsim.SFault, 2) == 1 {
						img = applyPend(img, w, 0)
					}
					continue
				}
				for o := 0; o < len(w.data); o += 512 {
					e := min(o+512, len(w.data))
					if s.Draw(vsim.SFault, 2) == 1 {
						img = applyPend(img, pending{trunc: -1, off: w.off + int64(o), data: w.data[o:e]}, e-o)
					}
				}
			}
			s.Fault("power-loss-subset")
		}
		n.data = img
		n.durable = append([]byte(nil), img...)
		n.pend = nil
	}
	walk(d.root, "")
}

func applyPend(b []byte, w pending, n int) []byte {
	if w.trunc >= 0 {
		if int64(len(b)) > w.trunc {
			return b[:w.trunc:w.trunc]
		}
		return append(b, make([]byte, w.trunc-int64(len(b)))...)
	}
	end := w.off + int64(n)
	if int64(len(b)) < end {
		b = append(b, make([]byte, end-int64(len(b)))...)
	}
	copy(b[w.off:end], w.data[:n])
	return b
}

// ---- path resolution

const maxLinks = 40

type walkResult struct {
	parent *inode
	base   string
	node   *inode // nil if missing
}

func split(name string) ([]string, error) {
	if name == "" {
		return nil, syscall.ENOENT
	}
	if filepath.IsAbs(name) {
		return nil, vroot.ErrPathEscapes
	}
	comps := strings.Split(filepath.ToSlash(name), "/")
	for _, c := range comps {
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
	}
	return comps, nil
}

// walk resolves name. follow decides about a symlink in the last component.
func (d *Disk) walk(name string, follow bool) (walkResult, error) {
	comps, err := split(name)
	if err != nil {
		return walkResult{}, err
	}
	cur := d.root
	if d.root.removed && len(comps) > 0 && comps[0] != "." {
		return walkResult{}, syscall.ENOENT
	}
	var stack []string
	stack = append(stack, comps...)
	links := 0
	res := walkResult{parent: d.root, base: ".", node: d.root}
	mustDir := strings.HasSuffix(name, "/")
	for len(stack) > 0 {
		c := stack[0]
		stack = stack[1:]
		if c == "" || c == "." {
			if len(stack) == 0 && res.node == nil {
				break
			}
			if !cur.dir {
				return walkResult{}, syscall.ENOTDIR
			}
			continue
		}
		if !cur.dir {
			return walkResult{}, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return walkResult{}, syscall.ENAMETOOLONG
		}
		if c == ".." {
			if cur == d.root {
				return walkResult{}, vroot.ErrPathEscapes
			}
			cur = cur.parent
			res = walkResult{parent: cur.parent, base: "..", node: cur}
			continue
		}
		rest := false
		for _, r := range stack {
			if r != "" && (r != "." || links > 0) {
				rest = true
			}
		}
		next := cur.children[c]
		if next == nil {
			if rest || cur.removed {
				return walkResult{}, syscall.ENOENT
			}
			return walkResult{parent: cur, base: c}, nil
		}
		if next.isLink && (rest || follow || mustDir) {
			links++
			if links > maxLinks {
				return walkResult{}, syscall.ELOOP
			}
			tc, err := split(next.link)
			if err != nil {
				return walkResult{}, err
			}
			stack = append(append([]string{}, tc...), stack...)
			res = walkResult{parent: cur, base: ".", node: cur}
			continue
		}
		res = walkResult{parent: cur, base: c, node: next}
		cur = next
	}
	return res, nil
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	if errors.Is(err, ErrDead) {
		return ErrDead
	}
	var pe *fs.PathError
	if errors.As(err, &pe) {
		return err
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func lerr(op, o, n string, err error) error {
	if err == nil {
		return nil
	}
	if errors.Is(err, ErrDead) {
		return ErrDead
	}
	return &os.LinkError{Op: op, Old: o, New: n, Err: err}
}

// info is a snapshot of an inode.
type info struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime time.Time
	id    int
	uid   int
	gid   int
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return i.mtime }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

// ID is the inode number, for oracles.
func (i info) ID() int { return i.id }

// Owner is whose it is, for oracles.
func (i info) Owner() (uid, gid int) { return i.uid, i.gid }

func (n *inode) info(name string) info {
	m := n.mode
	size := int64(len(n.bytes()))
	switch {
	case n.dir:
		m |= fs.ModeDir
		size = 0
	case n.isLink:
		m = fs.ModeSymlink | 0o777
		size = int64(len(n.link))
	}
	return info{name: name, size: size, mode: m, mtime: n.mtime, id: n.id, uid: n.uid, gid: n.gid}
}

// ---- the Fs methods

func (d *Disk) Name() string { return d.name }

func (d *Disk) Close() error { return nil }

func (d *Disk) Lstat(name string) (fs.FileInfo, error) { return d.stat("lstat", name, false) }
func (d *Disk) Stat(name string) (fs.FileInfo, error)  { return d.stat("stat", name, true) }

func (d *Disk) stat(kind, name string, follow bool) (fs.FileInfo, error) {
	op := Op{Kind: kind, Path: name}
	f, err := d.begin(op)
	if err != nil {
		return nil, err
	}
	if f.Err != nil {
		return nil, f.Err
	}
	r, err := d.walk(name, follow)
	if err == nil && r.node == nil {
		err = syscall.ENOENT
	}
	if err == nil && r.node.ext != nil {
		_, err = r.node.ext.Get()
	}
	if err = d.end(op, f, perr(kind, name, err)); err != nil {
		return nil, err
	}
	return r.node.info(path.Base(filepath.ToSlash(name))), nil
}

func (d *Disk) ReadLink(name string) (string, error) {
	op := Op{Kind: "readlink", Path: name}
	f, err := d.begin(op)
	if err != nil {
		return "", err
	}
	if f.Err != nil {
		return "", f.Err
	}
	r, err := d.walk(name, false)
	if err == nil && r.node == nil {
		err = syscall.ENOENT
	}
	if err == nil && !r.node.isLink {
		err = syscall.EINVAL
	}
	if err = d.end(op, f, perr("readlink", name, err)); err != nil {
		return "", err
	}
	return r.node.link, nil
}

func (d *Disk) Open(name string) (vroot.File, error) { return d.OpenFile(name, os.O_RDONLY, 0) }

func (d *Disk) Create(name string) (vroot.File, error) {
	return d.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (d *Disk) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	kind := "open"
	if flag&os.O_CREATE != 0 {
		kind = "create"
	}
	op := Op{Kind: kind, Path: name, Write: flag&(os.O_CREATE|os.O_TRUNC) != 0}
	f, err := d.begin(op)
	if err != nil {
		return nil, err
	}
	if f.Err != nil && !f.After {
		return nil, f.Err
	}
	file, err := d.openFile(name, flag, perm)
	if err = d.end(op, f, perr("open", name, err)); err != nil {
		if file != nil {
			delete(d.open, file)
		}
		return nil, err
	}
	return file, nil
}

func (d *Disk) openFile(name string, flag int, perm fs.FileMode) (*File, error) {
	follow := !(flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0)
	r, err := d.walk(name, follow)
	if err != nil {
		return nil, err
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	n := r.node
	switch {
	case n == nil:
		if flag&os.O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		if d.Quirks.NoCreateThroughLink {
			if l, err := d.walk(name, false); err == nil && l.node != nil {
				return nil, syscall.ENOENT
			}
		}
		if strings.HasSuffix(name, "/") {
			return nil, syscall.EISDIR
		}
		n = d.newInode(false, perm.Perm()&^d.umask)
		n.parent = r.parent
		r.parent.children[r.base] = n
		r.parent.mtime = d.now()
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, syscall.EEXIST
	case n.isLink:
		return nil, syscall.ELOOP
	case n.ext != nil && (acc != os.O_RDONLY || flag&(os.O_APPEND|os.O_CREATE|os.O_TRUNC) != 0):
		return nil, syscall.EROFS
	case n.dir && (acc != os.O_RDONLY || flag&(os.O_CREATE|os.O_TRUNC) != 0):
		return nil, syscall.EISDIR
	}
	if flag&os.O_TRUNC != 0 && !n.dir && acc != os.O_RDONLY {
		d.truncate(n, 0)
	}
	file := &File{d: d, n: n, name: name, flag: flag, epoch: d.epoch}
	if n.ext != nil {
		if file.ext, err = n.ext.Get(); err != nil {
			return nil, err
		}
	}
	d.open[file] = struct{}{}
	return file, nil
}

func (d *Disk) truncate(n *inode, size int64) {
	w := pending{trunc: size}
	n.data = applyPend(append([]byte(nil), n.data...), w, 0)
	n.pend = append(n.pend, w)
	n.mtime, n.stamp = d.now(), time.Time{}
}

func (d *Disk) write(n *inode, off int64, b []byte) {
	if len(b) == 0 {
		return
	}
	w := pending{trunc: -1, off: off, data: append([]byte(nil), b...)}
	n.data = applyPend(n.data, w, len(b))
	n.pend = append(n.pend, w)
	n.mtime, n.stamp = d.now(), time.Time{}
}

func (d *Disk) Mkdir(name string, perm fs.FileMode) error {
	op := Op{Kind: "mkdir", Path: name, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return f.Err
	}
	return d.end(op, f, perr("mkdir", name, d.mkdir(name, perm)))
}

func (d *Disk) mkdir(name string, perm fs.FileMode) error {
	r, err := d.walk(strings.TrimRight(name, "/"), false)
	if err != nil {
		return err
	}
	if r.node != nil {
		return syscall.EEXIST
	}
	n := d.newInode(true, perm.Perm()&^d.umask)
	n.parent = r.parent
	r.parent.children[r.base] = n
	r.parent.mtime = d.now()
	return nil
}

func (d *Disk) MkdirAll(name string, perm fs.FileMode) error {
	op := Op{Kind: "mkdirall", Path: name, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return f.Err
	}
	return d.end(op, f, perr("mkdir", name, d.mkdirAll(name, perm)))
}

func (d *Disk) mkdirAll(name string, perm fs.FileMode) error {
	name = path.Clean(filepath.ToSlash(name))
	r, err := d.walk(name, true)
	if err == nil && r.node != nil {
		if r.node.dir {
			return nil
		}
		return syscall.ENOTDIR
	}
	if p := path.Dir(name); p != "." && p != "/" {
		if err := d.mkdirAll(p, perm); err != nil {
			return err
		}
	}
	err = d.mkdir(name, perm)
	if errors.Is(err, syscall.EEXIST) {
		r, err2 := d.walk(name, false)
		if err2 == nil && r.node != nil && r.node.dir {
			return nil
		}
	}
	return err
}

func (d *Disk) Remove(name string) error {
	op := Op{Kind: "remove", Path: name, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return f.Err
	}
	return d.end(op, f, perr("remove", name, d.remove(name)))
}

func (d *Disk) remove(name string) error {
	r, err := d.walk(name, false)
	if err != nil {
		return err
	}
	if r.node == nil {
		return syscall.ENOENT
	}
	if r.node == d.root || r.base == "." || r.base == ".." {
		return syscall.EINVAL
	}
	if r.node.dir && len(r.node.children) > 0 {
		return syscall.ENOTEMPTY
	}
	d.unlink(r)
	return nil
}

func (d *Disk) unlink(r walkResult) {
	delete(r.parent.children, r.base)
	r.parent.mtime = d.now()
	r.node.nlink--
	if r.node.nlink <= 0 || r.node.dir {
		r.node.removed = true
	}
}

func (d *Disk) RemoveAll(name string) error {
	op := Op{Kind: "removeall", Path: name, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		d.partialRemove(name)
		return f.Err
	}
	if f.CrashPst && d.partialRemove(name) {
		d.crash(op)
		return ErrDead
	}
	return d.end(op, f, perr("RemoveAll", name, d.removeAll(name)))
}

// partialRemove takes a part of a tree away: a recursive removal is many steps,
// and it may fail or be cut short between any two of them.
func (d *Disk) partialRemove(name string) bool {
	s := d.Plan.Sim
	r, err := d.walk(name, false)
	if err != nil || r.node == nil || !r.node.dir {
		return false
	}
	var leaves int
	var count func(n *inode)
	count = func(n *inode) {
		leaves++
		for _, k := range n.names() {
			count(n.children[k])
		}
	}
	count(r.node)
	quota := s.Draw(vsim.SFault, leaves+1)
	if quota == leaves {
		return false
	}
	var cut func(n *inode) bool
	cut = func(n *inode) bool {
		for _, k := range n.names() {
			c := n.children[k]
			if c.dir && !cut(c) {
				return false
			}
			if quota == 0 {
				return false
			}
			quota--
			delete(n.children, k)
			c.drop()
		}
		return true
	}
	cut(r.node)
	return true
}

func (n *inode) names() []string {
	out := make([]string, 0, len(n.children))
	for k := range n.children {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (d *Disk) removeAll(name string) error {
	if strings.HasSuffix(name, "/.") || name == "." || name == "" {
		return syscall.EINVAL
	}
	r, err := d.walk(name, false)
	if err != nil {
		if errors.Is(err, syscall.ENOENT) {
			return nil
		}
		return err
	}
	if r.node == nil {
		return nil
	}
	if r.node == d.root || r.base == ".." {
		return syscall.EINVAL
	}
	delete(r.parent.children, r.base)
	r.parent.mtime = d.now()
	r.node.drop()
	return nil
}

// drop marks a subtree as removed.
func (n *inode) drop() {
	if n.dir {
		n.removed = true
		for _, k := range n.names() {
			c := n.children[k]
			delete(n.children, k)
			c.drop()
		}
		return
	}
	n.nlink--
	n.removed = n.nlink <= 0
}

func (d *Disk) Rename(oldname, newname string) error {
	op := Op{Kind: "rename", Path: oldname, Path2: newname, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return lerr("rename", oldname, newname, unwrapErrno(f.Err))
	}
	return d.end(op, f, lerr("rename", oldname, newname, d.rename(oldname, newname)))
}

func unwrapErrno(err error) error {
	var pe *fs.PathError
	if errors.As(err, &pe) {
		return pe.Err
	}
	return err
}

func (d *Disk) rename(oldname, newname string) error {
	o, err := d.walk(oldname, false)
	if err != nil {
		return err
	}
	n, err := d.walk(newname, false)
	if err != nil {
		return err
	}
	if o.node == nil {
		return syscall.ENOENT
	}
	if o.base == "." || o.base == ".." || n.base == "." || n.base == ".." || o.node == d.root || n.node == d.root {
		return syscall.EINVAL
	}
	if o.node.dir {
		for p := n.parent; ; p = p.parent {
			if p == o.node {
				return syscall.EINVAL
			}
			if p == d.root {
				break
			}
		}
	}
	if n.node != nil {
		if n.node == o.node && (!d.Quirks.LinkRenameReplaces || n.parent == o.parent && n.base == o.base) {
			return nil
		}
		switch {
		case n.node.dir && !o.node.dir:
			return syscall.EISDIR
		case !n.node.dir && o.node.dir:
			return syscall.ENOTDIR
		case n.node.dir && len(n.node.children) > 0:
			return syscall.ENOTEMPTY
		}
		n.node.drop() // another of the node's own links, too
	}
	delete(o.parent.children, o.base)
	n.parent.children[n.base] = o.node
	if o.node.dir {
		o.node.parent = n.parent
	}
	o.parent.mtime = d.now()
	n.parent.mtime = o.parent.mtime
	return nil
}

func (d *Disk) Link(oldname, newname string) error {
	op := Op{Kind: "link", Path: oldname, Path2: newname, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return lerr("link", oldname, newname, unwrapErrno(f.Err))
	}
	return d.end(op, f, lerr("link", oldname, newname, d.link(oldname, newname)))
}

func (d *Disk) link(oldname, newname string) error {
	o, err := d.walk(oldname, d.Quirks.LinkFollows)
	if err != nil {
		return err
	}
	if o.node == nil {
		return syscall.ENOENT
	}
	n, err := d.walk(newname, false)
	if err != nil {
		return err
	}
	if n.node != nil {
		return syscall.EEXIST
	}
	if o.node.dir {
		return syscall.EPERM
	}
	o.node.nlink++
	n.parent.children[n.base] = o.node
	n.parent.mtime = d.now()
	return nil
}

func (d *Disk) Symlink(oldname, newname string) error {
	op := Op{Kind: "symlink", Path: newname, Path2: oldname, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return lerr("symlink", oldname, newname, unwrapErrno(f.Err))
	}
	return d.end(op, f, lerr("symlink", oldname, newname, d.symlink(oldname, newname)))
}

func (d *Disk) symlink(oldname, newname string) error {
	n, err := d.walk(newname, false)
	if err != nil {
		return err
	}
	if n.node != nil {
		return syscall.EEXIST
	}
	x := d.newInode(false, 0o777)
	x.isLink, x.link = true, oldname
	x.parent = n.parent
	n.parent.children[n.base] = x
	n.parent.mtime = d.now()
	return nil
}

func (d *Disk) attr(kind, name string, follow bool, fn func(n *inode)) error {
	op := Op{Kind: kind, Path: name, Write: true}
	f, err := d.begin(op)
	if err != nil {
		return err
	}
	if f.Err != nil && !f.After {
		return f.Err
	}
	r, err := d.walk(name, follow)
	if err == nil && r.node == nil {
		err = syscall.ENOENT
	}
	if err == nil {
		fn(r.node)
	}
	return d.end(op, f, perr(kind, name, err))
}

const chmodMask = fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky

func (d *Disk) Chmod(name string, mode fs.FileMode) error {
	return d.attr("chmod", name, true, func(n *inode) { n.mode = mode & chmodMask })
}

func (d *Disk) Chown(name string, uid, gid int) error {
	return d.attr("chown", name, true, func(n *inode) { n.uid, n.gid = uid, gid })
}

func (d *Disk) Lchown(name string, uid, gid int) error {
	return d.attr("chown", name, false, func(n *inode) { n.uid, n.gid = uid, gid })
}

func (d *Disk) Chtimes(name string, atime, mtime time.Time) error {
	return d.attr("chtimes", name, true, func(n *inode) { n.mtime, n.stamp = mtime, mtime })
}

// ---- harness access, no faults, no yields

// Plain returns a view of the same tree with neither faults nor yields.
func (d *Disk) Plain() *Disk {
	c := *d
	c.Yields = false
	c.Plan = nil
	c.Observe, c.AfterOp = nil, nil
	c.open = map[*File]struct{}{}
	return &c
}

// Clone copies the whole tree (hard links stay hard links). Handles are not copied.
func (d *Disk) Clone() *Disk {
	c, _ := d.CloneWith(nil)
	return c
}

// Quirks are documented or deliberate differences from POSIX of the file system
// a model stands for.
type Quirks struct {
	// LazyInfo: directory entries look their information up when asked for it,
	// and say the entry is gone when it is.
	LazyInfo bool
	// LaxAccess: handles opened for reading accept writes.
	LaxAccess bool
	// NoCreateThroughLink: creating through a dangling symbolic link fails.
	NoCreateThroughLink bool
	// LinkFollows: a hard link to a symbolic link is made to its target (POSIX
	// leaves it open).
	LinkFollows bool
	// LinkRenameReplaces: hard links of one file do not know of each other, so
	// renaming one onto the other replaces it.
	LinkRenameReplaces bool
	// RenameDirRefused, if set, names directories whose rename gives EXDEV.
	RenameDirRefused func(path string) bool
}

// CloneWith is Clone with the given handles rebound to the copy.
func (d *Disk) CloneWith(h map[int]*File) (*Disk, map[int]*File) {
	id := *d.nextID
	c := &Disk{name: d.name, nextID: &id, umask: d.umask, open: map[*File]struct{}{}, clock: d.clock, ReadDirReverse: d.ReadDirReverse,
		Quirks: d.Quirks, views: map[int]*inode{}}
	m := map[*inode]*inode{}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		if x, ok := m[n]; ok {
			return x
		}
		x := new(inode)
		*x = *n
		m[n] = x
		x.data = append([]byte(nil), n.data...)
		x.durable = append([]byte(nil), n.durable...)
		x.pend = append([]pending(nil), n.pend...)
		if n.dir {
			x.children = make(map[string]*inode, len(n.children))
			for k, v := range n.children {
				x.children[k] = cp(v)
			}
		}
		return x
	}
	c.root = cp(d.root)
	for k, v := range d.views {
		c.views[k] = cp(v)
	}
	var hh map[int]*File
	if h != nil {
		hh = make(map[int]*File, len(h))
		for k, f := range h {
			x := *f
			x.d = c
			x.n = cp(f.n)
			hh[k] = &x
		}
	}
	for o, x := range m {
		if p, ok := m[o.parent]; ok {
			x.parent = p
		}
	}
	return c, hh
}

// AddView remembers the directory at name as view k.
func (d *Disk) AddView(k int, name string) {
	r, err := d.walk(name, true)
	if err != nil || r.node == nil || !r.node.dir {
		panic("simfs: no such directory for a view: " + name)
	}
	d.views[k] = r.node
}

// View is the file system rooted at the directory remembered as k.
func (d *Disk) View(k int) *Disk {
	c := *d
	c.root = d.views[k]
	return &c
}

// where is a name n can be found by, or its number if it has none.
func (d *Disk) where(n *inode) string {
	var find func(at *inode, p string) string
	find = func(at *inode, p string) string {
		if at == n {
			return "at " + p
		}
		for _, k := range at.names() {
			if r := find(at.children[k], p+"/"+k); r != "" {
				return r
			}
		}
		return ""
	}
	if r := find(d.root, "."); r != "" {
		return r
	}
	return fmt.Sprint("gone ", n.id)
}

// Views renders what the views are on.
func (d *Disk) Views() string {
	var ks []int
	for k := range d.views {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("v%d %s\n", k, d.where(d.views[k]))
	}
	return s
}

// State renders a handle's state.
func (f *File) State() string {
	at := f.d.where(f.n)
	s := fmt.Sprintf("%s %d %d %v", at, f.pos, f.dirPos, f.closed)
	if f.n.removed || strings.HasPrefix(at, "gone ") {
		s += fmt.Sprintf(" unlinked %q %v", f.bytes(), f.n.mode)
	}
	if f.dirEnt != nil {
		s += fmt.Sprint(len(f.dirEnt))
	}
	return s
}

// DumpOpt selects what a dump shows.
type DumpOpt struct {
	Perm  bool
	Mtime bool
	Links bool // hard-link identity
	Owner bool
}

// Dump renders the tree canonically.
func (d *Disk) Dump(o DumpOpt) string {
	var b strings.Builder
	first := map[int]string{}
	var walk func(n *inode, p string)
	walk = func(n *inode, p string) {
		switch {
		case n.dir:
			if p != "" {
				fmt.Fprintf(&b, "%s/", p)
				if o.Perm {
					fmt.Fprintf(&b, " %o", n.mode.Perm())
				}
				if o.Owner && n.uid|n.gid != 0 {
					fmt.Fprintf(&b, " %d:%d", n.uid, n.gid)
				}
				b.WriteByte('\n')
			}
			for _, k := range n.names() {
				walk(n.children[k], path.Join(p, k))
			}
		case n.isLink:
			fmt.Fprintf(&b, "%s -> %s", p, n.link)
			if o.Owner && n.uid|n.gid != 0 {
				fmt.Fprintf(&b, " %d:%d", n.uid, n.gid)
			}
			b.WriteByte('\n')
		default:
			fmt.Fprintf(&b, "%s = %s", p, Digest(n.bytes()))
			if n.ext != nil && o.Links {
				fmt.Fprintf(&b, " from %s", n.ext.Name)
			}
			if o.Perm {
				fmt.Fprintf(&b, " %o", n.mode.Perm())
			}
			if o.Mtime {
				fmt.Fprintf(&b, " @%d", n.mtime.UnixNano())
			}
			if o.Owner && n.uid|n.gid != 0 {
				fmt.Fprintf(&b, " %d:%d", n.uid, n.gid)
			}
			if o.Links {
				if f, ok := first[n.id]; ok {
					fmt.Fprintf(&b, " hard:%s", f)
				} else {
					first[n.id] = p
				}
			}
			b.WriteByte('\n')
		}
	}
	walk(d.root, "")
	return b.String()
}

// Digest renders content compactly.
func Digest(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%q", b)
	}
	h := fnv.New32a()
	h.Write(b)
	return fmt.Sprintf("%d:%08x", len(b), h.Sum32())
}

// ---- files

// File is a handle.
type File struct {
	wrote  bool
	d      *Disk
	n      *inode
	name   string
	flag   int
	pos    int64
	closed bool
	epoch  int
	dirPos int
	dirEnt []fs.DirEntry
	ext    []byte // external content as it was when opened
}

func (f *File) bytes() []byte {
	if f.n.ext != nil {
		return f.ext
	}
	return f.n.data
}

var _ vroot.File = (*File)(nil)

func (f *File) path() string { return f.name }

func (f *File) check(kind string) error {
	if f.closed {
		return perr(kind, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) begin(op Op) (Fault, error) {
	op.Path = f.name
	ft, err := f.d.begin(op)
	if err != nil {
		return ft, err
	}
	if f.epoch != f.d.epoch {
		return ft, ErrDead
	}
	return ft, f.check(op.Kind)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) canRead() bool { return f.flag&(os.O_WRONLY) == 0 }
func (f *File) canWrite() bool {
	return f.flag&(os.O_WRONLY|os.O_RDWR) != 0 || f.d.Quirks.LaxAccess
}

func (f *File) Close() error {
	op := Op{Kind: "close", Path: f.name, Write: f.flag&(os.O_WRONLY|os.O_RDWR) != 0}
	ft, err := f.begin(op)
	if err != nil {
		return err
	}
	f.closed = true
	delete(f.d.open, f)
	if ft.Err != nil {
		if p := f.d.Plan; p.CloseLoses && f.wrote && len(f.n.data) > 0 && !ft.After {
			f.d.truncate(f.n, int64(p.Sim.Draw(vsim.SFault, len(f.n.data))))
			p.Sim.Fault("close-loses-writes")
		}
		if f.d.CloseFailed != nil {
			f.d.CloseFailed(op, ft.Err)
		}
		return ft.Err
	}
	return f.d.end(op, ft, nil)
}

func (f *File) Read(b []byte) (int, error) {
	n, err := f.readAt("read", b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, perr("readat", f.name, syscall.EINVAL)
	}
	if !f.d.Yields {
		n, err := f.readAt("readat", b, off)
		if err == nil && n < len(b) {
			err = io.EOF
		}
		return n, err
	}
	n, err := f.readAt("readat", b, off)
	if err == nil && n < len(b) {
		// positioned reads may not be short without an error
		var m int
		for n < len(b) && err == nil {
			m, err = f.rawRead(b[n:], off+int64(n))
			n += m
		}
	}
	if err == io.EOF && f.d.WrapEOF {
		err = perr("readat", f.name, err)
	}
	return n, err
}

func (f *File) rawRead(b []byte, off int64) (int, error) {
	if off >= int64(len(f.bytes())) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	return copy(b, f.bytes()[off:]), nil
}

func (f *File) readAt(kind string, b []byte, off int64) (int, error) {
	op := Op{Kind: kind, Path: f.name, N: len(b)}
	if r := int64(len(f.bytes())) - off; int64(op.N) > r {
		op.N = int(max(r, 0))
	}
	ft, err := f.begin(op)
	if err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, perr(kind, f.name, syscall.EISDIR)
	}
	if !f.canRead() {
		return 0, perr(kind, f.name, syscall.EBADF)
	}
	if ft.Short > 0 && ft.Short < len(b) {
		b = b[:ft.Short]
	} else if ft.Err != nil {
		return 0, ft.Err
	}
	n, err := f.rawRead(b, off)
	if ft.Err != nil {
		return n, ft.Err
	}
	return n, f.d.end(op, ft, err)
}

func (f *File) Write(b []byte) (int, error) {
	off := f.pos
	n, err := f.writeAt("write", b, off)
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.n.data))
	} else {
		f.pos += int64(n)
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.flag&os.O_APPEND != 0 {
		return 0, perr("writeat", f.name, errors.New("invalid use of WriteAt on file opened with O_APPEND"))
	}
	if off < 0 {
		return 0, perr("writeat", f.name, syscall.EINVAL)
	}
	return f.writeAt("writeat", b, off)
}

func (f *File) writeAt(kind string, b []byte, off int64) (int, error) {
	op := Op{Kind: kind, Path: f.name, N: len(b), Write: true}
	ft, err := f.begin(op)
	if err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, perr(kind, f.name, syscall.EBADF)
	}
	if !f.canWrite() {
		return 0, perr(kind, f.name, syscall.EBADF)
	}
	if f.flag&os.O_APPEND != 0 {
		off = int64(len(f.n.data))
	}
	switch {
	case ft.Short > 0:
		f.d.write(f.n, off, b[:ft.Short])
		return ft.Short, ft.Err
	case ft.Err != nil && !ft.After:
		return 0, ft.Err
	case ft.CrashPst && ft.Partial > 0 && ft.Partial < len(b):
		f.d.write(f.n, off, b[:ft.Partial])
		return 0, f.d.end(op, ft, nil)
	}
	f.wrote = true
	f.d.write(f.n, off, b)
	if err := f.d.end(op, ft, nil); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (f *File) Truncate(size int64) error {
	op := Op{Kind: "truncate", Path: f.name, Write: true}
	ft, err := f.begin(op)
	if err != nil {
		return err
	}
	if ft.Err != nil && !ft.After {
		return ft.Err
	}
	switch {
	case f.n.dir || !f.canWrite():
		return perr("truncate", f.name, syscall.EINVAL)
	case size < 0:
		return perr("truncate", f.name, syscall.EINVAL)
	}
	f.d.truncate(f.n, size)
	return f.d.end(op, ft, nil)
}

func (f *File) Sync() error {
	op := Op{Kind: "sync", Path: f.name, Write: true}
	ft, err := f.begin(op)
	if err != nil {
		return err
	}
	if ft.Err != nil {
		return ft.Err
	}
	f.wrote = false
	if !f.n.dir {
		f.n.durable = append([]byte(nil), f.n.data...)
		f.n.pend = nil
	}
	return f.d.end(op, ft, nil)
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.d.Plan != nil && f.d.Plan.Kinds["seek"] {
		ft, err := f.begin(Op{Kind: "seek", Path: f.name})
		if err != nil {
			return 0, err
		}
		if ft.Err != nil {
			return 0, ft.Err
		}
	}
	var np int64
	switch whence {
	case io.SeekStart:
		np = offset
	case io.SeekCurrent:
		np = f.pos + offset
	case io.SeekEnd:
		np = int64(len(f.bytes())) + offset
	default:
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if np < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = np
	if f.n.dir {
		f.dirEnt, f.dirPos = nil, 0
	}
	return np, nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	op := Op{Kind: "fstat", Path: f.name}
	ft, err := f.begin(op)
	if err != nil {
		return nil, err
	}
	if ft.Err != nil {
		return nil, ft.Err
	}
	i := f.n.info(path.Base(filepath.ToSlash(f.name)))
	if f.n.ext != nil {
		i.size = int64(len(f.ext))
	}
	if err := f.d.end(op, ft, nil); err != nil {
		return nil, err
	}
	return i, nil
}

func (f *File) fattr(kind string, fn func(n *inode)) error {
	op := Op{Kind: kind, Path: f.name, Write: true}
	ft, err := f.begin(op)
	if err != nil {
		return err
	}
	if ft.Err != nil && !ft.After {
		return ft.Err
	}
	fn(f.n)
	return f.d.end(op, ft, nil)
}

func (f *File) Chmod(mode fs.FileMode) error {
	return f.fattr("chmod", func(n *inode) { n.mode = mode & chmodMask })
}

func (f *File) Chown(uid, gid int) error {
	return f.fattr("chown", func(n *inode) { n.uid, n.gid = uid, gid })
}

type dirent struct {
	info
	d    *Disk
	lazy *inode // directory to look the entry up in when asked for its information
}

func (e dirent) Type() fs.FileMode { return e.mode.Type() }
func (e dirent) Info() (fs.FileInfo, error) {
	if e.lazy != nil {
		if ft, err := e.d.begin(Op{Kind: "lstat", Path: e.name}); err != nil || ft.Err != nil {
			return nil, cmp.Or(err, ft.Err)
		}
		c := e.lazy.children[e.name]
		if c == nil {
			return nil, perr("lstat", e.name, syscall.ENOENT)
		}
		return c.info(e.name), nil
	}
	return e.info, nil
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	op := Op{Kind: "readdir", Path: f.name}
	ft, err := f.begin(op)
	if err != nil {
		return nil, err
	}
	if !f.n.dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	if f.dirEnt == nil {
		f.dirEnt = []fs.DirEntry{}
		for _, k := range f.n.names() {
			e := dirent{info: f.n.children[k].info(k)}
			if f.d.Quirks.LazyInfo {
				e.d, e.lazy = f.d, f.n
			}
			f.dirEnt = append(f.dirEnt, e)
		}
		if f.d.ReadDirReverse {
			for i, j := 0, len(f.dirEnt)-1; i < j; i, j = i+1, j-1 {
				f.dirEnt[i], f.dirEnt[j] = f.dirEnt[j], f.dirEnt[i]
			}
		}
	}
	rest := f.dirEnt[f.dirPos:]
	if ft.Err != nil {
		// a listing may fail after part of it was produced
		k := 0
		if s := f.d.Plan.Sim; len(rest) > 0 {
			k = s.Draw(vsim.SFault, len(rest)+1)
		}
		if n > 0 {
			k = 0
		}
		f.dirPos += k
		if p := f.d.Plan; p.Listed == nil {
			p.Listed = map[string][]string{}
		}
		for _, e := range rest[:k] {
			f.d.Plan.Listed[f.name] = append(f.d.Plan.Listed[f.name], e.Name())
		}
		return append([]fs.DirEntry{}, rest[:k]...), ft.Err
	}
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if len(rest) > n {
			rest = rest[:n]
		}
	}
	f.dirPos += len(rest)
	return append([]fs.DirEntry{}, rest...), f.d.end(op, ft, nil)
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	var out []fs.FileInfo
	for {
		es, err := f.ReadDir(n)
		for _, e := range es {
			i, err := e.Info()
			if err == nil {
				out = append(out, i)
			} else if !errors.Is(err, fs.ErrNotExist) {
				return out, err
			}
		}
		if err != nil || n <= 0 || len(out) > 0 {
			return out, err
		}
	}
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

// SyncAll makes everything durable: the state a run starts from.
func (d *Disk) SyncAll() {
	var walk func(n *inode)
	walk = func(n *inode) {
		for _, k := range n.names() {
			walk(n.children[k])
		}
		if !n.dir && !n.isLink {
			n.durable = append([]byte(nil), n.data...)
			n.pend = nil
		}
	}
	walk(d.root)
}

// Snapshot is a handle at the same position on a frozen copy of the file.
func (f *File) Snapshot() *File {
	n := *f.n
	n.data = append([]byte(nil), f.n.data...)
	n.removed = true
	c := *f
	c.n = &n
	delete(f.d.open, f)
	f.d.open[&c] = struct{}{}
	return &c
}

// SnapshotFile is Snapshot behind an interface.
func (f *File) SnapshotFile() vroot.File { return f.Snapshot() }
