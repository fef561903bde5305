// Package simsftp is an SFTP version 3 server over a simulated disk, joined to
// a client by a simulated connection: every request is answered on the
// caller's own goroutine before its write returns, and a run decides what goes
// wrong with it.
package simsftp

import (
	"encoding/binary"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// Plan decides faults.
type Plan struct {
	Sim     *vsim.Sim
	MeanGap int // requests between faults; 0 never
	Max     int
	Short   float64 // share of reads answered with fewer bytes
	Off     bool

	gap   int
	Fired int
	// Hit names the requests that met a fault.
	Hit []string
}

func (p *Plan) fire() bool {
	if p == nil || p.Off || p.MeanGap == 0 || p.Fired >= p.Max {
		return false
	}
	if p.gap == 0 {
		p.gap = 1 + p.Sim.Draw(vsim.SFault, 2*p.MeanGap)
	}
	p.gap--
	if p.gap > 0 {
		return false
	}
	p.Fired++
	return true
}

// Server answers requests on Disk.
type Server struct {
	Disk *simfs.Disk
	Plan *Plan
	// OpenSSH picks that server's status codes, bland messages and refusing
	// renames; otherwise pkg/sftp's.
	OpenSSH bool
	Fsync   bool
	// Batch is how many names one READDIR answers.
	Batch int
	// Log receives one line per request.
	Log func(format string, args ...any)

	handles map[string]*handle
	next    int
	Conns   int
}

type handle struct {
	f    io.Closer
	file interface {
		io.ReaderAt
		io.WriterAt
		Stat() (fs.FileInfo, error)
		Truncate(int64) error
		Chmod(fs.FileMode) error
		Chown(int, int) error
		Sync() error
	}
	names []fs.FileInfo // of a directory
	dir   bool
	pos   int
}

// Open counts the handles nobody closed.
func (s *Server) Open() int { return len(s.handles) }

// Conn is one connection; it is the client's reader and writer.
type Conn struct {
	s   *Server
	in  []byte
	mu  sync.Mutex
	c   *sync.Cond
	out []byte
	// eof: nothing more will come; dead: writes fail too
	eof, dead bool
	Dropped   bool
	own       []string
}

// Dial makes a connection.
func (s *Server) Dial() *Conn {
	if s.handles == nil {
		s.handles = map[string]*handle{}
	}
	s.Conns++
	c := &Conn{s: s}
	c.c = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.out) == 0 && !c.eof {
		c.c.Wait()
	}
	if len(c.out) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.out)
	c.out = c.out[n:]
	return n, nil
}

// Close ends the connection.
func (c *Conn) Close() error {
	c.hangUp()
	return nil
}

func (c *Conn) hangUp() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof, c.dead = true, true
	c.c.Broadcast()
}

// Drop breaks the connection between requests.
func (c *Conn) Drop() {
	c.Dropped = true
	c.releaseAll()
	c.hangUp()
}

func (c *Conn) releaseAll() {
	for _, h := range c.own {
		if x := c.s.handles[h]; x != nil {
			_ = x.f.Close()
			delete(c.s.handles, h)
		}
	}
	c.own = nil
}

var errBroken = errors.New("simulated connection is broken")

func (c *Conn) Write(b []byte) (int, error) {
	if c.dead {
		return 0, errBroken
	}
	c.in = append(c.in, b...)
	for len(c.in) >= 4 {
		n := int(binary.BigEndian.Uint32(c.in))
		if len(c.in) < 4+n {
			break
		}
		p := c.in[4 : 4+n]
		c.in = c.in[4+n:]
		if err := c.packet(p); err != nil {
			return 0, err
		}
	}
	return len(b), nil
}

func (c *Conn) send(p []byte, cut int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := binary.BigEndian.AppendUint32(nil, uint32(len(p)))
	m = append(m, p...)
	if cut >= 0 {
		m = m[:min(cut, len(m)-1)]
		c.eof, c.dead = true, true
	}
	c.out = append(c.out, m...)
	c.c.Broadcast()
}

const (
	tInit = 1 + iota
	tVersion
	tOpen
	tClose
	tRead
	tWrite
	tLstat
	tFstat
	tSetstat
	tFsetstat
	tOpendir
	tReaddir
	tRemove
	tMkdir
	tRmdir
	tRealpath
	tStat
	tRename
	tReadlink
	tSymlink
	tStatus   = 101
	tHandle   = 102
	tData     = 103
	tName     = 104
	tAttrs    = 105
	tExtended = 200
)

var tNames = map[byte]string{tOpen: "open", tClose: "close", tRead: "read", tWrite: "write", tLstat: "lstat", tFstat: "fstat", tSetstat: "setstat",
	tFsetstat: "fsetstat", tOpendir: "opendir", tReaddir: "readdir", tRemove: "remove", tMkdir: "mkdir", tRmdir: "rmdir", tRealpath: "realpath",
	tStat: "stat", tRename: "rename", tReadlink: "readlink", tSymlink: "symlink", tExtended: "extended"}

const (
	fxOK = iota
	fxEOF
	fxNoSuchFile
	fxPermission
	fxFailure
	fxBadMessage
	_
	_
	fxUnsupported
)

type rd struct{ b []byte }

func (r *rd) u32() uint32 {
	if len(r.b) < 4 {
		r.b = nil
		return 0
	}
	v := binary.BigEndian.Uint32(r.b)
	r.b = r.b[4:]
	return v
}

func (r *rd) u64() uint64 { return uint64(r.u32())<<32 | uint64(r.u32()) }

func (r *rd) str() string {
	n := int(r.u32())
	if n > len(r.b) {
		n = len(r.b)
	}
	v := string(r.b[:n])
	r.b = r.b[n:]
	return v
}

func astr(b []byte, s string) []byte {
	return append(binary.BigEndian.AppendUint32(b, uint32(len(s))), s...)
}

func head(t byte, id uint32) []byte { return binary.BigEndian.AppendUint32([]byte{t}, id) }

func (s *Server) status(id uint32, code uint32, msg string) []byte {
	b := binary.BigEndian.AppendUint32(head(tStatus, id), code)
	return astr(astr(b, msg), "")
}

func (s *Server) errStatus(id uint32, err error) []byte {
	code := uint32(fxFailure)
	var no syscall.Errno
	errors.As(err, &no)
	switch {
	case err == nil:
		return s.status(id, fxOK, "")
	case err == io.EOF:
		return s.status(id, fxEOF, "EOF")
	case errors.Is(err, fs.ErrNotExist):
		code = fxNoSuchFile
	case s.OpenSSH && (no == syscall.ENOTDIR || no == syscall.EBADF || no == syscall.ELOOP):
		code = fxNoSuchFile
	case errors.Is(err, fs.ErrPermission):
		code = fxPermission
	case s.OpenSSH && no == syscall.EINVAL:
		code = fxBadMessage
	}
	msg := err.Error()
	if s.OpenSSH {
		msg = map[uint32]string{fxNoSuchFile: "No such file", fxPermission: "Permission denied", fxFailure: "Failure", fxBadMessage: "Bad message"}[code]
	}
	return s.status(id, code, msg)
}

func modeBits(m fs.FileMode) uint32 {
	b := uint32(m.Perm())
	switch {
	case m&fs.ModeDir != 0:
		b |= 0o040000
	case m&fs.ModeSymlink != 0:
		b |= 0o120000
	default:
		b |= 0o100000
	}
	return b
}

func attrs(b []byte, i fs.FileInfo) []byte {
	b = binary.BigEndian.AppendUint32(b, 1|4|8)
	b = binary.BigEndian.AppendUint64(b, uint64(i.Size()))
	b = binary.BigEndian.AppendUint32(b, modeBits(i.Mode()))
	t := uint32(i.ModTime().Unix())
	b = binary.BigEndian.AppendUint32(b, t)
	return binary.BigEndian.AppendUint32(b, t)
}

func clean(p string) string {
	p = path.Clean("/" + p)[1:]
	if p == "" {
		return "."
	}
	return p
}

// packet answers one request.
func (c *Conn) packet(p []byte) error {
	s := c.s
	typ := p[0]
	r := &rd{p[1:]}
	if typ == tInit {
		b := binary.BigEndian.AppendUint32([]byte{tVersion}, 3)
		b = astr(astr(b, "posix-rename@openssh.com"), "1")
		b = astr(astr(b, "hardlink@openssh.com"), "1")
		if s.Fsync {
			b = astr(astr(b, "fsync@openssh.com"), "1")
		}
		c.send(b, -1)
		return nil
	}
	id := r.u32()
	kind := tNames[typ]
	if typ == tExtended {
		kind = strings.TrimSuffix((&rd{r.b}).str(), "@openssh.com")
	}
	var reply []byte
	fault := ""
	if s.Plan.fire() {
		s.Plan.Hit = append(s.Plan.Hit, kind)
		switch s.Plan.Sim.Weighted(vsim.SFault, 6, 2, 2, 2, 2, 1, 1, 1) {
		case 0, 1:
			fault = "refused"
			code := []uint32{fxFailure, fxPermission, fxUnsupported}[s.Plan.Sim.Weighted(vsim.SFault, 4, 3, 1)]
			reply = s.status(id, code, "simulated refusal")
			if code == fxUnsupported {
				s.Plan.Hit[len(s.Plan.Hit)-1] += "-unsupported"
			}
			if typ == tWrite {
				w := &rd{r.b}
				h, off, data := s.handles[w.str()], w.u64(), w.str()
				if h != nil && len(data) > 1 && s.Plan.Sim.Draw(vsim.SFault, 2) == 0 {
					fault = "torn-write"
					_, _ = h.file.WriteAt([]byte(data)[:1+s.Plan.Sim.Draw(vsim.SFault, len(data)-1)], int64(off))
				}
			}
		case 2:
			fault = "reported-failed"
			s.answer(c, typ, id, r)
			reply = s.status(id, fxFailure, "simulated failure")
		case 3:
			fault = "dropped-before"
			c.log(kind, fault)
			c.Drop()
			return errBroken
		case 4:
			fault = "reply-lost"
			s.answer(c, typ, id, r)
			c.log(kind, fault)
			c.Drop()
			return nil
		case 5:
			fault = "reply-cut"
			reply = s.answer(c, typ, id, r)
			cut := s.Plan.Sim.Draw(vsim.SFault, len(reply)+4)
			c.log(kind, fault)
			c.Dropped = true
			c.releaseAll()
			c.send(reply, cut)
			return nil
		case 6:
			fault = "request-lost"
			c.log(kind, fault)
			c.Drop()
			return nil
		case 7:
			fault = "odd-reply"
			s.answer(c, typ, id, r)
			reply = head(tVersion, id)
		}
		if fault != "" {
			c.log(kind, fault)
		}
	}
	if reply == nil {
		reply = s.answer(c, typ, id, r)
	}
	c.send(reply, -1)
	return nil
}

func (c *Conn) log(kind, fault string) {
	c.s.Plan.Sim.Fault(fault + "-" + kind)
	c.s.Plan.Sim.Logf("  server: %s %s", kind, fault)
}

func (s *Server) answer(c *Conn, typ byte, id uint32, r *rd) []byte {
	d := s.Disk
	info := func(i fs.FileInfo, err error) []byte {
		if err != nil {
			return s.errStatus(id, err)
		}
		return attrs(head(tAttrs, id), i)
	}
	give := func(h *handle) []byte {
		s.next++
		n := "h" + strconv.Itoa(s.next)
		s.handles[n] = h
		c.own = append(c.own, n)
		return astr(head(tHandle, id), n)
	}
	setattr := func(size func(int64) error, mode func(fs.FileMode) error, owner func(int, int) error, times func(time.Time, time.Time) error) []byte {
		fl := r.u32()
		var err error
		if fl&1 != 0 {
			if e := size(int64(r.u64())); err == nil {
				err = e
			}
		}
		if fl&2 != 0 {
			u, g := int(int32(r.u32())), int(int32(r.u32()))
			if e := owner(u, g); err == nil {
				err = e
			}
		}
		if fl&4 != 0 {
			if e := mode(fs.FileMode(r.u32() & 0o777)); err == nil {
				err = e
			}
		}
		if fl&8 != 0 {
			a := time.Unix(int64(r.u32()), 0)
			m := time.Unix(int64(r.u32()), 0)
			if e := times(a.UTC(), m.UTC()); err == nil {
				err = e
			}
		}
		return s.errStatus(id, err)
	}
	switch typ {
	case tOpen:
		p, fl := clean(r.str()), r.u32()
		flag := 0
		switch {
		case fl&3 == 3:
			flag = os.O_RDWR
		case fl&2 != 0:
			flag = os.O_WRONLY
		}
		for b, f := range map[uint32]int{8: os.O_CREATE, 0x10: os.O_TRUNC, 0x20: os.O_EXCL} {
			if fl&b != 0 {
				flag |= f
			}
		}
		f, err := d.OpenFile(p, flag, 0o644)
		if err != nil {
			return s.errStatus(id, err)
		}
		return give(&handle{f: f, file: f})
	case tClose:
		n := r.str()
		h := s.handles[n]
		if h == nil {
			return s.errStatus(id, syscall.EBADF)
		}
		delete(s.handles, n)
		return s.errStatus(id, h.f.Close())
	case tRead:
		h, off, n := s.handles[r.str()], r.u64(), r.u32()
		if h == nil || h.dir {
			return s.errStatus(id, syscall.EBADF)
		}
		b := make([]byte, min(n, 1<<18))
		if n > 1 && s.Plan != nil && !s.Plan.Off && s.Plan.Short > 0 && s.Plan.Sim.Chance(vsim.SFault, s.Plan.Short) {
			b = b[:1+s.Plan.Sim.Draw(vsim.SFault, int(n)-1)]
			s.Plan.Sim.Faults["short-read"]++
		}
		k, err := h.file.ReadAt(b, int64(off))
		if k == 0 && err != nil {
			return s.errStatus(id, err)
		}
		return astr(head(tData, id), string(b[:k]))
	case tWrite:
		h, off, data := s.handles[r.str()], r.u64(), r.str()
		if h == nil || h.dir {
			return s.errStatus(id, syscall.EBADF)
		}
		_, err := h.file.WriteAt([]byte(data), int64(off))
		return s.errStatus(id, err)
	case tLstat:
		return info(d.Lstat(clean(r.str())))
	case tStat:
		return info(d.Stat(clean(r.str())))
	case tFstat:
		h := s.handles[r.str()]
		if h == nil || h.dir {
			return s.errStatus(id, syscall.EBADF)
		}
		return info(h.file.Stat())
	case tSetstat:
		p := clean(r.str())
		return setattr(func(n int64) error {
			f, err := d.OpenFile(p, os.O_WRONLY, 0)
			if err != nil {
				return err
			}
			defer f.Close()
			return f.Truncate(n)
		}, func(m fs.FileMode) error { return d.Chmod(p, m) }, func(u, g int) error { return d.Chown(p, u, g) }, func(a, m time.Time) error { return d.Chtimes(p, a, m) })
	case tFsetstat:
		h := s.handles[r.str()]
		if h == nil || h.dir {
			return s.errStatus(id, syscall.EBADF)
		}
		return setattr(h.file.Truncate, h.file.Chmod, h.file.Chown, func(a, m time.Time) error { return syscall.EOPNOTSUPP })
	case tOpendir:
		p := clean(r.str())
		f, err := d.Open(p)
		if err != nil {
			return s.errStatus(id, err)
		}
		l, err := f.ReadDir(-1)
		if err != nil {
			_ = f.Close()
			return s.errStatus(id, err)
		}
		self, _ := f.Stat()
		h := &handle{f: f, dir: true, names: []fs.FileInfo{named{self, "."}, named{self, ".."}}}
		for _, e := range l {
			i, _ := e.Info()
			h.names = append(h.names, i)
		}
		return give(h)
	case tReaddir:
		h := s.handles[r.str()]
		if h == nil || !h.dir {
			return s.errStatus(id, syscall.EBADF)
		}
		n := min(max(1, s.Batch), len(h.names)-h.pos)
		if n == 0 {
			return s.errStatus(id, io.EOF)
		}
		b := binary.BigEndian.AppendUint32(head(tName, id), uint32(n))
		for _, i := range h.names[h.pos : h.pos+n] {
			b = attrs(astr(astr(b, i.Name()), "long "+i.Name()), i)
		}
		h.pos += n
		return b
	case tRemove:
		p := clean(r.str())
		if i, err := d.Lstat(p); err == nil && i.IsDir() {
			return s.errStatus(id, &fs.PathError{Op: "remove", Path: p, Err: syscall.EISDIR})
		}
		return s.errStatus(id, d.Remove(p))
	case tRmdir:
		p := clean(r.str())
		if i, err := d.Lstat(p); err == nil && !i.IsDir() {
			return s.errStatus(id, &fs.PathError{Op: "rmdir", Path: p, Err: syscall.ENOTDIR})
		}
		return s.errStatus(id, d.Remove(p))
	case tMkdir:
		return s.errStatus(id, d.Mkdir(clean(r.str()), 0o755))
	case tRename:
		o, n := clean(r.str()), clean(r.str())
		if s.OpenSSH {
			if _, err := d.Lstat(o); err != nil {
				return s.errStatus(id, err)
			}
			if _, err := d.Lstat(n); err == nil {
				return s.errStatus(id, syscall.EEXIST)
			}
		}
		return s.errStatus(id, d.Rename(o, n))
	case tReadlink:
		t, err := d.ReadLink(clean(r.str()))
		if err != nil {
			return s.errStatus(id, err)
		}
		b := binary.BigEndian.AppendUint32(head(tName, id), 1)
		return binary.BigEndian.AppendUint32(astr(astr(b, t), t), 0)
	case tSymlink: // target first, as every server in use has it
		t, l := r.str(), clean(r.str())
		return s.errStatus(id, d.Symlink(t, l))
	case tExtended:
		switch r.str() {
		case "posix-rename@openssh.com":
			return s.errStatus(id, d.Rename(clean(r.str()), clean(r.str())))
		case "hardlink@openssh.com":
			return s.errStatus(id, d.Link(clean(r.str()), clean(r.str())))
		case "fsync@openssh.com":
			h := s.handles[r.str()]
			if h == nil || h.dir {
				return s.errStatus(id, syscall.EBADF)
			}
			return s.errStatus(id, h.file.Sync())
		}
	}
	return s.status(id, fxUnsupported, "unsupported")
}

type named struct {
	fs.FileInfo
	name string
}

func (n named) Name() string { return n.name }
