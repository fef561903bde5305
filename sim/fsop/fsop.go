// Package fsop is the workload vocabulary shared by the file-system scenarios:
// operations drawn from the tape, executed alike on the code under test and on
// the reference model, with outcomes normalised to comparable strings.
package fsop

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"os"
	"path"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/sim/vsim"
)

// FS is what operations run against.
type FS = vroot.Fs[vroot.File]

// Op is one call.
type Op struct {
	Kind string
	A, B string
	Perm fs.FileMode
	Flag int
	H    int // handle slot the call opens or uses
	Data string
	Off  int64
	N    int
	Time int64
	View int // which view of the file system the call goes through
}

func (o Op) String() string {
	v := ""
	if o.View > 0 {
		v = fmt.Sprintf("view%d.", o.View)
	}
	switch o.Kind {
	case "open", "opensnap":
		return fmt.Sprintf("%sh%d=open(%q,%s,%o)", v, o.H, o.A, FlagStr(o.Flag), o.Perm)
	case "read", "readdir", "readfull":
		return fmt.Sprintf("h%d.%s(%d)", o.H, o.Kind, o.N)
	case "closeprobe":
		return fmt.Sprintf("%sclose-and-use(%q,%#x)", v, o.A, o.Flag)
	case "dirprobe":
		return fmt.Sprintf("%sdirprobe(%q,%s,%q,%o)", v, o.A, o.Data, o.B, o.Perm)
	case "listpieces":
		return fmt.Sprintf("%slistpieces(%q,%d,%s)", v, o.A, o.N, [...]string{"ReadDir", "Readdir", "Readdirnames"}[o.Off])
	case "readat":
		return fmt.Sprintf("h%d.readat(%d,@%d)", o.H, o.N, o.Off)
	case "write":
		if o.N == 1 {
			return fmt.Sprintf("h%d.writestring(%q)", o.H, o.Data)
		}
		return fmt.Sprintf("h%d.write(%q)", o.H, o.Data)
	case "writeat":
		return fmt.Sprintf("h%d.writeat(%q,@%d)", o.H, o.Data, o.Off)
	case "truncate":
		return fmt.Sprintf("h%d.truncate(%d)", o.H, o.Off)
	case "seek":
		return fmt.Sprintf("h%d.seek(%d,%d)", o.H, o.Off, o.N)
	case "close", "fstat", "sync":
		return fmt.Sprintf("h%d.%s()", o.H, o.Kind)
	case "fchmod":
		return fmt.Sprintf("h%d.chmod(%o)", o.H, o.Perm)
	case "mkdir", "mkdirall", "chmod":
		return fmt.Sprintf("%s%s(%q,%o)", v, o.Kind, o.A, o.Perm)
	case "rename", "link", "symlink":
		return fmt.Sprintf("%s%s(%q,%q)", v, o.Kind, o.A, o.B)
	case "setowner", "setlowner":
		return fmt.Sprintf("%s%s(%q,%d,%d)", v, o.Kind, o.A, o.N, o.Off)
	case "fsetowner":
		return fmt.Sprintf("h%d.chown(%d,%d)", o.H, o.N, o.Off)
	case "createwrite":
		return fmt.Sprintf("%screatewrite(%q,%q)", v, o.A, o.Data)
	case "chtimes":
		return fmt.Sprintf("%schtimes(%q,%d)", v, o.A, o.Time)
	case "addfile", "addfs":
		return fmt.Sprintf("%s%s(%q,#%d,rule%d)", v, o.Kind, o.A, o.N, o.Off)
	case "writefile", "appendfile":
		return fmt.Sprintf("%s"+o.Kind+"(%q,%q)", v, o.A, o.Data)
	}
	return fmt.Sprintf("%s%s(%q)", v, o.Kind, o.A)
}

// FlagStr renders open flags.
func FlagStr(f int) string {
	var p []string
	switch f & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR) {
	case os.O_RDONLY:
		p = append(p, "R")
	case os.O_WRONLY:
		p = append(p, "W")
	default:
		p = append(p, "RW")
	}
	for _, x := range []struct {
		f int
		s string
	}{{os.O_CREATE, "CREATE"}, {os.O_EXCL, "EXCL"}, {os.O_TRUNC, "TRUNC"}, {os.O_APPEND, "APPEND"}, {os.O_SYNC, "SYNC"}} {
		if f&x.f != 0 {
			p = append(p, x.s)
		}
	}
	return strings.Join(p, "|")
}

// Class normalises an error.
func Class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, vroot.ErrPathEscapes):
		return "ESCAPE"
	case errors.Is(err, fs.ErrClosed):
		return "CLOSED"
	case errors.Is(err, fs.ErrNotExist):
		return "ENOENT"
	case errors.Is(err, fs.ErrExist):
		return "EEXIST"
	case errors.Is(err, syscall.EXDEV):
		return "EXDEV"
	case errors.Is(err, syscall.EROFS):
		return "EROFS"
	case errors.Is(err, fs.ErrPermission):
		return "EPERM"
	}
	return "ERR"
}

// World is one file system (and views of it) with its handle table.
type World struct {
	FS    FS
	Views []FS // Views[0] unused; View n goes through Views[n]
	H     map[int]vroot.File
	// ClassOf overrides error normalisation.
	ClassOf func(error) string
	// Custom runs kinds of operations this package does not know.
	Custom func(f FS, op Op) (string, error)
	// Lib goes through vroot.ReadDir, ReadFile and WriteFile.
	Lib bool
	// Raw receives the unnormalised error of the latest call.
	Raw error
}

// NewWorld wraps a file system.
func NewWorld(f FS) *World { return &World{FS: f, H: map[int]vroot.File{}, ClassOf: Class} }

func (w *World) view(n int) FS {
	if n > 0 && n < len(w.Views) {
		return w.Views[n]
	}
	return w.FS
}

// Result is the outcome of one call.
type Result struct {
	Class string
	Val   string
	Err   error
}

func (r Result) String() string {
	if r.Val == "" {
		return r.Class
	}
	return r.Class + " " + r.Val
}

// InfoStr renders file information: type, permissions, size of a regular file.
func InfoStr(i fs.FileInfo) string {
	if i == nil {
		return "<nil info>"
	}
	s := fmt.Sprintf("%s %v", i.Name(), i.Mode())
	if i.Mode().IsRegular() {
		s += fmt.Sprintf(" %d", i.Size())
	}
	return s
}

// Do executes op.
func (w *World) Do(op Op) Result {
	f := w.view(op.View)
	var err error
	val := ""
	h := w.H[op.H]
	needH := func() bool {
		if h == nil {
			val = "no-handle"
			return false
		}
		return true
	}
	switch op.Kind {
	case "mkdir":
		err = f.Mkdir(op.A, op.Perm)
	case "mkdirall":
		err = f.MkdirAll(op.A, op.Perm)
	case "remove":
		err = f.Remove(op.A)
	case "removeall":
		err = f.RemoveAll(op.A)
	case "rename":
		err = f.Rename(op.A, op.B)
	case "link":
		err = f.Link(op.A, op.B)
	case "symlink":
		err = f.Symlink(op.A, op.B)
	case "readlink":
		val, err = f.ReadLink(op.A)
		if err != nil {
			val = ""
		}
	case "lstat", "stat":
		var i fs.FileInfo
		if op.Kind == "stat" {
			i, err = f.Stat(op.A)
		} else {
			i, err = f.Lstat(op.A)
		}
		if err == nil {
			val = InfoStr(i)
			if op.Kind == "stat" {
				// which name it reports after following a link is left open
				val = val[strings.IndexByte(val, ' ')+1:]
			}
		}
	case "mtime":
		var i fs.FileInfo
		i, err = f.Lstat(op.A)
		if err == nil {
			val = fmt.Sprint(i.ModTime().UnixNano())
		}
	case "chmod":
		err = f.Chmod(op.A, op.Perm)
	case "chtimes":
		t := time.Unix(op.Time, 0).UTC()
		err = f.Chtimes(op.A, t.Add(7*time.Second), t)
	case "setowner":
		if err = f.Chown(op.A, op.N, int(op.Off)); err == nil {
			val = ownerStr(f.Stat(op.A))
		}
	case "setlowner":
		if err = f.Lchown(op.A, op.N, int(op.Off)); err == nil {
			val = ownerStr(f.Lstat(op.A))
		}
	case "fsetowner":
		if needH() {
			err = h.Chown(op.N, int(op.Off))
		}
	case "createwrite":
		var file vroot.File
		if file, err = f.Create(op.A); err == nil {
			_, err = file.Write([]byte(op.Data))
			if cerr := file.Close(); err == nil {
				err = cerr
			}
		}
	case "open", "opensnap":
		var file vroot.File
		switch {
		case op.Flag == os.O_RDONLY && op.Perm == 0:
			file, err = f.Open(op.A)
		case op.Flag == os.O_RDWR|os.O_CREATE|os.O_TRUNC && op.Perm == 0o666:
			file, err = f.Create(op.A)
		default:
			file, err = f.OpenFile(op.A, op.Flag, op.Perm)
		}
		if err == nil {
			if op.Kind == "opensnap" {
				file = file.(interface{ SnapshotFile() vroot.File }).SnapshotFile()
			}
			w.H[op.H] = file
		}
	case "close":
		if needH() {
			err = h.Close()
		}
	case "read":
		if needH() {
			b := make([]byte, op.N)
			n, e := h.Read(b)
			err = e
			val = data(b, n)
		}
	case "readat":
		if needH() {
			b := make([]byte, op.N)
			n, e := h.ReadAt(b, op.Off)
			err = e
			val = data(b, n)
		}
	case "write":
		if needH() {
			var n int
			if op.N == 1 {
				n, err = h.WriteString(op.Data)
			} else {
				n, err = h.Write([]byte(op.Data))
			}
			val = fmt.Sprint(n)
		}
	case "writeat":
		if needH() {
			var n int
			n, err = h.WriteAt([]byte(op.Data), op.Off)
			val = fmt.Sprint(n)
		}
	case "truncate":
		if needH() {
			err = h.Truncate(op.Off)
		}
	case "sync":
		if needH() {
			err = h.Sync()
		}
	case "fchmod":
		if needH() {
			err = h.Chmod(op.Perm)
		}
	case "seek":
		if needH() {
			var p int64
			p, err = h.Seek(op.Off, op.N)
			if err == nil {
				val = fmt.Sprint(p)
			}
		}
	case "fstat":
		if needH() {
			var i fs.FileInfo
			i, err = h.Stat()
			if err == nil {
				val = InfoStr(i)
				// the name a handle reports is the one it was opened by
				val = val[strings.IndexByte(val, ' ')+1:]
			}
		}
	case "readdir":
		if needH() {
			var ents []fs.DirEntry
			ents, err = h.ReadDir(op.N)
			val = Entries(ents)
		}
	case "list":
		var ents []fs.DirEntry
		if w.Lib {
			ents, err = vroot.ReadDir(f, op.A)
		} else {
			ents, err = ReadDir(f, op.A)
		}
		if err == nil {
			val = Entries(ents)
			if w.Lib && !slices.IsSortedFunc(ents, func(a, b fs.DirEntry) int { return strings.Compare(a.Name(), b.Name()) }) {
				val = "not sorted: " + val
			}
		}
	case "dirprobe":
		val, err = dirProbe(f, op)
	case "closeprobe":
		var h vroot.File
		h, err = f.OpenFile(op.A, op.Flag, 0)
		if err == nil {
			dir := op.Flag == os.O_RDONLY && isDir(h)
			if err = h.Close(); err == nil {
				val = closedProbe(h, dir)
			}
		}
	case "readfile":
		var b []byte
		if w.Lib {
			b, err = vroot.ReadFile(f, op.A)
		} else {
			b, err = ReadFile(f, op.A)
		}
		if err == nil {
			val = Digest(b)
		}
	case "writefile":
		if w.Lib {
			err = vroot.WriteFile(f, op.A, []byte(op.Data), 0o644)
		} else {
			err = WriteFile(f, op.A, []byte(op.Data), 0o644)
		}
	case "appendfile":
		var h vroot.File
		h, err = f.OpenFile(op.A, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err == nil {
			var n int
			n, err = h.Write([]byte(op.Data))
			if err == nil && n < len(op.Data) {
				err = io.ErrShortWrite
			}
			if cerr := h.Close(); err == nil {
				err = cerr
			}
		}
	case "listpieces":
		var ents []fs.DirEntry
		var h vroot.File
		h, err = f.Open(op.A)
		if err == nil {
			for {
				var e []fs.DirEntry
				e, err = pieces(h, op.N, op.Off)
				ents = append(ents, e...)
				if err == io.EOF && len(e) > 0 {
					val = "entries together with EOF"
				} else if len(e) > op.N {
					val = "more than asked for"
				}
				if err != nil || len(e) == 0 {
					break
				}
			}
			if err == io.EOF {
				err = nil
				if val == "" {
					val = Entries(ents)
				}
			} else if err == nil {
				val = "no EOF"
			}
			h.Close()
		}
	case "dump":
		val, err = Dump(f, op.A, DumpOpt{Perm: op.N&1 != 0})
	case "readfull":
		if needH() {
			b := make([]byte, op.N)
			n := 0
			for n < len(b) && err == nil {
				var k int
				k, err = h.Read(b[n:])
				if k < 0 || n+k > len(b) {
					val = "BADCOUNT"
					break
				}
				n += k
				if k == 0 && err == nil {
					err = io.ErrNoProgress
				}
			}
			if err == io.EOF && n > 0 {
				err = nil
			}
			if val == "" {
				val = data(b, n)
			}
		}
	default:
		if w.Custom == nil {
			panic("fsop: unknown kind " + op.Kind)
		}
		val, err = w.Custom(f, op)
	}
	w.Raw = err
	c := w.ClassOf(err)
	return Result{Class: c, Val: val, Err: err}
}

func data(b []byte, n int) string {
	if n < 0 || n > len(b) {
		return fmt.Sprintf("BADCOUNT(%d of %d)", n, len(b))
	}
	return fmt.Sprintf("%d:%s", n, Digest(b[:n]))
}

// dirProbe works through one directory handle: partial and whole listings,
// rewinding, attributes, and changes made below it in between. What a listing
// begun before a change shows of it is left open, so a change rewinds.
func dirProbe(f FS, op Op) (string, error) {
	h, err := f.Open(op.A)
	if err != nil {
		return "", err
	}
	defer h.Close()
	if i, err := h.Stat(); err != nil || !i.IsDir() {
		return "not a directory", err
	}
	var out []string
	var seen []fs.DirEntry
	closed := false
	say := func(what byte, v string, err error) {
		c := Class(err)
		if closed && err != nil && what != 'x' {
			c = "failed" // systems name it differently
		}
		out = append(out, string(what)+":"+v+c)
	}
	rewind := func() {
		_, err := h.Seek(0, io.SeekStart)
		seen = nil
		say('s', "", err)
	}
	child := path.Join(op.A, op.B)
	for i := range op.Data {
		k := op.Data[i]
		switch k {
		case '1', '2', 'r':
			n := int(k - '0')
			if k == 'r' {
				n = -1
			}
			e, err := pieces(h, n, int64(i)%2)
			if n > 0 && len(e) > n || n > 0 && err == nil && len(e) == 0 || err != nil && len(e) > 0 {
				say(k, fmt.Sprintf("%d entries with %v;", len(e), err), err)
			}
			seen = append(seen, e...)
			v := ""
			if err == io.EOF || err == nil && n < 0 {
				v = Entries(seen)
			}
			say(k, v, err)
		case 's':
			if !closed {
				rewind()
			}
		case 'f':
			i, err := h.Stat()
			v := ""
			if err == nil {
				v = InfoStr(i)
				v = v[strings.IndexByte(v, ' ')+1:]
			}
			say(k, v, err)
		case 'c':
			err := h.Chmod(op.Perm)
			say(k, "", err)
		case 'w', 'd', 'm':
			var err error
			switch k {
			case 'w':
				err = WriteFile(f, child, []byte("probe"), 0o644)
			case 'm':
				err = f.Mkdir(child, op.Perm)
			default:
				err = f.Remove(child)
			}
			say(k, "", err)
			if !closed {
				rewind()
			}
		case 'y':
			if !closed {
				say(k, "", h.Sync())
			}
		case 'x':
			if !closed {
				say(k, "", h.Close())
				closed = true
			}
		}
	}
	return strings.Join(out, " "), nil
}

func isDir(h vroot.File) bool {
	i, err := h.Stat()
	return err == nil && i.IsDir()
}

// closedProbe names the operations a closed handle does not refuse.
func closedProbe(h vroot.File, dir bool) string {
	var b [1]byte
	var out []string
	try := func(what string, err error) {
		if err == nil {
			out = append(out, what)
		}
	}
	_, err := h.Read(b[:])
	try("read", err)
	_, err = h.ReadAt(b[:], 0)
	try("readat", err)
	_, err = h.Write([]byte("!"))
	try("write", err)
	_, err = h.WriteAt([]byte("!"), 0)
	try("writeat", err)
	_, err = h.WriteString("!")
	try("writestring", err)
	try("truncate", h.Truncate(1))
	try("chmod", h.Chmod(0o701))
	try("chown", h.Chown(71, 72))
	if !dir {
		try("sync", h.Sync())
		_, err = h.Seek(0, io.SeekStart)
		try("seek", err)
	}
	_, err = h.Stat()
	try("stat", err)
	for i := range int64(3) {
		_, err = pieces(h, 1, i)
		if err != io.EOF {
			try("listing", err)
		}
	}
	return strings.Join(out, " ")
}

// pieces reads n entries in one of the three ways there are.
func pieces(h vroot.File, n int, how int64) ([]fs.DirEntry, error) {
	var out []fs.DirEntry
	switch how {
	case 1:
		l, err := h.Readdir(n)
		for _, i := range l {
			out = append(out, fs.FileInfoToDirEntry(i))
		}
		return out, err
	case 2:
		l, err := h.Readdirnames(n)
		for _, i := range l {
			out = append(out, onlyName(i))
		}
		return out, err
	}
	return h.ReadDir(n)
}

// onlyName is an entry of which no more is known.
type onlyName string

func (n onlyName) Name() string               { return string(n) }
func (n onlyName) IsDir() bool                { return false }
func (n onlyName) Type() fs.FileMode          { return 0 }
func (n onlyName) Info() (fs.FileInfo, error) { return nil, fs.ErrInvalid }

// Entries is a listing as text, sorted.
func Entries(ents []fs.DirEntry) string {
	var s []string
	for _, e := range ents {
		t := e.Type()
		k := "f"
		switch {
		case t.IsDir():
			k = "d"
		case t&fs.ModeSymlink != 0:
			k = "l"
		}
		s = append(s, e.Name()+":"+k)
	}
	sort.Strings(s)
	return "[" + strings.Join(s, " ") + "]"
}

// Digest renders content compactly.
func Digest(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%q", b)
	}
	h := fnv.New32a()
	h.Write(b)
	return fmt.Sprintf("%d:%08x", len(b), h.Sum32())
}

// ReadDir lists a directory through the interface.
func ReadDir(f FS, name string) ([]fs.DirEntry, error) {
	d, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	defer d.Close()
	return d.ReadDir(-1)
}

// ReadFile reads a whole file through the interface.
func ReadFile(f FS, name string) ([]byte, error) {
	h, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}

// WriteFile creates or truncates and writes a whole file.
func WriteFile(f FS, name string, b []byte, perm fs.FileMode) error {
	h, err := f.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, perm)
	if err != nil {
		return err
	}
	n, err := h.Write(b)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	if cerr := h.Close(); err == nil {
		err = cerr
	}
	return err
}

// ownerStr tells whose a file is, where its information says so.
func ownerStr(i fs.FileInfo, err error) string {
	if o, ok := i.(interface{ Owner() (int, int) }); err == nil && ok {
		u, g := o.Owner()
		return fmt.Sprint(u, ":", g)
	}
	return ""
}

// DumpOpt selects what Dump shows.
type DumpOpt struct {
	Perm  bool
	Mtime bool
	// Tolerant renders errors into the dump in place of failing.
	Tolerant bool
	// Skip leaves entries out.
	Skip func(p string) bool
}

// Dump renders a tree through the public interface only.
func Dump(f FS, root string, o DumpOpt) (string, error) {
	var b strings.Builder
	if root == "" {
		root = "."
	}
	depth := 0
	var walk func(p string) error
	walk = func(p string) error {
		if depth > 120 {
			return fmt.Errorf("dump: %s: tree deeper than 120", p)
		}
		depth++
		defer func() { depth-- }()
		ents, err := ReadDir(f, p)
		if err != nil {
			if o.Tolerant {
				fmt.Fprintf(&b, "%s/ LIST-ERROR %s\n", p, Class(err))
				return nil
			}
			return fmt.Errorf("list %s: %w", p, err)
		}
		names := make([]string, 0, len(ents))
		types := map[string]fs.FileMode{}
		for _, e := range ents {
			if _, dup := types[e.Name()]; dup {
				fmt.Fprintf(&b, "%s DUPLICATE\n", path.Join(p, e.Name()))
			}
			types[e.Name()] = e.Type()
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			c := path.Join(p, n)
			if o.Skip != nil && o.Skip(c) {
				continue
			}
			i, err := f.Lstat(c)
			if err != nil {
				if o.Tolerant {
					fmt.Fprintf(&b, "%s LSTAT-ERROR %s\n", c, Class(err))
					continue
				}
				return fmt.Errorf("lstat %s: %w", c, err)
			}
			if i.Mode().Type() != types[n] {
				fmt.Fprintf(&b, "%s TYPE-MISMATCH list=%v lstat=%v\n", c, types[n], i.Mode().Type())
			}
			perm := ""
			if o.Perm && i.Mode()&fs.ModeSymlink == 0 {
				perm = fmt.Sprintf(" %o", i.Mode().Perm())
			}
			switch {
			case i.IsDir():
				fmt.Fprintf(&b, "%s/%s\n", c, perm)
				if err := walk(c); err != nil {
					return err
				}
			case i.Mode()&fs.ModeSymlink != 0:
				t, err := f.ReadLink(c)
				if err != nil {
					if !o.Tolerant {
						return fmt.Errorf("readlink %s: %w", c, err)
					}
					t = "READLINK-ERROR " + Class(err)
				}
				fmt.Fprintf(&b, "%s -> %s\n", c, t)
			default:
				buf, err := ReadFile(f, c)
				if err != nil {
					if !o.Tolerant {
						return fmt.Errorf("read %s: %w", c, err)
					}
					fmt.Fprintf(&b, "%s READ-ERROR %s\n", c, Class(err))
					continue
				}
				fmt.Fprintf(&b, "%s = %s%s", c, Digest(buf), perm)
				if int64(len(buf)) != i.Size() {
					fmt.Fprintf(&b, " SIZE(%d)", i.Size())
				}
				if o.Mtime {
					fmt.Fprintf(&b, " @%d", i.ModTime().UnixNano())
				}
				b.WriteByte('\n')
			}
		}
		return nil
	}
	err := walk(root)
	return b.String(), err
}

// Ignore is a context nobody cancels.
var Ignore = context.Background()

// Gen draws operations.
type Gen struct {
	S     *vsim.Sim
	Names []string // path components
	Depth int
	// Mix weighs operation kinds; the first is the simplest.
	Mix []KW
	// Links are symlink targets to choose from.
	Links []string
	Perms []fs.FileMode
	Flags []int
	// FilePerms are what files are opened with, instead of 0o644.
	FilePerms []fs.FileMode
	// slot counts handles handed out.
	Slot *int
	// Mine are the handle slots this task may use.
	Mine []int
	// MaxData bounds written data.
	MaxData int
	Views   int
	// WholeDirs keeps directory reads to whole listings: the order of entries is
	// nobody's promise.
	WholeDirs bool
	serial    *int
	// Plan, if set, tracks what a sequential execution of the generated
	// operations would leave, so that most paths drawn mean something.
	Plan *World
	// Far holds names a long way off, drawn now and then.
	Far []string
}

// KW is a kind and its weight.
type KW struct {
	Kind string
	W    int
}

// DefaultFlags covers the meaningful open modes.
var DefaultFlags = []int{
	os.O_RDONLY,
	os.O_RDWR | os.O_CREATE,
	os.O_WRONLY | os.O_CREATE | os.O_TRUNC,
	os.O_RDWR | os.O_CREATE | os.O_TRUNC,
	os.O_RDWR | os.O_CREATE | os.O_EXCL,
	os.O_WRONLY | os.O_APPEND | os.O_CREATE,
	os.O_RDWR,
	os.O_RDWR | os.O_TRUNC,
	os.O_RDWR | os.O_APPEND,
}

// LinksTo are symlink targets through a run's entry names, some of them not in
// their shortest form.
func LinksTo(names []string) []string {
	a, b := names[0], names[1%len(names)]
	l := append([]string{}, names...)
	return append(l, a, b, "../"+a, b+"/"+a, "../"+b+"/"+a, "../"+b, "./"+b, a+"//"+b, a+"/../"+b, b+"/.", a+"/../../"+b)
}

// NewGen makes a generator; share gives it the slot and data counters of another.
func NewGen(s *vsim.Sim, names []string, depth int, mix []KW, share *Gen) *Gen {
	g := &Gen{S: s, Names: names, Depth: depth, Mix: mix, Flags: DefaultFlags,
		Perms: []fs.FileMode{0o755, 0o700, 0o777, 0o500}, Links: LinksTo(names), MaxData: 8}
	if share != nil {
		g.Slot, g.serial, g.Plan, g.Far = share.Slot, share.serial, share.Plan, share.Far
	} else {
		g.Slot, g.serial = new(int), new(int)
	}
	return g
}

// Path draws a path.
func (g *Gen) Path() string {
	if len(g.Far) > 0 && g.S.Draw(vsim.SOps, 2) > 0 {
		return g.Far[g.S.Draw(vsim.SOps, len(g.Far))]
	}
	if g.Plan != nil && g.S.Chance(vsim.SOps, 0.65) {
		var ps []string
		collect(g.Plan.FS, ".", 0, &ps)
		if len(ps) > 0 {
			p := ps[g.S.Draw(vsim.SOps, len(ps))]
			if g.S.Chance(vsim.SOps, 0.25) {
				p = path.Join(p, g.Names[g.S.Draw(vsim.SOps, len(g.Names))])
			}
			return p
		}
	}
	d := 1
	if g.Depth > 1 {
		w := []int{5, 4, 2, 1}[:min(g.Depth, 4)]
		d = 1 + g.S.Weighted(vsim.SOps, w...)
	}
	c := make([]string, d)
	for i := range c {
		c[i] = g.Names[g.S.Draw(vsim.SOps, len(g.Names))]
	}
	return strings.Join(c, "/")
}

func collect(f FS, p string, depth int, out *[]string) {
	if depth > 4 {
		return
	}
	ents, err := ReadDir(f, p)
	if err != nil {
		return
	}
	for _, e := range ents {
		c := path.Join(p, e.Name())
		*out = append(*out, c)
		if e.IsDir() {
			collect(f, c, depth+1, out)
		}
	}
}

// Bytes draws data that is unique in the run, so that a mixture is visible.
func (g *Gen) Bytes() string {
	*g.serial++
	n := 1 + g.S.Draw(vsim.SOps, g.MaxData)
	c := byte('A' + *g.serial%50)
	return strings.Repeat(string(c), n)
}

// Next draws an operation.
func (g *Gen) Next() Op {
	op := g.next()
	if g.Plan != nil && op.View == 0 {
		g.Plan.Do(op)
	}
	return op
}

func (g *Gen) next() Op {
	w := make([]int, len(g.Mix))
	for i, k := range g.Mix {
		w[i] = k.W
	}
	op := Op{Kind: g.Mix[g.S.Weighted(vsim.SOps, w...)].Kind}
	if g.Views > 0 && g.S.Chance(vsim.SOps, 0.3) {
		op.View = 1 + g.S.Draw(vsim.SOps, g.Views)
	}
	s := g.S
	pickH := func() bool {
		if len(g.Mine) == 0 {
			return false
		}
		op.H = g.Mine[s.Draw(vsim.SOps, len(g.Mine))]
		return true
	}
	switch op.Kind {
	case "mkdir", "mkdirall", "chmod":
		op.A = g.Path()
		op.Perm = g.Perms[s.Draw(vsim.SOps, len(g.Perms))]
	case "rename", "link":
		op.A, op.B = g.Path(), g.Path()
	case "symlink":
		op.A, op.B = g.Links[s.Draw(vsim.SOps, len(g.Links))], g.Path()
	case "chtimes":
		op.A = g.Path()
		op.Time = int64(1000 + s.Draw(vsim.SOps, 1000))
	case "list":
		op.A = g.Path()
		if s.Chance(vsim.SOps, 0.3) {
			op.A = "."
		}
	case "writefile", "appendfile":
		op.A = g.Path()
		op.Data = g.Bytes()
	case "dirprobe":
		op.A, op.B = g.Path(), g.Names[s.Draw(vsim.SOps, len(g.Names))]
		if s.Draw(vsim.SOps, 4) == 0 {
			op.A = "."
		}
		op.Perm = [...]fs.FileMode{0o755, 0o700, 0o750}[s.Draw(vsim.SOps, 3)]
		for n := 2 + s.Draw(vsim.SOps, 6); n > 0; n-- {
			op.Data += string("12rsfcwdmyxx"[s.Draw(vsim.SOps, 12)])
		}
	case "closeprobe":
		op.A = g.Path()
		op.Flag = [...]int{os.O_RDWR, os.O_RDONLY, os.O_WRONLY}[s.Draw(vsim.SOps, 3)]
	case "setowner", "setlowner":
		op.A = g.Path()
		op.N, op.Off = 70+s.Draw(vsim.SOps, 3), int64(80+s.Draw(vsim.SOps, 3))
	case "fsetowner":
		if !pickH() {
			return g.fallback()
		}
		op.N, op.Off = 70+s.Draw(vsim.SOps, 3), int64(80+s.Draw(vsim.SOps, 3))
	case "createwrite":
		op.A = g.Path()
		op.Data = g.Bytes()
	case "listpieces":
		op.A = g.Path()
		op.N = 1 + s.Draw(vsim.SOps, 3)
		op.Off = int64(s.Draw(vsim.SOps, 3))
	case "open":
		op.A = g.Path()
		op.Flag = g.Flags[s.Draw(vsim.SOps, len(g.Flags))]
		op.Perm = 0o644
		if len(g.FilePerms) > 0 {
			op.Perm = g.FilePerms[s.Draw(vsim.SOps, len(g.FilePerms))]
		}
		switch {
		case op.Flag == os.O_RDONLY && s.Draw(vsim.SOps, 3) == 0:
			op.Perm = 0 // Open
		case op.Flag == os.O_RDWR|os.O_CREATE|os.O_TRUNC && s.Draw(vsim.SOps, 2) == 0:
			op.Perm = 0o666 // Create
		}
		*g.Slot++
		op.H = *g.Slot
		g.Mine = append(g.Mine, op.H)
	case "read", "readfull":
		if !pickH() {
			return g.fallback()
		}
		op.N = 1 + s.Draw(vsim.SOps, 12)
	case "readat":
		if !pickH() {
			return g.fallback()
		}
		op.N = 1 + s.Draw(vsim.SOps, 12)
		op.Off = int64(s.Draw(vsim.SOps, 16))
	case "write":
		if !pickH() {
			return g.fallback()
		}
		op.Data = g.Bytes()
		if s.Draw(vsim.SOps, 4) == 0 {
			op.N = 1
		}
	case "writeat":
		if !pickH() {
			return g.fallback()
		}
		op.Data = g.Bytes()
		op.Off = int64(s.Draw(vsim.SOps, 12))
	case "truncate":
		if !pickH() {
			return g.fallback()
		}
		op.Off = int64(s.Draw(vsim.SOps, 12))
	case "seek":
		if !pickH() {
			return g.fallback()
		}
		op.N = s.Draw(vsim.SOps, 3)
		op.Off = int64(s.Draw(vsim.SOps, 10))
		if op.N == 2 {
			op.Off = -op.Off
		}
		if op.N == 1 {
			op.Off -= 4
		}
	case "close", "fstat", "sync":
		if !pickH() {
			return g.fallback()
		}
	case "fchmod":
		if !pickH() {
			return g.fallback()
		}
		op.Perm = g.Perms[s.Draw(vsim.SOps, len(g.Perms))]
	case "readdir":
		if !pickH() {
			return g.fallback()
		}
		op.N = -1
		if !g.WholeDirs && s.Chance(vsim.SOps, 0.3) {
			op.N = 1 + s.Draw(vsim.SOps, 2)
		}
	default:
		op.A = g.Path()
	}
	return op
}

func (g *Gen) fallback() Op { return Op{Kind: "lstat", A: g.Path()} }

// SelfMix exercises everything.
var SelfMix = []KW{{"lstat", 3}, {"stat", 3}, {"mkdir", 5}, {"mkdirall", 3}, {"remove", 4}, {"removeall", 2}, {"rename", 6}, {"link", 3},
	{"symlink", 3}, {"readlink", 2}, {"chmod", 3}, {"open", 8}, {"close", 3}, {"read", 3}, {"readat", 3}, {"write", 5}, {"writeat", 3},
	{"truncate", 2}, {"seek", 2}, {"fstat", 2}, {"readdir", 2}, {"list", 3}, {"readfile", 3}, {"writefile", 5}, {"dump", 1}, {"fchmod", 1}}
