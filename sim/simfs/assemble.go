package simfs

import (
	"errors"
	"io/fs"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// External is file content that lives outside the tree it is shown in.
type External struct {
	Name string
	// Get is the content as it is now.
	Get func() ([]byte, error)
}

func (n *inode) bytes() []byte {
	if n.ext == nil {
		return n.data
	}
	b, _ := n.ext.Get()
	return b
}

// Incoming is an entry, with all below it, on its way into a tree.
type Incoming struct {
	Name     string
	Mode     fs.FileMode // type and permissions
	Size     int64
	Mtime    time.Time
	Link     string
	Ext      *External
	Children []*Incoming
	// Err: the entry cannot be looked at.
	Err error
}

// Decision is what a merge rule says.
type Decision int

// The decisions.
const (
	Skip Decision = iota
	Keep
	Override
)

// Attr is what a merge rule sees of an entry.
type Attr struct {
	Mode fs.FileMode
	Size int64
}

// Rule decides about an entry that is to land at p.
type Rule func(p string, in Attr, existing *Attr) (Decision, error)

// ErrCut stops an addition part of the way.
var ErrCut = errors.New("simfs: cut")

type adder struct {
	d    *Disk
	rule Rule
	left int // entries until the cut, negative: never
}

// Add is the reference for assembling trees: it places in at name, by rule.
// whole says in is a file system, whose root may be merged with ".". left, if
// not negative, cuts the addition after so many entries.
func (d *Disk) Add(name string, in *Incoming, whole bool, rule Rule, left int) error {
	a := &adder{d, rule, left}
	if path.IsAbs(name) {
		return vroot.ErrPathEscapes
	}
	p := path.Clean(name)
	if p == ".." || strings.HasPrefix(p, "../") {
		return vroot.ErrPathEscapes
	}
	if d.root.removed {
		return syscall.ENOENT
	}
	if p == "." {
		if !whole {
			return syscall.EINVAL
		}
		return a.below(d.root, ".", in)
	}
	at := d.root
	dir, base := path.Split(p)
	dir = strings.TrimSuffix(dir, "/")
	for i := 0; i < len(dir); {
		j := strings.IndexByte(dir[i:], '/')
		if j < 0 {
			j = len(dir)
		} else {
			j += i
		}
		r, err := d.walk(dir[:j], true)
		if err != nil {
			return err
		}
		if r.node == nil {
			r, err = d.walk(dir[:j], false)
			if err != nil {
				return err
			}
			if r.node != nil {
				return syscall.ENOENT // a link to nothing
			}
			n := d.newInode(true, 0o755&^d.umask)
			n.parent = r.parent
			r.parent.children[r.base] = n
			r.node = n
		}
		if !r.node.dir {
			return syscall.ENOTDIR
		}
		at = r.node
		i = j + 1
	}
	return a.entry(at, base, p, in)
}

func (a *adder) below(at *inode, p string, in *Incoming) error {
	if in.Err != nil {
		return in.Err
	}
	for _, c := range in.Children {
		if err := a.entry(at, c.Name, path.Join(p, c.Name), c); err != nil {
			return err
		}
	}
	return nil
}

func (a *adder) entry(at *inode, base, p string, in *Incoming) error {
	if a.left == 0 {
		return ErrCut
	}
	a.left--
	if in.Err != nil {
		return in.Err
	}
	old := at.children[base]
	var ex *Attr
	if old != nil {
		i := old.info(base)
		ex = &Attr{i.mode, i.size}
		if old.ext != nil {
			if _, err := old.ext.Get(); err != nil {
				ex.Size = -1
			}
		}
	}
	dec, err := a.rule(p, Attr{in.Mode, in.Size}, ex)
	if err != nil {
		return err
	}
	if dec == Skip {
		return nil
	}
	if dec == Keep && !(in.Mode.IsDir() && (old == nil || old.dir)) {
		return nil // what is there stays, also when it is nothing
	}
	if in.Mode.IsDir() && old != nil && dec == Keep {
		return a.below(old, p, in)
	}
	if old != nil {
		delete(at.children, base)
		old.drop()
	}
	n := a.d.newInode(in.Mode.IsDir(), in.Mode.Perm())
	n.parent = at
	n.link, n.isLink = in.Link, in.Mode&fs.ModeSymlink != 0
	n.ext = in.Ext
	if !in.Mode.IsDir() {
		n.stamp = in.Mtime
	}
	at.children[base] = n
	if in.Mode.IsDir() {
		return a.below(n, p, in)
	}
	return nil
}

// Names counts the names each external content has, and the files with content
// of their own.
func (d *Disk) Names() (ext map[*External]int, own int) {
	ext = map[*External]int{}
	seen := map[*inode]bool{}
	var walk func(n *inode)
	walk = func(n *inode) {
		switch {
		case n.dir:
			for _, k := range n.names() {
				walk(n.children[k])
			}
		case n.ext != nil:
			ext[n.ext]++
		case !n.isLink && !seen[n]:
			seen[n] = true
			own++
		}
	}
	walk(d.root)
	return ext, own
}

// Stamp is a time given to a file or link: by Chtimes, or by what it comes from.
type Stamp struct {
	Path string
	Time time.Time
}

// Stamps are those of all files and links that were not written since.
func (d *Disk) Stamps() (out []Stamp) {
	var walk func(n *inode, p string)
	walk = func(n *inode, p string) {
		if n.dir {
			for _, k := range n.names() {
				walk(n.children[k], path.Join(p, k))
			}
		} else if !n.stamp.IsZero() {
			out = append(out, Stamp{p, n.stamp})
		}
	}
	walk(d.root, ".")
	return out
}
