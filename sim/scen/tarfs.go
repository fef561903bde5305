package scen

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/tarfs"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// ---- building archives

// tarMember is one entry as written.
type tarMember struct {
	name       string
	typ        byte
	data       []byte
	link       string
	mode       fs.FileMode
	start, end int // headers start, body ends
	sparse     bool
}

// tarBuf writes an archive, sparse members included.
type tarBuf struct {
	buf     bytes.Buffer
	tw      *tar.Writer
	members []tarMember
	// overlap: entries also lie below files, and replace each other whatever they are
	overlap bool
}

func (b *tarBuf) raw(p []byte) {
	_ = b.tw.Flush()
	b.buf.Write(p)
	if n := b.buf.Len() % 512; n != 0 {
		b.buf.Write(make([]byte, 512-n))
	}
}

// block is one header block.
func tarBlock(name string, typ byte, size int, gnu bool, fill func(b []byte)) []byte {
	b := make([]byte, 512)
	copy(b[0:100], name)
	copy(b[100:], "0000644\x00")
	copy(b[108:], "0000000\x00")
	copy(b[116:], "0000000\x00")
	copy(b[124:], fmt.Sprintf("%011o\x00", size))
	copy(b[136:], fmt.Sprintf("%011o\x00", 1700000000))
	b[156] = typ
	if gnu {
		copy(b[257:], "ustar  \x00")
	} else {
		copy(b[257:], "ustar\x0000")
	}
	if fill != nil {
		fill(b)
	}
	copy(b[148:156], "        ")
	sum := 0
	for _, c := range b {
		sum += int(c)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", sum))
	return b
}

type frag struct{ off, n int }

func paxRecord(k, v string) string {
	body := " " + k + "=" + v + "\n"
	n := len(body)
	for l := n + 1; ; l++ {
		if s := fmt.Sprint(l); len(s)+n == l {
			return s + body
		}
	}
}

// sparse writes a sparse member of the given flavour.
func (b *tarBuf) sparse(name string, kind, size int, data []byte, fr []frag, base256 bool) {
	var compact []byte
	for _, f := range fr {
		compact = append(compact, data[f.off:f.off+f.n]...)
	}
	num := func(n int) string {
		if base256 {
			e := make([]byte, 12)
			e[0] = 0x80
			binary.BigEndian.PutUint64(e[4:], uint64(n))
			return string(e)
		}
		return fmt.Sprintf("%011o\x00", n)
	}
	pax := func(recs string) {
		b.raw(tarBlock("PaxHeaders/x", 'x', len(recs), false, nil))
		b.raw([]byte(recs))
	}
	switch kind {
	case 0: // old GNU
		put := func(p []byte, fs []frag) {
			for i, f := range fs {
				copy(p[i*24:], num(f.off))
				copy(p[i*24+12:], num(f.n))
			}
		}
		first := fr[:min(4, len(fr))]
		rest := fr[len(first):]
		b.raw(tarBlock(name, 'S', len(compact), true, func(p []byte) {
			put(p[386:], first)
			if len(rest) > 0 {
				p[482] = 1
			}
			copy(p[483:], num(size))
		}))
		for len(rest) > 0 {
			k := rest[:min(21, len(rest))]
			rest = rest[len(k):]
			e := make([]byte, 512)
			put(e, k)
			if len(rest) > 0 {
				e[504] = 1
			}
			b.raw(e)
		}
	case 1: // PAX 0.0
		var r strings.Builder
		r.WriteString(paxRecord("GNU.sparse.size", fmt.Sprint(size)))
		r.WriteString(paxRecord("GNU.sparse.numblocks", fmt.Sprint(len(fr))))
		for _, f := range fr {
			r.WriteString(paxRecord("GNU.sparse.offset", fmt.Sprint(f.off)))
			r.WriteString(paxRecord("GNU.sparse.numbytes", fmt.Sprint(f.n)))
		}
		pax(r.String())
		b.raw(tarBlock(name, '0', len(compact), false, nil))
	case 2: // PAX 0.1
		var m []string
		for _, f := range fr {
			m = append(m, fmt.Sprint(f.off), fmt.Sprint(f.n))
		}
		pax(paxRecord("GNU.sparse.size", fmt.Sprint(size)) + paxRecord("GNU.sparse.numblocks", fmt.Sprint(len(fr))) +
			paxRecord("GNU.sparse.map", strings.Join(m, ",")) + paxRecord("GNU.sparse.name", name))
		b.raw(tarBlock("GNUSparseFile.0/x", '0', len(compact), false, nil))
	case 3: // PAX 1.0
		m := fmt.Sprintf("%d\n", len(fr))
		for _, f := range fr {
			m += fmt.Sprintf("%d\n%d\n", f.off, f.n)
		}
		m += strings.Repeat("\x00", (512-len(m)%512)%512)
		pax(paxRecord("GNU.sparse.major", "1") + paxRecord("GNU.sparse.minor", "0") + paxRecord("GNU.sparse.name", name) + paxRecord("GNU.sparse.realsize", fmt.Sprint(size)))
		b.raw(tarBlock("GNUSparseFile.0/x", '0', len(m)+len(compact), false, nil))
		b.buf.WriteString(m)
	}
	b.buf.Write(compact)
	end := b.buf.Len()
	b.raw(nil)
	b.members[len(b.members)-1].end = end
}

// genTar draws an archive and what it holds.
func genTar(s *vsim.Sim, implicitDirs bool) *tarBuf {
	b := &tarBuf{}
	b.tw = tar.NewWriter(&b.buf)
	dirs := []string{""}
	var files, all []string
	used := map[string]byte{}
	linked := map[string]bool{}
	names := []string{"a", "b", "c", "a.b", strings.Repeat("long", 30), "..a"}
	n := 1 + s.Draw(vsim.SOps, 9)
	b.overlap = s.Chance(vsim.SCfg, 0.05)
	if s.Chance(vsim.SCfg, 0.2) {
		_ = b.tw.WriteHeader(&tar.Header{Typeflag: tar.TypeDir, Name: "./", Mode: 0o755})
	}
	put := func(m tarMember) {
		h := &tar.Header{Name: m.name, Mode: 0o644, ModTime: time.Unix(1700000000, 0), Linkname: m.link, Size: int64(len(m.data)), Typeflag: tar.TypeReg}
		m.mode, m.start = 0o644, b.flushed()
		if m.typ == 'h' {
			h.Typeflag = tar.TypeLink
		}
		_ = b.tw.WriteHeader(h)
		_, _ = b.tw.Write(m.data)
		m.end = b.buf.Len()
		_ = b.tw.Flush()
		b.members = append(b.members, m)
		used[m.name] = m.typ
		files, all = append(files, m.name), append(all, m.name)
	}
	far := s.Draw(vsim.SOps, 200)
	if far >= 197 {
		s.MaxSteps = max(s.MaxSteps, farSteps)
	}
	if far == 197 {
		// very many in one directory
		for i := range 90 + s.Draw(vsim.SOps, 100) {
			put(tarMember{name: "mn/e" + itoa(i), typ: 'f'})
		}
		used["mn"] = 'd'
	} else if far == 198 {
		// hard links to hard links, below the forty that are followed
		put(tarMember{name: "h0", typ: 'f', data: pattern(77, 300)})
		for i := range 8 + s.Draw(vsim.SOps, 18) {
			put(tarMember{name: "h" + itoa(i+1), typ: 'h', link: "h" + itoa(i)})
			linked["h"+itoa(i)] = true
		}
	} else if far == 199 {
		// many levels down
		d := "dp" + strings.Repeat("/d", 30+s.Draw(vsim.SOps, 30))
		put(tarMember{name: d + "/deep", typ: 'f', data: pattern(78, 300)})
		used[d] = 'd'
		dirs = append(dirs, d)
	}
	for i := 0; i < n; i++ {
		dir := dirs[s.Draw(vsim.SOps, len(dirs))]
		name := path.Join(dir, names[s.Weighted(vsim.SOps, 6, 6, 6, 2, 1, 1)])
		kind := s.Weighted(vsim.SOps, 6, 4, 5, 3, 3, 1, 1, 1, 1)
		isDir := kind == 2
		if b.overlap {
			dirs = append(dirs, name) // whatever it is
		} else if old, ok := used[name]; ok && (old == 'd') != isDir {
			continue // replacing a directory by something else leaves its entries ambiguous
		}
		if linked[name] && kind > 1 && !b.overlap {
			continue // what a hard link to a name that became something else shows is left open
		}
		m := tarMember{name: name, start: b.flushed(), mode: []fs.FileMode{0o644, 0o600, 0o755}[s.Draw(vsim.SOps, 3)]}
		h := &tar.Header{Name: name, Mode: int64(m.mode), ModTime: time.Unix(1700000000+int64(i), 0)}
		h.Format = []tar.Format{tar.FormatUnknown, tar.FormatPAX, tar.FormatGNU}[s.Draw(vsim.SOps, 3)]
		if h.Format == tar.FormatPAX && s.Draw(vsim.SOps, 3) == 0 {
			h.ModTime = h.ModTime.Add(5 * time.Millisecond)
		}
		if s.Draw(vsim.SOps, 4) == 0 {
			h.Name = "./" + h.Name
		}
		switch kind {
		case 0:
			m.typ = 'f'
			m.data = pattern(i+1, []int{0, 1, 10, 511, 512, 513, 1500}[s.Draw(vsim.SOps, 7)])
			h.Typeflag, h.Size = tar.TypeReg, int64(len(m.data))
		case 1:
			m.typ = 'f'
			size := 1 + s.Draw(vsim.SOps, 2000)
			m.data = make([]byte, size)
			var fr []frag
			k := s.Draw(vsim.SOps, 4)
			if s.Draw(vsim.SOps, 4) == 3 {
				k = 4 + s.Draw(vsim.SOps, 25)
			}
			at := s.Draw(vsim.SOps, 2) * s.Draw(vsim.SOps, 100)
			for j := 0; j < k && at < size; j++ {
				l := 1 + s.Draw(vsim.SOps, max(1, size/(k+1)))
				l = min(l, size-at)
				copy(m.data[at:at+l], pattern(i+j+3, l))
				fr = append(fr, frag{at, l})
				at += l + s.Draw(vsim.SOps, 2)*(1+s.Draw(vsim.SOps, 60))
			}
			// neighbouring fragments without a hole are one
			flavour := s.Draw(vsim.SOps, 4)
			if len(name) > 99 {
				flavour = 2 + flavour%2
			}
			// a hole and nothing else needs no entry at all where the map's
			// presence does not depend on one
			if s.Draw(vsim.SOps, 2) == 1 || len(fr) == 0 && flavour != 0 && flavour != 3 {
				fr = append(fr, frag{size, 0})
			}
			b.members = append(b.members, m)
			b.members[len(b.members)-1].mode = 0o644
			b.members[len(b.members)-1].sparse = true
			b.sparse(name, flavour, size, m.data, fr, s.Draw(vsim.SOps, 3) == 2)
			used[name] = 'f'
			files, all = append(files, name), append(all, name)
			continue
		case 2:
			m.typ = 'd'
			h.Typeflag = tar.TypeDir
			h.Name += "/"
			if used[name] == 0 {
				dirs = append(dirs, name)
			}
			if implicitDirs && s.Draw(vsim.SOps, 3) == 0 {
				// only its entries mention it
				used[name] = 'd'
				continue
			}
		case 3:
			m.typ = 'l'
			h.Typeflag = tar.TypeSymlink
			up := strings.Repeat("../", strings.Count(name, "/"))
			switch t := s.Draw(vsim.SOps, 6); {
			case t < 3 && len(all) > 0:
				m.link = up + all[s.Draw(vsim.SOps, len(all))]
			case t == 3:
				m.link = up + "."
			case t == 4:
				m.link = names[s.Draw(vsim.SOps, 3)]
			default:
				m.link = []string{"../" + up + "x", "/a", "."}[s.Draw(vsim.SOps, 3)]
			}
			h.Linkname = m.link
		case 4:
			if len(files) == 0 {
				continue
			}
			m.typ = 'h'
			h.Typeflag = tar.TypeLink
			m.link = files[s.Draw(vsim.SOps, len(files))]
			if t := used[m.link]; t != 'f' && t != 'h' {
				continue
			}
			if s.Draw(vsim.SOps, 12) == 11 {
				m.link = name + "/x" // below itself
			}
			linked[m.link] = true
			h.Linkname = m.link
		case 5:
			m.typ = 'p'
			h.Typeflag = tar.TypeFifo
		case 6:
			h = &tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "pax_global_header", PAXRecords: map[string]string{"comment": "x" + strings.Repeat("y", s.Draw(vsim.SOps, 700))}, Format: tar.FormatPAX}
			_ = b.tw.WriteHeader(h)
			continue
		case 7:
			// a type no view shows, with a body of its own
			m.typ = 'c'
			h.Typeflag = tar.TypeCont
			body := pattern(i+1, 1+s.Draw(vsim.SOps, 1500))
			h.Size, h.Format = int64(len(body)), tar.FormatUnknown
			if len(name) > 99 {
				continue
			}
			b.raw(tarBlock(name, '7', len(body), false, nil))
			m.end = b.buf.Len() + len(body)
			b.raw(body)
			b.members = append(b.members, m)
			used[name] = 'c'
			continue
		case 8:
			// a name no view shows
			h.Name = []string{"/a", "../a"}[s.Draw(vsim.SOps, 2)]
			h.Typeflag, h.Size = tar.TypeReg, 3
			_ = b.tw.WriteHeader(h)
			_, _ = b.tw.Write([]byte("abc"))
			_ = b.tw.Flush()
			continue
		}
		if err := b.tw.WriteHeader(h); err != nil {
			s.HarnessFail("tar header: %v", err)
			return b
		}
		_, _ = b.tw.Write(m.data)
		m.end = b.buf.Len()
		_ = b.tw.Flush()
		b.members = append(b.members, m)
		used[name] = m.typ
		if m.typ != 'd' {
			all = append(all, name)
		} else {
			all = append(all, name)
		}
		if m.typ == 'f' || m.typ == 'h' {
			files = append(files, name)
		}
	}
	_ = b.tw.Flush()
	return b
}

// tarSound reports whether archive/tar reads all of b.
func tarSound(b []byte) bool {
	tr := tar.NewReader(bytes.NewReader(b))
	for {
		_, err := tr.Next()
		if err == nil {
			_, err = io.Copy(io.Discard, tr)
		}
		if err == io.EOF {
			return true
		}
		if err != nil {
			return false
		}
	}
}

func (b *tarBuf) flushed() int { _ = b.tw.Flush(); return b.buf.Len() }

// model is the tree the first n bytes of members describe.
func tarModel(members []tarMember, symlinks, dev bool) *simfs.Disk {
	d := simfs.Model("tar").Plain()
	last := map[string]tarMember{}
	for _, m := range members {
		last[m.name] = m
	}
	var content func(m tarMember, depth int) ([]byte, bool)
	content = func(m tarMember, depth int) ([]byte, bool) {
		if m.typ == 'h' {
			t, ok := last[m.link]
			if !ok || depth > 38 {
				return nil, false
			}
			return content(t, depth+1)
		}
		return m.data, m.typ == 'f'
	}
	for _, n := range sortedKeys(last) {
		m := last[n]
		if m.typ == 'c' || m.typ == 'l' && !symlinks || m.typ == 'p' && !dev {
			continue // not shown
		}
		_ = d.MkdirAll(path.Dir(n), 0o755)
		switch m.typ {
		case 'd':
			_ = d.MkdirAll(n, 0o755)
		case 'f':
			_ = fsop.WriteFile(d, n, m.data, 0o644)
		case 'h':
			if b, ok := content(m, 0); ok {
				_ = fsop.WriteFile(d, n, b, 0o644)
			} else {
				_ = fsop.WriteFile(d, n, nil, 0o001) // leads nowhere
			}
		case 'l':
			_ = d.Symlink(m.link, n)
		case 'p':
			_ = fsop.WriteFile(d, n, nil, 0o644)
		}
	}
	return d
}

// ---- the storage below

// tarStore is an io.ReaderAt that fails, comes up short, or shrinks.
type tarStore struct {
	s       *vsim.Sim
	b       []byte
	gap     int
	mean    int
	max     int
	fired   int
	off     bool
	shrinks bool
	limit   int
}

func (t *tarStore) newGap() {
	t.gap = 0
	if t.max > t.fired && t.mean > 0 {
		t.gap = 1 + t.s.Draw(vsim.SFault, 2*t.mean)
	}
}

func (t *tarStore) ReadAt(p []byte, off int64) (int, error) {
	vsim.Yield(vsim.KIO, 0xd8000000)
	end := len(t.b)
	if !t.off {
		if t.limit >= 0 {
			end = min(end, t.limit)
		}
		if t.gap > 0 {
			t.gap--
			if t.gap == 0 {
				t.fired++
				t.newGap()
				if t.shrinks && t.limit < 0 && t.s.Draw(vsim.SFault, 2) == 0 {
					t.limit = t.s.Draw(vsim.SFault, len(t.b)+1)
					t.s.Fault("storage-truncated")
					end = t.limit
				} else {
					n := 0
					if off < int64(end) && t.s.Draw(vsim.SFault, 2) == 0 {
						n = copy(p, t.b[off:end])
						if n > 0 {
							n = t.s.Draw(vsim.SFault, n)
						}
					}
					t.s.Fault("storage-read-error")
					return n, syscall.EIO
				}
			}
		}
	}
	if off >= int64(end) {
		return 0, io.EOF
	}
	n := copy(p, t.b[off:end])
	if n < len(p) || off+int64(n) == int64(end) && t.s.Draw(vsim.SFault, 4) == 1 {
		return n, io.EOF
	}
	return n, nil
}

// ---- the run

func tarRun(s *vsim.Sim) {
	s.Configure()
	arch := genTar(s, true)
	if s.Failed() {
		return
	}
	body := append([]byte{}, arch.buf.Bytes()...)
	full := append(body, make([]byte, 1024)...)
	opt := &tarfs.FsOption{HandleSymlink: s.Chance(vsim.SCfg, 0.7), AllowDev: s.Chance(vsim.SCfg, 0.5), IsRooted: s.Chance(vsim.SCfg, 0.5)}
	st := &tarStore{s: s, b: full, limit: -1}
	members := arch.members
	mustFail, mayFail := false, false
	if s.Chance(vsim.SCfg, 0.3) {
		cut := s.Draw(vsim.SFault, len(full))
		st.b = full[:cut:cut]
		s.Fault("archive-truncated")
		s.Logf("truncated at %d of %d", cut, len(full))
		members = nil
		for _, m := range arch.members {
			if m.end <= cut {
				members = append(members, m)
			}
		}
		// a cut inside an entry must be noticed; one between entries is the end
		// of what archive/tar, the format's reference here, reads without error
		mustFail = !tarSound(st.b)
		mayFail = true
	}
	for _, m := range arch.members {
		s.Logf("%c %q %q %d bytes at %d-%d", m.typ, m.name, m.link, len(m.data), m.start, m.end)
	}
	if s.Chance(vsim.SCfg, 0.6) {
		st.mean = []int{2, 6, 20}[s.Draw(vsim.SCfg, 3)]
		st.max = 1 + s.Draw(vsim.SCfg, 4)
		st.shrinks = s.Chance(vsim.SCfg, 0.4)
		st.newGap()
	}
	var fsys *tarfs.Fs
	s.Go("open", func() {
		f, err := tarfs.New(st, opt)
		s.Logf("New -> %v (faults %d)", err, st.fired)
		if err != nil {
			if st.fired == 0 && !mustFail && !mayFail {
				s.Fail("open-fails", "opening a sound archive with nothing failing: %v", err)
			}
			if mustFail || mayFail {
				return
			}
			st.off = true
			f, err = tarfs.New(st, opt)
			st.off = false
			if err != nil {
				s.Fail("open-fails", "opening a sound archive with nothing failing: %v", err)
				return
			}
		} else if mustFail && st.limit < 0 {
			s.Fail("truncation-unnoticed", "the archive ends inside a member and opens all the same")
			return
		}
		fsys = f
	})
	s.Run()
	if s.Failed() || fsys == nil {
		return
	}
	if arch.overlap {
		// which of them it shows is left open; it must show one tree
		st.off = true
		s.Go("judge", func() { tarOneTree(s, fsys) })
		s.Run()
		return
	}
	if st.limit >= 0 && st.limit < len(body) {
		// it shrank while being opened: what it opened as must still be a whole prefix
		var left []tarMember
		inside := false
		for _, m := range members {
			if m.end <= st.limit {
				left = append(left, m)
			} else if m.start < st.limit {
				inside = true
			}
		}
		_ = inside
		// anything between all and that prefix, as the cut came in the middle
		st.off = true
		var got string
		s.Go("judge", func() { got = tarDump(fsys) })
		s.Run()
		if s.Failed() {
			return
		}
		for k := len(members); k >= len(left); k-- {
			if tarModelDump(members[:k], opt) == got {
				st.off = false
				tarUse(s, st, fsys, members[:k], opt)
				return
			}
		}
		s.Fail("tree-differs", "after the storage shrank to %d the archive shows\n%s\nit holds\n%s", st.limit, got, tarModelDump(members, opt))
		return
	}
	st.off = true
	var got string
	s.Go("judge", func() { got = tarDump(fsys) })
	s.Run()
	if s.Failed() {
		return
	}
	if want := tarModelDump(members, opt); got != want {
		s.Fail("tree-differs", "the archive shows\n%s\nit holds\n%s", got, want)
		return
	}
	st.off = false
	tarUse(s, st, fsys, members, opt)
}

// tarOneTree: listings, names and handles of a view agree with each other.
func tarOneTree(s *vsim.Sim, f *tarfs.Fs) {
	var rec func(p string, depth int)
	rec = func(p string, depth int) {
		es, err := fs.ReadDir(f, p)
		if err != nil {
			s.Fail("one-tree", "the directory %q cannot be listed: %v", p, err)
			return
		}
		seen := map[string]bool{}
		for _, e := range es {
			n := path.Join(p, e.Name())
			i, err := f.Lstat(n)
			if err != nil && e.Type() == 0 {
				continue // a hard link to nothing
			}
			if err != nil {
				s.Fail("one-tree", "%q is listed but not there: %v", n, err)
				return
			}
			if seen[e.Name()] || i.Mode() != e.Type()|i.Mode()&^fs.ModeType || i.Name() != e.Name() {
				s.Fail("one-tree", "%q is listed as %v (again: %v), Lstat says %v", n, e, seen[e.Name()], i.Mode())
				return
			}
			seen[e.Name()] = true
			if ei, err := e.Info(); err != nil || ei.Size() != i.Size() || ei.Mode() != i.Mode() || !ei.ModTime().Equal(i.ModTime()) {
				s.Fail("one-tree", "%q is listed with %v, Lstat says %v", n, ei, i)
				return
			}
			if e.IsDir() && depth < 100 {
				rec(n, depth+1)
			}
		}
	}
	rec(".", 0)
}

func tarModelDump(members []tarMember, opt *tarfs.FsOption) string {
	d := tarModel(members, opt.HandleSymlink, opt.AllowDev)
	var out []string
	var rec func(p string)
	rec = func(p string) {
		es, _ := fsop.ReadDir(d, p)
		for _, e := range es {
			n := path.Join(p, e.Name())
			switch {
			case e.IsDir():
				out = append(out, n+"/")
				rec(n)
			case e.Type()&fs.ModeSymlink != 0:
				t, _ := d.ReadLink(n)
				out = append(out, n+" -> "+path.Clean(t))
			default:
				i, _ := d.Lstat(n)
				if i.Mode().Perm() == 0o001 {
					out = append(out, n+" = dangling")
					continue
				}
				b, _ := fsop.ReadFile(d, n)
				out = append(out, n+" = "+simfs.Digest(b))
			}
		}
	}
	rec(".")
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// tarDump is the whole tree an archive view shows.
func tarDump(f *tarfs.Fs) string {
	var out []string
	var rec func(p string)
	rec = func(p string) {
		es, err := fs.ReadDir(f, p)
		if err != nil {
			out = append(out, p+": "+err.Error())
		}
		for _, e := range es {
			n := path.Join(p, e.Name())
			switch {
			case e.IsDir():
				out = append(out, n+"/")
				rec(n)
			case e.Type()&fs.ModeSymlink != 0:
				t, err := f.ReadLink(n)
				if err != nil {
					t = err.Error()
				}
				out = append(out, n+" -> "+t)
			default:
				b, err := fs.ReadFile(f, n)
				switch {
				case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ELOOP), errors.Is(err, syscall.ENOTDIR):
					out = append(out, n+" = dangling")
				case err != nil:
					out = append(out, n+" = "+err.Error())
				default:
					out = append(out, n+" = "+simfs.Digest(b))
				}
			}
		}
	}
	rec(".")
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// arranges reports whether the pieces in some order make up the whole.
func arranges(pieces [][]byte, whole []byte) bool {
	if len(whole) == 0 {
		return len(pieces) == 0
	}
	for i, p := range pieces {
		if bytes.HasPrefix(whole, p) {
			rest := append(append([][]byte{}, pieces[:i]...), pieces[i+1:]...)
			if arranges(rest, whole[len(p):]) {
				return true
			}
		}
	}
	return false
}

// tarSharedLin: several tasks read, seek and ask through the same handles; the
// results must be those of some order of the calls.
func tarSharedLin(s *vsim.Sim, st *tarStore, f *tarfs.Fs, d *simfs.Disk, members []tarMember, paths []string) bool {
	sparse := map[string]bool{} // reads of these may come short at every hole
	for _, m := range members {
		sparse[m.name] = m.sparse
	}
	var regular []string
	for _, p := range paths {
		real, _ := tarWalk(d, ".", p)
		if i, err := d.Lstat(p); err == nil && i.Mode().IsRegular() && i.Mode().Perm() != 0o001 && !sparse[real] &&
			!slices.ContainsFunc(members, func(m tarMember) bool { return m.name == real && m.typ == 'h' }) {
			regular = append(regular, p)
		}
	}
	if len(regular) == 0 {
		return true
	}
	off := st.off
	st.off = true
	defer func() { st.off = off }()
	rw := fsop.NewWorld(vroot.FromIoFs(f, "tar"))
	ms := fsop.NewModelState(d.Clone())
	nh := 1 + s.Draw(vsim.SCfg, 2)
	s.Go("open", func() {
		for h := 1; h <= nh; h++ {
			op := fsop.Op{Kind: "open", A: regular[s.Draw(vsim.SOps, len(regular))], H: h}
			if a, b := rw.Do(op), ms.Do(op); a.Class != "ok" || b.Class != "ok" {
				s.Fail("open-differs", "%s: %s (%v), reference %s", op, a, a.Err, b)
			}
		}
	})
	s.Run()
	if s.Failed() {
		return false
	}
	rec := &recorder{s: s}
	for t := range 2 + s.Draw(vsim.SCfg, 2) {
		var ops []fsop.Op
		for k := 2 + s.Draw(vsim.SOps, 3); k > 0; k-- {
			op := fsop.Op{H: 1 + s.Draw(vsim.SOps, nh)}
			n := []int{3, 40, 700}[s.Draw(vsim.SOps, 3)]
			switch s.Weighted(vsim.SOps, 5, 4, 2) {
			case 0:
				op.Kind, op.N = "read", 1+s.Draw(vsim.SOps, n)
			case 1:
				op.Kind, op.N = "seek", s.Draw(vsim.SOps, 3)
				op.Off = int64(s.Draw(vsim.SOps, n))
				if op.N == io.SeekEnd {
					op.Off = -op.Off
				}
			case 2:
				op.Kind, op.N, op.Off = "readat", 1+s.Draw(vsim.SOps, n), int64(s.Draw(vsim.SOps, n))
			}
			ops = append(ops, op)
		}
		s.Go("l"+itoa(t), func() {
			for _, op := range ops {
				rec.do(t, rw, op)
			}
		})
	}
	init := ms.Clone()
	s.Run()
	if s.Failed() || s.Stuck != "" {
		return false
	}
	acc := func(op fsop.Op, got, want fsop.Result) bool {
		if strings.HasPrefix(op.Kind, "read") && got.Val == want.Val && !strings.HasPrefix(got.Val, "0:") {
			// the end may be reported with the last bytes or after them
			return (got.Class == "ok" || got.Class == "EOF") == (want.Class == "ok" || want.Class == "EOF")
		}
		return sameErr(op, got, want)
	}
	if err := fsop.LinearizeFrom(init, rec.hist, acc, nil); err != nil {
		s.Fail("shared-handle", "%v", err)
		return false
	}
	return true
}

// tarWalk follows name from dir over the model the way paths are followed, and
// tells where it leads and whether it steps up from base on its way.
func tarWalk(d *simfs.Disk, base, name string) (real string, up bool) {
	at := base
	parts := strings.Split(name, "/")
	for hops := 0; len(parts) > 0; {
		c := parts[0]
		parts = parts[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			if at == base || at == "." {
				return at, true
			}
			at = path.Dir(at)
			continue
		}
		next := path.Join(at, c)
		if i, err := d.Lstat(next); err == nil && i.Mode()&fs.ModeSymlink != 0 {
			t, _ := d.ReadLink(next)
			if hops++; hops > 40 {
				return at, false
			}
			if path.IsAbs(t) {
				return at, true
			}
			parts = append(strings.Split(t, "/"), parts...)
			continue
		}
		at = next
	}
	return at, false
}

// tarUse: tasks read the archive through handles of their own and shared ones.
func tarUse(s *vsim.Sim, st *tarStore, f *tarfs.Fs, members []tarMember, opt *tarfs.FsOption) {
	d := tarModel(members, opt.HandleSymlink, opt.AllowDev)
	var paths []string
	var rec func(p string, depth int)
	rec = func(p string, depth int) {
		paths = append(paths, p)
		if depth > 5 || len(paths) > 60 {
			return
		}
		if i, err := d.Stat(p); err == nil && i.IsDir() {
			es, _ := fsop.ReadDir(d, p)
			for _, e := range es {
				rec(path.Join(p, e.Name()), depth+1)
			}
		}
	}
	rec(".", 0)
	for _, m := range members {
		if strings.Count(m.name, "/") > 6 {
			if _, err := d.Lstat(m.name); err == nil {
				paths = append(paths, m.name)
			}
		}
	}
	viaHard := false // hard links show their own header, which has no size
	for _, m := range members {
		viaHard = viaHard || m.typ == 'h'
	}
	type shared struct {
		f    fs.File
		b    []byte
		name string
	}
	var sh []*shared
	// several tasks read one handle to its end: each byte goes to exactly one of them
	if s.Chance(vsim.SCfg, 0.3) {
		var regular []string
		for _, p := range paths {
			if i, err := d.Lstat(p); err == nil && i.Mode().IsRegular() && i.Size() > 0 && i.Mode().Perm() != 0o001 {
				regular = append(regular, p)
			}
		}
		if len(regular) > 0 {
			name := regular[s.Draw(vsim.SOps, len(regular))]
			content, _ := fsop.ReadFile(d, name)
			var pieces [][]byte
			failed := false
			var h fs.File
			s.Go("open", func() {
				var err error
				if h, err = f.Open(name); err != nil {
					s.Fail("open-differs", "Open(%q): %v", name, err)
				}
			})
			s.Run()
			if s.Failed() {
				return
			}
			for t := range 2 + s.Draw(vsim.SCfg, 2) {
				size := 1 + s.Draw(vsim.SCfg, max(1, len(content)))
				s.Go("r"+itoa(t), func() {
					for range 12 {
						p := make([]byte, size)
						fired := st.fired
						n, err := h.Read(p)
						s.Logf("shared read %q, %d -> %d %v", name, size, n, err)
						if n > 0 {
							pieces = append(pieces, p[:n])
						}
						if err == io.EOF {
							return
						}
						if err != nil {
							failed = true
							if st.fired == fired && st.limit < 0 {
								s.Fail("error-from-nowhere", "Read of %q failed with nothing failing: %v", name, err)
							}
							return
						}
					}
					failed = true // did not reach the end
				})
			}
			s.Run()
			if s.Failed() {
				return
			}
			if !failed && !arranges(pieces, content) {
				s.Fail("shared-read", "tasks reading one handle of %q got %q together, the archive holds %q", name, pieces, content)
				return
			}
		}
	} else if s.Chance(vsim.SCfg, 0.15) && !tarSharedLin(s, st, f, d, members, paths) {
		return
	}
	check := func(what, name string, got []byte, err error, want []byte, fired bool, atEnd bool) {
		if !bytes.HasPrefix(want, got) {
			s.Fail("wrong-bytes", "%s of %q gave %q (%v), the archive holds %q there", what, name, got, err, want)
			return
		}
		switch {
		case err == nil:
			if len(got) == 0 && len(want) > 0 {
				s.Fail("no-progress", "%s of %q gave nothing and no error", what, name)
			}
		case errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF):
			if len(got) < len(want) || !atEnd {
				s.Fail("early-end", "%s of %q reports the end of the data %d bytes early", what, name, len(want)-len(got))
			}
		case !fired:
			s.Fail("error-from-nowhere", "%s of %q failed with nothing failing: %v", what, name, err)
		}
	}
	for t := 0; t < 1+s.Draw(vsim.SCfg, 3); t++ {
		s.Go("u"+itoa(t), func() {
			for k := 2 + s.Draw(vsim.SOps, 8); k > 0 && !s.Failed(); k-- {
				vsim.Yield(vsim.KOp, 0xd8000001)
				name := paths[s.Draw(vsim.SOps, len(paths))]
				v, vname := fs.FS(f), name
				base := "."
				for s.Draw(vsim.SOps, 3) == 0 {
					i := strings.IndexByte(vname, '/')
					if i < 0 {
						break
					}
					to, up := tarWalk(d, base, vname[:i])
					sub, err := v.(*tarfs.Fs).Sub(vname[:i])
					if up && opt.IsRooted {
						if !errors.Is(err, fsutil.ErrPathEscapes) {
							s.Fail("escapes", "Sub(%q) of a rooted view of %q gave %v", vname[:i], base, err)
							return
						}
						break
					}
					if err != nil {
						s.Fail("sub", "Sub(%q): %v", vname[:i], err)
						return
					}
					v, vname, base = sub, vname[i+1:], to
				}
				i, serr := d.Stat(name)
				if li, err := d.Lstat(name); err == nil && li.Mode().Perm() == 0o001 || serr == nil && i.Mode().Perm() == 0o001 {
					continue // dangling hard links
				}
				if _, up := tarWalk(d, base, path.Dir(vname)); up && opt.IsRooted {
					if _, err := v.(*tarfs.Fs).Lstat(vname); !errors.Is(err, fsutil.ErrPathEscapes) {
						s.Fail("escapes", "Lstat(%q) in a rooted view of %q gave %v", vname, base, err)
						return
					}
				} else if li, err := v.(*tarfs.Fs).Lstat(vname); err != nil {
					s.Fail("lstat", "Lstat(%q): %v, the archive holds it", name, err)
					return
				} else if mi, merr := d.Lstat(name); merr != nil || li.Mode().Type()&^fs.ModeNamedPipe != mi.Mode().Type() {
					s.Fail("lstat", "Lstat(%q) says %v, the archive holds %v (%v)", name, li.Mode(), mi, merr)
					return
				}
				if _, err := v.Open(path.Join(vname, "nope")); err == nil {
					s.Fail("open-differs", "%q opens, the archive does not hold it", path.Join(name, "nope"))
					return
				}
				h, err := v.Open(vname)
				s.Logf("open %q (%q) -> %v", name, vname, err)
				if _, up := tarWalk(d, base, vname); up && opt.IsRooted {
					if !errors.Is(err, fsutil.ErrPathEscapes) {
						s.Fail("escapes", "Open(%q) in a rooted view of %q gave %v", vname, base, err)
						return
					}
					continue
				}
				if (err == nil) != (serr == nil) {
					s.Fail("open-differs", "Open(%q) gave %v, a file system with that content gives %v", name, err, serr)
					return
				}
				if err != nil {
					continue
				}
				if i.IsDir() {
					es, _ := fsop.ReadDir(d, name)
					var want, got []string
					for _, e := range es {
						want = append(want, e.Name())
					}
					rd, ok := h.(fs.ReadDirFile)
					if !ok {
						s.Fail("open-differs", "%q is a directory and opens as something else", name)
						return
					}
					for {
						n := s.Draw(vsim.SOps, 4)
						l, err := rd.ReadDir(n)
						if n == 0 && err == nil {
							err = io.EOF // all that was left
						}
						for _, e := range l {
							got = append(got, e.Name())
						}
						if err == io.EOF {
							break
						}
						if err != nil || len(l) == 0 {
							s.Fail("listing", "ReadDir of %q: %v", name, err)
							return
						}
					}
					sort.Strings(got)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						s.Fail("listing", "%q lists %q, the archive holds %q", name, got, want)
						return
					}
					if sk, ok := h.(io.Seeker); ok && s.Draw(vsim.SOps, 3) == 0 {
						// rewound, it lists all of it once more
						_, err := sk.Seek(0, io.SeekStart)
						l, err2 := rd.ReadDir(-1)
						if err != nil || err2 != nil || len(l) != len(want) {
							s.Fail("listing", "%q rewound (%v) lists %d of %d entries, %v", name, err, len(l), len(want), err2)
							return
						}
					}
					if st, err := h.Stat(); err != nil || !st.IsDir() {
						s.Fail("stat", "Stat of the open directory %q: %v %v", name, st, err)
						return
					}
					_ = h.Close()
					switch c4(s) {
					case 0:
						_, err = rd.ReadDir(s.Draw(vsim.SOps, 3))
					case 1:
						_, err = h.Read(make([]byte, 1))
					default:
						_, err = h.Stat()
					}
					if !errors.Is(err, fs.ErrClosed) {
						s.Fail("closed-answers", "a closed handle of the directory %q answers: %v", name, err)
						return
					}
					continue
				}
				content, _ := fsop.ReadFile(d, name)
				ra, _ := h.(io.ReaderAt)
				sk, _ := h.(io.Seeker)
				if ra == nil || sk == nil {
					s.Fail("open-differs", "%q opens as %T", name, h)
					return
				}
				if s.Draw(vsim.SOps, 3) == 0 {
					sh = append(sh, &shared{h, content, name})
				}
				if fi, err := h.Stat(); err != nil || fi.IsDir() || !viaHard && fi.Size() != int64(len(content)) {
					s.Fail("stat", "Stat of the open %q of %d bytes: %v %v", name, len(content), fi, err)
					return
				}
				pos := 0
				for q := 1 + s.Draw(vsim.SOps, 8); q > 0 && !s.Failed(); q-- {
					fired := st.fired
					p := make([]byte, 1+s.Draw(vsim.SOps, []int{3, 40, 600, 2500}[s.Draw(vsim.SOps, 4)]))
					switch s.Draw(vsim.SOps, 4) {
					case 0, 1:
						n, err := h.Read(p)
						s.Logf("read %q at %d, %d -> %d %v", name, pos, len(p), n, err)
						check("Read", name, p[:n], err, content[pos:min(len(content), pos+len(p))], st.fired > fired || st.limit >= 0, pos+n >= len(content))
						pos += n
					case 2:
						to := s.Draw(vsim.SOps, len(content)+1)
						wh := s.Draw(vsim.SOps, 3)
						off := int64(to - []int{0, pos, len(content)}[wh])
						pos = to
						if n, err := sk.Seek(off, wh); err != nil || n != int64(pos) {
							s.Fail("seek", "Seek of %q by %d from %d to %d gave %d, %v", name, off, wh, pos, n, err)
							return
						}
					case 3:
						o := sh
						off := s.Draw(vsim.SOps, len(content)+3)
						r, want, what, viaShared := ra, content, name, false
						if len(o) > 0 && s.Draw(vsim.SOps, 2) == 0 {
							x := o[s.Draw(vsim.SOps, len(o))]
							r, want, what, viaShared = x.f.(io.ReaderAt), x.b, x.name, true
							off = s.Draw(vsim.SOps, len(want)+3)
						}
						n, err := r.ReadAt(p, int64(off))
						s.Logf("readat %q at %d, %d -> %d %v", what, off, len(p), n, err)
						w := want[min(off, len(want)):min(len(want), off+len(p))]
						if errors.Is(err, fs.ErrClosed) && viaShared {
							continue // its owner closed it
						}
						check("ReadAt", what, p[:n], err, w, st.fired > fired || st.limit >= 0, off+n >= len(want))
						if err == nil && n < len(p) {
							s.Fail("short-readat", "ReadAt of %q gave %d of %d bytes and no error", what, n, len(p))
						}
					}
				}
				if s.Draw(vsim.SOps, 2) == 0 {
					_ = h.Close()
					if what, err := []string{"Read", "ReadAt", "Seek", "Stat"}[c4(s)], error(nil); true {
						switch what {
						case "Read":
							_, err = h.Read(make([]byte, 1))
						case "ReadAt":
							_, err = ra.ReadAt(make([]byte, 1), 0)
						case "Seek":
							_, err = sk.Seek(0, io.SeekStart)
						case "Stat":
							_, err = h.Stat()
						}
						if !errors.Is(err, fs.ErrClosed) {
							s.Fail("closed-answers", "%s of a closed handle of %q: %v", what, name, err)
							return
						}
					}
				}
			}
		})
	}
	s.Run()
}

func c4(s *vsim.Sim) int { return s.Draw(vsim.SOps, 4) }

var tarFaults = &Scenario{Name: "tarfs", Run: tarRun,
	Doc: "archives drawn from all header formats, with long names, implied directories, links, repeated members, global headers and the four sparse formats, over storage that fails, comes short, is truncated or shrinks; opening must fail or show exactly the archived tree; then 1-3 tasks read through their own and shared handles, sequentially, at offsets, after seeks"}

func init() {
	register(&Check{Property: "P26", Quick: 500000, Thorough: 20000000, Parts: []Part{{tarFaults, 1}},
		Real: []string{"tarfs", "stream (multi reader, byte repeater)", "archive/tar"},
		Stub: []string{"the storage the archive lies on", "sync"}})
}
