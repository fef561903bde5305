package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"github.com/ngicks/go-fsys-helper/stream"
	"verif.local/sim/vsim"
)

// segment is one simulated source of a concatenation, random access.
type segment struct {
	s        *vsim.Sim
	id       int
	data     []byte
	declared int64
	// failMean >0: a read fails with that probability, after a prefix.
	fail  float64
	early float64
	// eofWith reports the end together with the last bytes.
	eofWith  bool
	fired    int
	closed   int
	closeErr error
	maxFail  int
}

func (g *segment) ReadAt(p []byte, off int64) (int, error) {
	vsim.Yield(vsim.KIO, 0xd3000000)
	if g.closed > 0 {
		return 0, errors.New("read after close")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if off >= int64(len(g.data)) {
		return 0, io.EOF
	}
	n := copy(p, g.data[off:])
	if g.maxFail > 0 && g.s.Chance(vsim.SFault, g.fail) {
		g.maxFail--
		g.fired++
		g.s.Fault("source-read-error")
		k := g.s.Draw(vsim.SFault, n+1)
		clear(p[k:n])
		return k, sourceErr(g.s)
	}
	if g.maxFail > 0 && g.s.Chance(vsim.SFault, g.early) {
		g.maxFail--
		g.fired++
		g.s.Fault("source-early-eof")
		k := g.s.Draw(vsim.SFault, n+1)
		clear(p[k:n])
		return k, io.EOF
	}
	if n < len(p) {
		return n, io.EOF
	}
	if g.eofWith && off+int64(n) == int64(len(g.data)) {
		return n, io.EOF
	}
	return n, nil
}

type closableSegment struct{ *segment }

func (c closableSegment) Close() error {
	vsim.Yield(vsim.KIO, 0xd3000001)
	c.closed++
	return c.closeErr
}

// concat is the reference: what the concatenation holds.
type concat struct {
	segs  []*segment
	total int64
}

// at returns the byte at a position and whether there is one.
func (c *concat) at(pos int64) (byte, bool) {
	for _, g := range c.segs {
		if pos < g.declared {
			if pos < int64(len(g.data)) {
				return g.data[pos], true
			}
			return 0, false
		}
		pos -= g.declared
	}
	return 0, false
}

// overrun reports whether a failed read ran past the declared end of an
// oversized source.
func (c *concat) overrun(off int64, n int, err error) (int, bool) {
	if err == nil || err == io.EOF {
		return 0, false
	}
	var e int64
	for _, g := range c.segs {
		e += g.declared
		if off < e && e < off+int64(n) && int64(len(g.data)) > g.declared {
			return int(e - off), true
		}
	}
	return 0, false
}

// judge checks one read of the concatenation.
func (c *concat) judge(s *vsim.Sim, what string, off int64, want int, p []byte, n int, err error, faulty bool, full bool) bool {
	if n < 0 || n > len(p) {
		s.Fail("bad-count", "%s at %d: n=%d of %d", what, off, n, len(p))
		return false
	}
	limit := n
	cut, over := c.overrun(off, n, err)
	if over {
		// bytes past the declared end of an oversized source are not claimed
		limit = cut
	}
	for i := 0; i < limit; i++ {
		b, ok := c.at(off + int64(i))
		if !ok {
			s.Fail("bytes-from-nowhere", "%s at %d (n=%d, err=%v): position %d has no source byte", what, off, n, err, off+int64(i))
			return false
		}
		if b != p[i] {
			s.Fail("wrong-bytes", "%s at %d (n=%d, err=%v): byte at %d is %q, the concatenation has %q", what, off, n, err, off+int64(i), p[i], b)
			return false
		}
	}
	if over {
		return true
	}
	end := off+int64(n) >= c.total
	switch {
	case err == io.EOF && !end:
		s.Fail("clean-end-too-early", "%s at %d: end of data after %d bytes, the concatenation has %d", what, off, n, c.total-off)
		return false
	case err == nil && full && n < want:
		s.Fail("short-without-error", "%s at %d: %d of %d bytes and no error", what, off, n, want)
		return false
	case err != nil && err != io.EOF && !faulty:
		s.Fail("spurious-error", "%s at %d: %v although every source is in order", what, off, err)
		return false
	case err == nil && !full && n == 0 && want > 0 && !faulty:
		s.Fail("no-bytes", "%s at %d: neither bytes nor an error", what, off)
		return false
	}
	return true
}

func buildConcat(s *vsim.Sim) *concat {
	c := &concat{}
	n := 1 + s.Draw(vsim.SOps, 5)
	if s.Chance(vsim.SOps, 0.1) {
		n = 33 + s.Draw(vsim.SOps, 6)
	}
	if s.Chance(vsim.SOps, 0.03) {
		n = 0
	}
	faulty := s.Chance(vsim.SCfg, 0.6)
	for i := 0; i < n; i++ {
		size := s.Draw(vsim.SOps, 9)
		g := &segment{s: s, id: i, data: pattern(i, size), declared: int64(size), eofWith: s.Chance(vsim.SOps, 0.5)}
		if faulty {
			if s.Chance(vsim.SOps, 0.3) {
				g.fail, g.maxFail = 0.3, 2
			}
			if s.Chance(vsim.SOps, 0.2) {
				g.early, g.maxFail = 0.3, 2
			}
			if s.Chance(vsim.SOps, 0.12) {
				d := int64(1 + s.Draw(vsim.SOps, 4))
				if s.Chance(vsim.SOps, 0.5) {
					g.declared += d
					s.Fault("source-shorter-than-declared")
				} else if g.declared > d {
					g.declared -= d
					s.Fault("source-longer-than-declared")
				}
			}
		}
		if s.Chance(vsim.SOps, 0.15) {
			g.closeErr = closingErr(s, i)
		}
		c.segs = append(c.segs, g)
		c.total += g.declared
	}
	return c
}

func (c *concat) fired() int {
	n := 0
	for _, g := range c.segs {
		n += g.fired
		if g.declared != int64(len(g.data)) {
			n++
		}
	}
	return n
}

// oversized reports whether any source is longer than declared.
func (c *concat) oversized() bool {
	for _, g := range c.segs {
		if g.declared < int64(len(g.data)) {
			return true
		}
	}
	return false
}

// misSized reports whether any source's size is declared wrongly.
func (c *concat) misSized() bool {
	for _, g := range c.segs {
		if g.declared != int64(len(g.data)) {
			return true
		}
	}
	return false
}

// concatReads: sequential reads with seeks on one task, positioned reads on
// others, then close.
var concatReads = &Scenario{
	Name: "concat-reads",
	Doc:  "a concatenation of 0-38 sources with wrong sizes, early ends and failing reads, read sequentially with seeks by one task and at offsets by up to two others; every result against the reference concatenation; then closed",
	Run: func(s *vsim.Sim) {
		s.Configure()
		c := buildConcat(s)
		var rs []stream.SizedReaderAt
		closable := make([]bool, len(c.segs))
		for i, g := range c.segs {
			var r io.ReaderAt = g
			if s.Chance(vsim.SOps, 0.6) {
				r = closableSegment{g}
				closable[i] = true
			}
			rs = append(rs, stream.SizedReaderAt{R: r, Size: g.declared})
		}
		m := stream.NewMultiReadAtSeekCloser(rs)
		nat := s.Draw(vsim.SOps, 3)
		s.Go("seq", func() {
			var pos int64
			idle := 0
			for k := 4 + s.Draw(vsim.SOps, 14); k > 0 && !s.Failed(); k-- {
				vsim.Yield(vsim.KOp, 1)
				if s.Chance(vsim.SOps, 0.3) {
					wh := s.Draw(vsim.SOps, 3)
					target := int64(s.Draw(vsim.SOps, int(c.total)+4)) - 1
					var arg int64
					switch wh {
					case io.SeekStart:
						arg = target
					case io.SeekCurrent:
						arg = target - pos
					case io.SeekEnd:
						arg = target - c.total
					}
					got, err := m.Seek(arg, wh)
					s.Logf("seek(%d,%d) -> %d %v", arg, wh, got, err)
					if target < 0 {
						if err == nil {
							s.Fail("bad-seek", "seek to %d succeeded", target)
						}
						continue
					}
					if err != nil || got != target {
						s.Fail("bad-seek", "seek to %d (whence %d) -> %d, %v", target, wh, got, err)
						return
					}
					pos = target
					continue
				}
				p := make([]byte, s.Draw(vsim.SOps, 14))
				before := c.fired()
				n, err := m.Read(p)
				s.Logf("read(%d)@%d -> %d %v", len(p), pos, n, err)
				bad := c.fired() > before || c.misSized()
				if !c.judge(s, "Read", pos, len(p), p, n, err, bad || before > 0, false) {
					return
				}
				if err == nil && n == 0 && len(p) > 0 {
					if idle++; idle > 50 {
						s.Fail("no-progress", "50 reads in a row at %d return neither bytes nor an error", pos)
						return
					}
				} else {
					idle = 0
				}
				if _, over := c.overrun(pos, n, err); over {
					// where the position is after a mis-sized source is not claimed
					pos = 0
					if _, err := m.Seek(0, io.SeekStart); err != nil {
						s.Fail("bad-seek", "%v", err)
						return
					}
					continue
				}
				pos += int64(n)
			}
		})
		for t := 0; t < nat; t++ {
			s.Go("at"+itoa(t), func() {
				for k := 2 + s.Draw(vsim.SOps, 6); k > 0 && !s.Failed(); k-- {
					vsim.Yield(vsim.KOp, 2)
					off := int64(s.Draw(vsim.SOps, int(c.total)+3))
					p := make([]byte, s.Draw(vsim.SOps, 24))
					before := c.fired()
					n, err := m.ReadAt(p, off)
					s.Logf("readAt(%d)@%d -> %d %v", len(p), off, n, err)
					bad := c.fired() > before || c.misSized() || before > 0
					if !c.judge(s, "ReadAt", off, len(p), p, n, err, bad, true) {
						return
					}
				}
			})
		}
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		s.State(fmt.Sprint(len(c.segs), c.fired() > 0))
		s.Enter()
		err := m.Close()
		s.Leave()
		for i, g := range c.segs {
			if closable[i] && g.closed != 1 {
				s.Fail("not-closed-once", "source %d closed %d times", i, g.closed)
				return
			}
			if closable[i] && g.closeErr != nil && !errors.Is(err, g.closeErr) {
				s.Fail("close-error-lost", "source %d: %v not in %v", i, g.closeErr, err)
				return
			}
		}
		any := false
		for i, g := range c.segs {
			any = any || closable[i] && g.closeErr != nil
		}
		if err != nil && !any {
			s.Fail("spurious-error", "Close: %v", err)
		}
	},
}

// statSegment states its size itself, or fails to.
type statSegment struct {
	*segment
	err error
}

func (f *statSegment) Stat() (fs.FileInfo, error) {
	if f.err != nil {
		return nil, f.err
	}
	return segInfo{f.declared}, nil
}

type segInfo struct{ n int64 }

func (i segInfo) Name() string       { return "segment" }
func (i segInfo) Size() int64        { return i.n }
func (i segInfo) Mode() fs.FileMode  { return 0o644 }
func (i segInfo) ModTime() time.Time { return time.Time{} }
func (i segInfo) IsDir() bool        { return false }
func (i segInfo) Sys() any           { return nil }

// concatDrain: the whole concatenation read front to back through the usual
// drivers, retrying after errors.
var concatDrain = &Scenario{
	Name: "concat-drain",
	Doc:  "a concatenation copied front to back, going on after each error; the bytes collected must be the concatenation, and a clean end must mean all of it was delivered",
	Run: func(s *vsim.Sim) {
		s.Configure()
		c := buildConcat(s)
		var rs []stream.SizedReaderAt
		for _, g := range c.segs {
			rs = append(rs, stream.SizedReaderAt{R: g, Size: g.declared})
		}
		if s.Chance(vsim.SCfg, 0.3) {
			// sizes as the files state them
			var fl []*statSegment
			var bad error
			for _, g := range c.segs {
				f := &statSegment{segment: g}
				if bad == nil && s.Draw(vsim.SFault, 40) == 39 {
					bad = errors.New("injected: stat fails")
					f.err = bad
					s.Fault("stat-fails")
				}
				fl = append(fl, f)
			}
			l, err := stream.SizedReadersFromFileLike(fl)
			if (err == nil) != (bad == nil) || bad != nil && !errors.Is(err, bad) {
				s.Fail("sizes", "sizes of files, where stat gives %v: %v", bad, err)
				return
			}
			if err != nil {
				return
			}
			rs = l
		}
		m := stream.NewMultiReadAtSeekCloser(rs)
		s.Go("drain", func() {
			var out []byte
			for try := 0; try < 60; try++ {
				var b []byte
				var err error
				if s.Chance(vsim.SOps, 0.5) {
					b, err = io.ReadAll(m)
				} else {
					var w bytes.Buffer
					_, err = io.CopyBuffer(struct{ io.Writer }{&w}, struct{ io.Reader }{m}, make([]byte, 1+s.Draw(vsim.SOps, 12)))
					b = w.Bytes()
				}
				s.Logf("drain %d -> %d bytes, %v", try, len(b), err)
				if errors.Is(err, stream.ErrInvalidSize) || err != nil && c.oversized() {
					return
				}
				for i, x := range b {
					y, ok := c.at(int64(len(out) + i))
					if !ok || x != y {
						s.Fail("wrong-bytes", "drained byte %d is %q, the concatenation has %q (%v)", len(out)+i, x, y, ok)
						return
					}
				}
				out = append(out, b...)
				if err == nil {
					if int64(len(out)) != c.total {
						s.Fail("clean-end-too-early", "clean end after %d of %d bytes", len(out), c.total)
					}
					return
				}
				if c.fired() == 0 {
					s.Fail("spurious-error", "%v although every source is in order", err)
					return
				}
			}
			if !c.misSized() {
				s.Fail("no-progress", "60 attempts did not reach the end")
			}
		})
		s.Run()
	},
}

// concatStreams: the sequential concatenation.
var concatStreams = &Scenario{
	Name: "concat-streams",
	Doc:  "sequential readers concatenated, with short reads and failures; bytes and the first error against the reference, every source closed once and close errors reported",
	Run: func(s *vsim.Sim) {
		s.Configure()
		n := s.Draw(vsim.SOps, 6)
		var rs []*flakyReader
		var want []byte
		failed := false
		var failure error
		for i := 0; i < n; i++ {
			r := &flakyReader{s: s, b: pattern(i, s.Draw(vsim.SOps, 9)), failAt: -1, eofAt: -1, short: s.Chance(vsim.SOps, 0.5), withData: s.Chance(vsim.SOps, 0.5), name: "src" + itoa(i)}
			if s.Chance(vsim.SOps, 0.15) {
				r.failAt, r.err = s.Draw(vsim.SOps, len(r.b)+1), sourceErr(s)
			}
			if s.Chance(vsim.SOps, 0.2) {
				r.closeErr = closingErr(s, i)
			}
			if !failed {
				if r.failAt >= 0 {
					want = append(want, r.b[:r.failAt]...)
					failed, failure = true, r.err
				} else {
					want = append(want, r.b...)
				}
			}
			rs = append(rs, r)
		}
		m := stream.NewMultiReadCloser(rs...)
		s.Go("drain", func() {
			var out []byte
			var err error
			for k := 0; k < 200 && err == nil; k++ {
				p := make([]byte, 1+s.Draw(vsim.SOps, 9))
				var c int
				c, err = m.Read(p)
				out = append(out, p[:c]...)
			}
			s.Logf("drained %d of %d, %v", len(out), len(want), err)
			if !bytes.Equal(out, want) {
				s.Fail("wrong-bytes", "drained %q, want %q", out, want)
				return
			}
			if failed && !errors.Is(err, failure) || !failed && err != io.EOF {
				s.Fail("wrong-end", "ended with %v (a source fails: %v)", err, failed)
				return
			}
			cerr := m.Close()
			for i, r := range rs {
				if r.closed != 1 {
					s.Fail("not-closed-once", "source %d closed %d times", i, r.closed)
					return
				}
				if r.closeErr != nil && !errors.Is(cerr, r.closeErr) {
					s.Fail("close-error-lost", "source %d: %v not in %v", i, r.closeErr, cerr)
					return
				}
			}
		})
		s.Run()
	},
}

// seqAccess: random access over sequential streams.
var seqAccess = &Scenario{
	Name: "seq-access",
	Doc:  "reads at contiguous, backward and jumping offsets over an opener whose opens, reads and closes fail, whose streams are short or end early; bytes, stream counts and reuse against the reference; then closed",
	Run: func(s *vsim.Sim) {
		s.Configure()
		data := pattern(3, s.Draw(vsim.SOps, 40))
		size := int64(len(data))
		faulty := s.Chance(vsim.SCfg, 0.6)
		longer := s.Chance(vsim.SOps, 0.2)
		var opened []*flakyReader
		var openOffs []int64
		fired := 0
		open := func(off int64) (io.ReadCloser, error) {
			vsim.Yield(vsim.KIO, 0xd3000010)
			openOffs = append(openOffs, off)
			live := 0
			for _, r := range opened {
				if r.closed == 0 {
					live++
				}
			}
			if live > 0 {
				s.Fail("two-streams", "a stream is opened at %d while %d are open", off, live)
			}
			if off < 0 || off > size {
				s.Fail("bad-open", "opened at %d of %d", off, size)
				return nil, errSource
			}
			if faulty && s.Chance(vsim.SFault, 0.15) {
				fired++
				s.Fault("source-open-error")
				return nil, errSource
			}
			b := data[off:]
			if longer {
				b = append(append([]byte{}, b...), pattern(9, 5)...)
			}
			r := &flakyReader{s: s, b: b, failAt: -1, eofAt: -1, short: s.Chance(vsim.SOps, 0.5), withData: s.Chance(vsim.SOps, 0.5), name: "stream@" + itoa(int(off))}
			if faulty && s.Chance(vsim.SFault, 0.3) {
				r.failAt, r.err, r.after = s.Draw(vsim.SFault, len(b)+1), sourceErr(s), s.Draw(vsim.SFault, 3)
			} else if faulty && s.Chance(vsim.SFault, 0.3) {
				r.eofAt = s.Draw(vsim.SFault, len(b)+1)
			}
			if faulty && s.Chance(vsim.SFault, 0.15) {
				r.closeErr = errors.New("closing the stream failed")
			}
			opened = append(opened, r)
			return r, nil
		}
		ra := stream.NewSeqReaderAt(open, size)
		s.Go("reader", func() {
			pos := int64(-1) // where the kept stream stands, -1 unknown
			for k := 3 + s.Draw(vsim.SOps, 15); k > 0 && !s.Failed(); k-- {
				vsim.Yield(vsim.KOp, 1)
				if s.Chance(vsim.SOps, 0.05) {
					_ = ra.Close()
					pos = -1
					continue
				}
				off := int64(s.Draw(vsim.SOps, int(size)+3))
				if pos >= 0 && s.Chance(vsim.SOps, 0.6) {
					off = pos
				}
				p := make([]byte, s.Draw(vsim.SOps, 12))
				canary := len(p)
				buf := append(p, 0xEE)
				opens := len(openOffs)
				n, err := ra.ReadAt(buf[:canary:canary], off)
				p = buf[:canary]
				s.Logf("readAt(%d)@%d -> %d %v", len(p), off, n, err)
				if buf[canary] != 0xEE || n < 0 || n > len(p) {
					s.Fail("bad-count", "n=%d of %d", n, len(p))
					return
				}
				if off+int64(n) > size && n > 0 {
					s.Fail("bytes-past-end", "read at %d returned %d bytes of an object of %d", off, n, size)
					return
				}
				if n > 0 && !bytes.Equal(p[:n], data[off:off+int64(n)]) {
					s.Fail("wrong-bytes", "read at %d returned %q, the object has %q", off, p[:n], data[off:off+int64(n)])
					return
				}
				cut := false
				for _, r := range opened {
					if r.eofAt >= 0 && r.pos >= r.eofAt {
						cut = true
					}
				}
				switch {
				case off >= size && (n != 0 || err != io.EOF || len(openOffs) > opens):
					s.Fail("read-past-end", "read at %d of %d: %d bytes, %v, %d streams opened", off, size, n, err, len(openOffs)-opens)
					return
				case err == nil && n < len(p):
					s.Fail("short-without-error", "read at %d: %d of %d bytes, no error", off, n, len(p))
					return
				case err == io.EOF && off+int64(n) < size && !cut:
					s.Fail("clean-end-too-early", "read at %d: end of data after %d bytes of %d", off, n, size-off)
					return
				case err != nil && err != io.EOF && !faulty:
					s.Fail("spurious-error", "read at %d: %v", off, err)
					return
				}
				if err == nil && pos >= 0 && pos == off && len(openOffs) > opens {
					s.Fail("stream-not-reused", "the contiguous read at %d opened a stream at %d", off, openOffs[opens])
					return
				}
				if len(openOffs) > opens && openOffs[len(openOffs)-1] != off {
					s.Fail("bad-open", "read at %d opened a stream at %d", off, openOffs[len(openOffs)-1])
					return
				}
				switch {
				case err == nil && n > 0:
					pos = off + int64(n)
				case err != nil || len(openOffs) > opens:
					pos = -1
				}
			}
			_ = ra.Close()
			for _, r := range opened {
				if r.closed != 1 {
					s.Fail("not-closed-once", "%s closed %d times", r.name, r.closed)
					return
				}
			}
		})
		s.Run()
		s.State(fmt.Sprint(len(openOffs)))
	},
}

// seqConcat: sequential streams as parts of a concatenation, drained with
// retries, as the chunk reader does.
var seqConcat = &Scenario{
	Name: "seq-concat",
	Doc:  "a concatenation of sequentially opened parts drained front to back with seeks and retries after each error; a clean end must mean every byte was delivered, and no stream stays open after close",
	Run: func(s *vsim.Sim) {
		s.Configure()
		n := 1 + s.Draw(vsim.SOps, 4)
		faulty := s.Chance(vsim.SCfg, 0.7)
		var all []byte
		var opened []*flakyReader
		budget := 6
		var rs []stream.ReadAtSizeCloser
		for i := 0; i < n; i++ {
			data := pattern(i, s.Draw(vsim.SOps, 12))
			all = append(all, data...)
			rs = append(rs, stream.NewSeqReaderAt(func(off int64) (io.ReadCloser, error) {
				vsim.Yield(vsim.KIO, 0xd3000010)
				f := faulty && budget > 0
				if f && s.Chance(vsim.SFault, 0.15) {
					budget--
					s.Fault("source-open-error")
					return nil, errSource
				}
				r := &flakyReader{s: s, b: data[off:], failAt: -1, eofAt: -1, short: s.Chance(vsim.SOps, 0.5), withData: s.Chance(vsim.SOps, 0.5)}
				if f && s.Chance(vsim.SFault, 0.3) {
					budget--
					r.failAt, r.err, r.after = s.Draw(vsim.SFault, len(r.b)+1), sourceErr(s), s.Draw(vsim.SFault, 3)
				} else if f && s.Chance(vsim.SFault, 0.3) {
					budget--
					r.eofAt = s.Draw(vsim.SFault, len(r.b)+1)
				}
				opened = append(opened, r)
				return r, nil
			}, int64(len(data))))
		}
		m := stream.NewMultiReadAtSeekCloser(stream.SizedReadersFromReadAtSizer(rs))
		s.Go("drain", func() {
			start := s.Draw(vsim.SOps, len(all)+1)
			if _, err := m.Seek(int64(start), io.SeekStart); err != nil {
				s.Fail("bad-seek", "%v", err)
				return
			}
			out := append([]byte{}, all[:start]...)
			for try := 0; ; try++ {
				b, err := io.ReadAll(struct{ io.Reader }{m})
				s.Logf("drain %d -> %d bytes, %v", try, len(b), err)
				out = append(out, b...)
				if !bytes.HasPrefix(all, out) {
					s.Fail("wrong-bytes", "drained %q of %q", out, all)
					return
				}
				if err == nil {
					if len(out) != len(all) {
						s.Fail("clean-end-too-early", "clean end after %d of %d bytes", len(out), len(all))
						return
					}
					break
				}
				if try > 20 {
					s.Fail("no-progress", "20 attempts did not reach the end: %v", err)
					return
				}
			}
			if err := m.Close(); err != nil {
				s.Fail("spurious-error", "Close: %v", err)
				return
			}
			for i, r := range opened {
				if r.closed != 1 {
					s.Fail("not-closed-once", "stream %d closed %d times", i, r.closed)
					return
				}
			}
		})
		s.Run()
	},
}

// cancelReads: cancellation at any instant of a sequence of reads.
var cancelReads = &Scenario{
	Name: "cancel-reads",
	Doc:  "reads through a cancellable reader while another task cancels, with short reads and source failures; bytes, order, stickiness of the first error and silence of the source after cancellation",
	Run: func(s *vsim.Sim) {
		s.Configure()
		data := pattern(5, s.Draw(vsim.SOps, 40))
		src := &flakyReader{s: s, b: data, failAt: -1, eofAt: -1, short: s.Chance(vsim.SOps, 0.7), withData: s.Chance(vsim.SOps, 0.5), name: "src"}
		if s.Chance(vsim.SOps, 0.3) {
			src.failAt, src.err = s.Draw(vsim.SOps, len(data)+1), sourceErr(s)
		}
		reads := 0
		src.onRead = func(int) { reads++ }
		calls := &countReader{r: src}
		ctx, cancel := context.WithCancel(context.Background())
		cause := errors.New("the cause")
		var ccause context.CancelCauseFunc
		if s.Chance(vsim.SOps, 0.3) {
			ctx, ccause = context.WithCancelCause(context.Background())
		}
		r := stream.NewCancellable(ctx, calls)
		cancelled := false
		s.Go("canceller", func() {
			for k := s.Draw(vsim.SOps, 25); k > 0; k-- {
				vsim.Yield(vsim.KOp, 3)
			}
			s.Fault("cancel")
			cancelled = true
			if ccause != nil {
				ccause(cause)
			} else {
				cancel()
			}
		})
		s.Go("reader", func() {
			var out []byte
			var first error
			for k := 0; k < 60; k++ {
				vsim.Yield(vsim.KOp, 4)
				was := cancelled
				before := calls.n
				p := make([]byte, 1+s.Draw(vsim.SOps, 9))
				n, err := r.Read(p)
				s.Logf("read(%d) -> %d %v", len(p), n, err)
				out = append(out, p[:n]...)
				if !bytes.Equal(out, data[:min(len(out), len(data))]) || len(out) > len(data) || len(out) != src.pos {
					s.Fail("wrong-bytes", "passed on %q, the source delivered %q", out, data[:src.pos])
					return
				}
				if first != nil {
					if n != 0 || err != first {
						s.Fail("error-not-sticky", "after %v a read returned %d, %v", first, n, err)
						return
					}
					if calls.n != before {
						s.Fail("source-read-after-end", "the source was read again after %v", first)
						return
					}
				} else if was {
					if n != 0 || !errors.Is(err, context.Canceled) {
						s.Fail("cancellation-missed", "a read begun after cancellation returned %d, %v", n, err)
						return
					}
					if calls.n != before {
						s.Fail("source-read-after-cancel", "the source was read although cancellation came before the call")
						return
					}
				} else if err != nil && errors.Is(err, context.Canceled) && !cancelled {
					s.Fail("spurious-error", "cancellation reported before it happened")
					return
				}
				if err != nil && first == nil {
					first = err
					if errors.Is(err, context.Canceled) && n != 0 {
						s.Fail("bytes-with-cancellation", "%d bytes with the cancellation error", n)
						return
					}
					s.State(err.Error())
				}
				if first != nil && k > 40 {
					return
				}
				if first == nil && n == 0 {
					s.Fail("no-bytes", "neither bytes nor an error")
					return
				}
			}
			if first == nil && len(out) < len(data) {
				return
			}
			if first == nil {
				s.Fail("no-end", "the source ended and the reader does not say so")
			}
		})
		s.Run()
		cancel()
		if ccause != nil {
			ccause(nil)
		}
	},
}

type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	c.n++
	return c.r.Read(p)
}

func init() {
	register(&Check{Property: "P06", Quick: 600000, Thorough: 30000000, Parts: []Part{{concatReads, 6}, {concatDrain, 3}, {concatStreams, 2}},
		Real: []string{"stream (multi_read_at_closer, multi_read_closer)"}, Stub: []string{"the sources"},
		Assumptions: []string{"sources keep io.ReaderAt's contract: fewer bytes than asked for come with an error", "positioned reads from several threads, sequential reads and seeks from one"}})
	register(&Check{Property: "P07", Quick: 600000, Thorough: 30000000, Parts: []Part{{seqAccess, 3}, {seqConcat, 2}},
		Real: []string{"stream (seq_reader_at, multi_read_at_closer)"}, Stub: []string{"the streams"},
		Assumptions: []string{"one thread, as documented"}})
	register(&Check{Property: "P09", Quick: 600000, Thorough: 30000000, Parts: []Part{{cancelReads, 1}},
		Real: []string{"stream (cancellable)"}, Stub: []string{"the source"},
		Assumptions: []string{"reads come from one thread, as documented"}})
}
