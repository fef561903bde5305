package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"

	"github.com/ngicks/go-fsys-helper/stream/httprange"
	"verif.local/sim/simhttp"
	"verif.local/sim/vsim"
)

// objVersion is one version of the remote object. Any two versions differ in
// every byte and in something the server states about them.
type objVersion struct {
	id   int
	etag string
	lm   string
	// scheme and host it is served from after a redirect
	scheme string
	host   string
	data   []byte
}

func versionData(id, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(id*50 + (i*7+i/9)%50)
	}
	return b
}

const (
	secretUser  = "alice-u5er"
	secretPass  = "p4ssw0rd-hush"
	secretTok   = "t0ken-hush"
	secretUser2 = "bob-u5er"
	secretPass2 = "p4ssw0rd-second"
	secretTok2  = "t0ken-second"
	secretFrag  = "fr4gment-hush"
)

var secrets = []string{secretUser, secretPass, secretTok, secretUser2, secretPass2, secretTok2, secretFrag}

type rangeWorld struct {
	s    *vsim.Sim
	net  *simhttp.Net
	vers []*objVersion
	cur  int
	// ifRange: the server honours If-Range.
	ifRange bool
	// emptyOK: an empty object is answered 200 rather than 416.
	emptyOK bool
	// redirect: the first request of each call is redirected to the version's host.
	redirect bool
	unsized  bool
	noReq    bool

	p      float64 // misbehaviour per request
	budget int
	fired  int
	stalls bool
	// pinned tells whether lies about the size are detectable already.
	pinned func() bool
	// what the last response of each task was
	last map[string]*seenResp

	secretErrs bool
	// probeStalls: probes may be left without an answer.
	probeStalls bool
	// streams counts requests that ask for more than the call needs.
	streams int
	header  http.Header
	// bare: neither URL carries user information.
	bare   bool
	url    string
	badReq string
}

type seenResp struct {
	ver  int
	bad  bool // the response or connection misbehaved
	reqs int
	// want is how many bytes the call can use: -1 not known.
	want  int64
	probe bool
}

// origin is where the version is served from.
func (v *objVersion) origin() string { return v.scheme + "://" + v.host }

func (w *rangeWorld) fault(kind string) bool {
	if w.budget <= 0 || !w.s.Chance(vsim.SFault, w.p) {
		return false
	}
	w.budget--
	w.fired++
	w.s.Fault(kind)
	return true
}

// transportErr is a failing connection, as clients and transports report it.
func (w *rangeWorld) transportErr(req *http.Request) error {
	if !w.secretErrs {
		e := []error{simhttp.ErrReset, simhttp.ErrReset, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF, io.EOF, http.ErrServerClosed}[w.s.Draw(vsim.SFault, 6)]
		if w.s.Draw(vsim.SFault, 2) == 0 {
			e = &url.Error{Op: "Get", URL: req.URL.String(), Err: e}
		}
		return e
	}
	raw := w.url
	reset := []error{simhttp.ErrReset, os.ErrDeadlineExceeded, context.DeadlineExceeded, io.ErrUnexpectedEOF, io.EOF, http.ErrServerClosed}[w.s.Draw(vsim.SFault, 6)]
	switch w.s.Draw(vsim.SFault, 7) {
	case 0:
		return reset
	case 1:
		return &url.Error{Op: "Get", URL: raw, Err: reset}
	case 2:
		return fmt.Errorf("retrying transport: %w", &url.Error{Op: "Get", URL: raw, Err: reset})
	case 3:
		return &url.Error{Op: "Get", URL: raw, Err: &url.Error{Op: "Get", URL: req.URL.String(), Err: reset}}
	case 4:
		return &url.Error{Op: "Get", URL: "https://" + secretUser2 + ":" + secretPass2 + "@idp.example/token?k=" + secretTok2, Err: fmt.Errorf("auth: %w", &url.Error{Op: "Post", URL: raw, Err: reset})}
	case 5:
		// a location the client cannot parse
		return &url.Error{Op: "Get", URL: "https://" + secretUser2 + ":" + secretPass2 + "@idp.example/%zz?k=" + secretTok2, Err: reset}
	default:
		return errors.Join(reset, &url.Error{Op: "Get", URL: req.URL.String() + "&again=" + secretTok, Err: reset})
	}
}

func (w *rangeWorld) handle(req *http.Request) *simhttp.Answer {
	s := w.s
	me := s.CurName()
	sr := w.last[me]
	if sr == nil {
		sr = &seenResp{want: -1}
		w.last[me] = sr
	}
	at := w.cur
	if w.redirect && req.URL.Host != "files.example" && w.vers[at].origin() != req.URL.Scheme+"://"+req.URL.Host {
		// the version behind the redirect changed meanwhile; that host has its own
		for i, o := range w.vers {
			if o.origin() == req.URL.Scheme+"://"+req.URL.Host {
				at = i
				break
			}
		}
	}
	v := w.vers[at]
	sr.ver = at
	sr.reqs++
	bad := func(kind string) bool {
		if w.fault(kind) {
			sr.bad = true
			return true
		}
		return false
	}
	s.Logf("%s %s Range=%s If-Range=%s (v%d of %d bytes)", req.Method, req.URL.Host, req.Header.Get("Range"), req.Header.Get("If-Range"), v.id, len(v.data))
	if req.Header.Get("Accept-Encoding") != "identity" {
		w.badReq = "Accept-Encoding is " + req.Header.Get("Accept-Encoding")
	}
	for k := range w.header {
		if k != "Range" && k != "If-Range" && k != "Accept-Encoding" && req.URL.Host == "files.example" && req.Header.Get(k) != w.header.Get(k) {
			w.badReq = "header " + k + " is not sent"
		}
	}
	if w.redirect && req.URL.Host == "files.example" {
		if bad("connection-refused") {
			return &simhttp.Answer{Err: w.transportErr(req)}
		}
		a := simhttp.NewAnswer([]int{302, 307, 301}[s.Draw(vsim.SOps, 3)], []byte("moved"))
		user := secretUser2 + ":" + secretPass2 + "@"
		if w.bare {
			user = ""
		}
		a.Header.Set("Location", v.scheme+"://"+user+v.host+"/data/blob?sig="+secretTok2+"#"+secretFrag)
		return a
	}
	if (w.stalls || w.probeStalls && sr.probe) && bad("stall") {
		return &simhttp.Answer{StallHead: true}
	}
	if bad("connection-refused") {
		return &simhttp.Answer{Err: w.transportErr(req)}
	}
	if bad("error-status") {
		a := plainErr([]int{500, 503, 404, 410, 403, 429, 304, 204, 201, 412}[s.Draw(vsim.SFault, 10)])
		a.Header.Set("ETag", v.etag)
		a.Endless = s.Draw(vsim.SFault, 8) == 7
		a.Unsized = a.Unsized || a.Endless
		return a
	}
	total := len(v.data)
	h := http.Header{}
	if v.etag != "" {
		h.Set("ETag", v.etag)
	}
	if v.lm != "" {
		h.Set("Last-Modified", v.lm)
	}
	streaming := false
	mk := func(st int, body []byte) *simhttp.Answer {
		a := simhttp.NewAnswer(st, body)
		a.Header = h
		a.Unsized = w.unsized
		a.NoRequest = w.noReq
		a.Short = s.Draw(vsim.SOps, 2) == 1
		a.Mark = streaming
		return a
	}
	spec, ok := strings.CutPrefix(req.Header.Get("Range"), "bytes=")
	lo, hi, ok2 := strings.Cut(spec, "-")
	if !ok || !ok2 {
		w.badReq = "Range is " + req.Header.Get("Range")
		return plainErr(400)
	}
	from, err1 := strconv.ParseInt(lo, 10, 64)
	to := int64(total) - 1
	var err2 error
	if hi != "" {
		var x int64
		x, err2 = strconv.ParseInt(hi, 10, 64)
		to = min(to, x)
		if err2 == nil && x < from {
			err2 = errors.New("backwards")
		}
	}
	if err1 != nil || err2 != nil {
		w.badReq = "Range is " + req.Header.Get("Range")
		return plainErr(400)
	}
	if sr.want >= 0 {
		end, err := strconv.ParseInt(hi, 10, 64)
		if streaming = hi == "" || err == nil && end-from+1 > sr.want; streaming {
			w.streams++
		}
	}
	if ir := req.Header.Get("If-Range"); ir != "" && w.ifRange {
		match := ir == v.lm
		if strings.HasPrefix(ir, `"`) {
			match = ir == v.etag
		} else if strings.HasPrefix(ir, "W/") {
			match = false
		}
		if !match {
			return mk(200, v.data)
		}
	}
	if bad("range-ignored") && total > 0 {
		a := mk(200, v.data)
		a.Endless = s.Draw(vsim.SFault, 8) == 7
		a.Unsized = a.Unsized || a.Endless
		return a
	}
	if from >= int64(total) {
		if total == 0 && w.emptyOK {
			return mk(200, nil)
		}
		a := mk(416, []byte("no such range"))
		h.Set("Content-Range", fmt.Sprintf("bytes */%d", total))
		return a
	}
	if bad("range-refused") {
		a := mk(416, []byte("no such range"))
		if s.Draw(vsim.SFault, 2) == 0 {
			h.Set("Content-Range", fmt.Sprintf("bytes */%d", total))
		}
		return a
	}
	if w.pinned() && bad("empty-answer") {
		return mk(200, nil)
	}
	sendFrom, sendTo, say := from, to, int64(total)
	switch {
	case bad("other-range"):
		switch s.Draw(vsim.SFault, 3) {
		case 0:
			sendFrom = int64(s.Draw(vsim.SFault, total))
			if sendFrom > sendTo {
				sendTo = sendFrom
			}
		case 1: // shorter than asked for
			if to > from {
				sendTo = from + int64(s.Draw(vsim.SFault, int(to-from)))
			}
		case 2: // longer than asked for
			sendTo = int64(total) - 1
		}
	case w.pinned() && bad("other-total"):
		// no other version's length either: the answer would pass for that one's
		say = int64(total) + 1<<20 + int64(s.Draw(vsim.SFault, 3))
	}
	a := mk(206, v.data[sendFrom:sendTo+1])
	h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", sendFrom, sendTo, say))
	switch {
	case bad("range-malformed"):
		cr := []string{"", "bytes", "bytes 0-1", "bytes 1-2/*", "bytes x-y/z", "items 0-1/2", fmt.Sprintf("bytes +%d-%d/%d", from, to, total),
			fmt.Sprintf("bytes %d-%d/%d", to, from-1, total), fmt.Sprintf("bytes %d-%d/%d", from, total, total)}
		h.Set("Content-Range", cr[s.Draw(vsim.SFault, len(cr))])
	case bad("encoded-body"):
		if s.Draw(vsim.SFault, 2) == 0 {
			h.Set("Content-Encoding", []string{"gzip", "br", "deflate"}[s.Draw(vsim.SFault, 3)])
			a.Body = append([]byte("\x1f\x8b"), a.Body...)
		} else {
			a.Uncompressed = true
			a.Unsized = true
			a.Body = append([]byte("??"), a.Body...)
		}
	case bad("body-cut"):
		a.CutAt = s.Draw(vsim.SFault, len(a.Body))
		switch s.Draw(vsim.SFault, 4) {
		case 0: // clean end
		case 3: // announced as short as it is
			a.Body = a.Body[:a.CutAt]
			a.CutAt = -1
		case 1:
			a.CutErr = io.ErrUnexpectedEOF
		default:
			a.CutErr = w.transportErr(req)
		}
	case bad("body-too-long"):
		a.Body = append(append([]byte{}, a.Body...), "garbage after the range"...)
		a.Unsized = true
		a.Endless = s.Draw(vsim.SFault, 4) == 3
	case w.stalls && bad("stalling-body"):
		a.StallAt = s.Draw(vsim.SFault, len(a.Body))
	}
	if s.Chance(vsim.SOps, 0.1) {
		a.CloseErr = errors.New("closing the body failed")
	}
	return a
}

type doerFunc func(*http.Request) (*http.Response, error)

func (f doerFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

// elsewhere moves a version to an origin of its own.
func (w *rangeWorld) elsewhere(v *objVersion) {
	switch w.s.Draw(vsim.SOps, 3) {
	case 0:
		v.host = "cdn" + itoa(v.id) + ".example"
	case 1:
		v.host = "cdn0.example:" + itoa(8443+v.id)
	default:
		if v.scheme = "http"; v.id > 1 {
			v.host = "cdn0.example:" + itoa(8443+v.id)
		}
	}
}

// newRangeWorld draws a server. nv versions it may go through.
func newRangeWorld(s *vsim.Sim, nv int) (*rangeWorld, *httprange.Config) {
	w := &rangeWorld{s: s, last: map[string]*seenResp{}, pinned: func() bool { return false }}
	w.net = &simhttp.Net{S: s, Handle: w.handle}
	w.ifRange = s.Chance(vsim.SOps, 0.5)
	w.emptyOK = s.Chance(vsim.SOps, 0.5)
	w.unsized = s.Chance(vsim.SOps, 0.3)
	w.redirect = s.Chance(vsim.SOps, 0.3)
	mode := s.Draw(vsim.SOps, 5) // which validators the server states
	size := s.Draw(vsim.SOps, 40)
	for i := 0; i < nv; i++ {
		v := &objVersion{id: i, scheme: "https", host: "cdn0.example"}
		switch s.Draw(vsim.SOps, 3) {
		case 1:
			size = s.Draw(vsim.SOps, 40)
		case 2:
			if s.Chance(vsim.SOps, 0.2) {
				size = 0
			}
		}
		tag := []string{"a", "a1", "b", "ab"}[i]
		switch mode {
		case 0:
			v.etag = `"` + tag + `"`
		case 1:
			v.etag = `W/"` + tag + `"`
		case 2:
			v.lm = fmt.Sprintf("Mon, 02 Jan 2006 15:04:%02d GMT", i)
		case 3:
			v.etag = `"` + tag + `"`
			v.lm = "Mon, 02 Jan 2006 15:04:05 GMT"
			if s.Chance(vsim.SOps, 0.5) {
				v.lm = fmt.Sprintf("Mon, 02 Jan 2006 15:04:%02d GMT", i)
				if s.Chance(vsim.SOps, 0.3) { // only the date gives it away
					v.etag = `"a"`
				}
			}
		case 4: // none: only size or origin tell versions apart
			if w.redirect && s.Chance(vsim.SOps, 0.5) {
				w.elsewhere(v)
			} else {
				size = 5 + i*3 + i*s.Draw(vsim.SOps, 2)
			}
		}
		if mode <= 1 && s.Chance(vsim.SOps, 0.2) {
			// the same tag, as a strong and as a weak one
			v.etag = []string{`"a"`, `W/"a"`}[(mode+i)%2]
		}
		if w.redirect && s.Chance(vsim.SOps, 0.2) {
			w.elsewhere(v)
			if i > 0 && s.Chance(vsim.SOps, 0.5) {
				// a mirror with other content behind the same validators
				v.etag, v.lm = w.vers[0].etag, w.vers[0].lm
				size = len(w.vers[0].data)
			}
		}
		v.data = versionData(i, size)
		w.vers = append(w.vers, v)
	}
	for i, a := range w.vers { // keep only versions that can be told apart
		for _, b := range w.vers[:i] {
			if a.etag == b.etag && a.lm == b.lm && len(a.data) == len(b.data) && a.origin() == b.origin() {
				w.vers = w.vers[:1]
				break
			}
		}
		if len(w.vers) == 1 {
			break
		}
	}
	user := secretUser + ":" + secretPass + "@"
	if w.bare = s.Chance(vsim.SOps, 0.2); w.bare {
		user = ""
	}
	w.url = "https://" + user + "files.example/blob?sig=" + secretTok + "&x=1"
	if s.Chance(vsim.SOps, 0.2) {
		w.url += "#" + secretFrag
	}
	cfg := &httprange.Config{}
	if s.Chance(vsim.SOps, 0.4) {
		w.header = http.Header{"X-Key": {"v"}, "Range": {"bytes=7-9"}, "If-Range": {`"zz"`}, "Accept-Encoding": {"gzip"}}
		cfg.Header = w.header.Clone()
	}
	cl := &http.Client{Transport: w.net}
	cfg.Client = cl
	if !w.redirect && s.Chance(vsim.SOps, 0.3) {
		w.noReq = s.Chance(vsim.SOps, 0.3)
		cfg.Client = doerFunc(func(r *http.Request) (*http.Response, error) { return w.net.RoundTrip(r) })
	}
	return w, cfg
}

// rangeReader is a reader with the view it was made for.
type rangeReader struct {
	w    *rangeWorld
	r    *httprange.ReaderAt
	base int64
	n    int64
	lane bool
}

// view is what the reader hands out of a version.
func (rr *rangeReader) view(v *objVersion) []byte {
	size := int64(len(v.data))
	lo := min(rr.base, size)
	hi := size
	if rr.n < size-lo {
		hi = lo + rr.n
	}
	return v.data[lo:hi]
}

func (w *rangeWorld) open(ctx context.Context, cfg *httprange.Config, lane bool) *rangeReader {
	s := w.s
	rr := &rangeReader{w: w, n: math.MaxInt64, lane: lane}
	var err error
	if lane {
		rr.base = int64(s.Draw(vsim.SOps, 12))
		rr.n = int64(s.Draw(vsim.SOps, 40))
		if s.Chance(vsim.SOps, 0.2) {
			rr.n = math.MaxInt64 - rr.base
		}
		rr.r, err = httprange.NewRange(ctx, w.url, rr.base, rr.n, cfg)
	} else {
		rr.r, err = httprange.New(ctx, w.url, cfg)
	}
	if err != nil {
		s.Fail("spurious-error", "New: %v", err)
		return nil
	}
	w.pinned = func() bool { _, ok := rr.r.Metadata(); return ok }
	return rr
}

// versionOf finds the version a pinned description stands for: -1 if several.
func (w *rangeWorld) versionOf(m httprange.Metadata, seen map[int]bool) int {
	found := -1
	for i, v := range w.vers {
		if m.ETag == v.etag && m.LastModified == v.lm && m.Size == int64(len(v.data)) {
			if found >= 0 {
				return -1
			}
			found = i
		}
	}
	return found
}

type readRec struct {
	off  int64
	n    int
	want int
	err  error
}

// used is what the reads so far prove about the version in use.
type used struct {
	w   *rangeWorld
	ver int // -1 unknown
}

// read performs one ReadAt and judges what it returned. loose accepts errors
// for reasons the caller knows of (cancellation, close).
func (u *used) read(rr *rangeReader, off int64, size int, loose func() bool) (readRec, bool) {
	w, s := rr.w, rr.w.s
	me := s.CurName()
	pre := &seenResp{ver: -1, want: int64(size)}
	w.last[me] = pre
	was := loose()
	meta, pinned := rr.r.Metadata()
	curBefore := w.cur
	p := make([]byte, size)
	n, err := rr.r.ReadAt(p, off)
	rec := readRec{off, n, size, err}
	s.Logf("ReadAt(%d)@%d -> %d %v", size, off, n, err)
	if n < 0 || n > size {
		s.Fail("bad-count", "n=%d of %d", n, size)
		return rec, false
	}
	if off < 0 {
		if err == nil || n > 0 {
			s.Fail("bad-offset", "a read at %d returned %d, %v", off, n, err)
		}
		return rec, !s.Failed()
	}
	if n > 0 {
		vi := int(p[0]) / 50
		if vi >= len(w.vers) {
			s.Fail("wrong-bytes", "read at %d returned %v", off, p[:n])
			return rec, false
		}
		v := rr.view(w.vers[vi])
		if off+int64(n) > int64(len(v)) || !bytes.Equal(p[:n], v[off:off+int64(n)]) {
			s.Fail("wrong-bytes", "read at %d returned %v, version %d has %v there", off, p[:n], vi, v[min(off, int64(len(v))):])
			return rec, false
		}
		if u.ver >= 0 && u.ver != vi {
			s.Fail("mixed-versions", "read at %d returned bytes of version %d, earlier reads of version %d", off, vi, u.ver)
			return rec, false
		}
		u.ver = vi
		s.State("v" + itoa(vi))
		if pre.reqs > 0 && pre.ver == vi && pre.bad {
			s.Probe("bytes-despite-misbehaviour")
		}
	}
	if err == nil && n < size {
		s.Fail("short-without-error", "read at %d: %d of %d bytes, no error", off, n, size)
		return rec, false
	}
	// the version in use as far as it is known by now
	vi := u.ver
	if vi < 0 {
		if m2, ok := rr.r.Metadata(); ok {
			vi = w.versionOf(m2, nil)
		}
	}
	if vi >= 0 && err == io.EOF {
		if v := rr.view(w.vers[vi]); off+int64(n) < int64(len(v)) {
			s.Fail("clean-end-too-early", "read at %d: end of data after %d bytes, the view holds %d", off, n, int64(len(v))-off)
			return rec, false
		}
	}
	if was || loose() {
		return rec, true
	}
	quiet := !pre.bad
	if pre.reqs == 0 && rr.lane {
		quiet = w.fired == 0 // the stream's response came earlier
	}
	if err != nil && err != io.EOF && quiet {
		changed := len(w.vers) > 1 && (pre.reqs == 0 || !pinned || w.cur != curBefore || u.ver < 0 || pre.ver != u.ver)
		if !changed {
			s.Fail("spurious-error", "read at %d: %v although nothing misbehaved", off, err)
			return rec, false
		}
		if !errors.Is(err, httprange.ErrObjectChanged) {
			s.Fail("change-not-named", "read at %d: %v; all that happened is that the object changed", off, err)
			return rec, false
		}
	}
	if pinned && pre.reqs > 0 && !pre.bad && pre.ver >= 0 {
		if pv := w.versionOf(meta, nil); pv >= 0 && pv != pre.ver && w.vers[pv].origin() == w.vers[pre.ver].origin() && !errors.Is(err, httprange.ErrObjectChanged) {
			s.Fail("change-unnoticed", "read at %d: version %d is pinned, %d answered, result %d, %v", off, pv, pre.ver, n, err)
			return rec, false
		}
	}
	if quiet && err == nil || err == io.EOF {
		if vi >= 0 {
			v := rr.view(w.vers[vi])
			want := max(0, min(int64(size), int64(len(v))-off))
			if int64(n) != want {
				s.Fail("wrong-length", "read at %d returned %d bytes, %d are there", off, n, want)
				return rec, false
			}
		}
	}
	return rec, true
}

func (w *rangeWorld) drawRead(rr *rangeReader) (int64, int) {
	s := w.s
	m := 0
	for _, v := range w.vers {
		m = max(m, len(rr.view(v)))
	}
	off := int64(s.Draw(vsim.SOps, m+4))
	size := s.Draw(vsim.SOps, 14)
	if s.Chance(vsim.SOps, 0.1) {
		size = m + 5
	}
	if s.Chance(vsim.SOps, 0.02) {
		off = -1
	}
	return off, size
}

// finish closes the reader and checks that nothing is left behind.
func (w *rangeWorld) finish(rr *rangeReader) {
	s := w.s
	if s.Failed() || s.Stuck != "" {
		return
	}
	s.Go("closer-final", func() {
		if err := rr.r.Close(); err != nil {
			s.Fail("spurious-error", "Close: %v", err)
		}
		for i := 0; i < 2 && !s.Failed(); i++ {
			p := make([]byte, 3)
			n, err := rr.r.ReadAt(p, int64(i))
			if n != 0 || err == nil {
				s.Fail("read-after-close", "after Close a read returned %d, %v", n, err)
			}
			_ = rr.r.Close()
		}
	})
	s.Run()
	s.Settle()
	if s.Failed() || s.Stuck != "" {
		return
	}
	for _, b := range w.net.Bodies {
		switch {
		case b.Closed == 0:
			s.Fail("body-leak", "the response to %s is never closed", b.Label)
			return
		case b.AfterClose > 0:
			s.Fail("body-read-after-close", "the response to %s is read after it was closed", b.Label)
			return
		case b.Closed > 1:
			s.Fail("body-closed-twice", "the response to %s is closed %d times", b.Label, b.Closed)
			return
		}
	}
	if w.streams > 1 {
		s.Fail("second-stream", "%d requests asked for more than the call that made them needed", w.streams)
		return
	}
	if w.net.InFlight > 0 {
		s.Fail("request-left", "%d requests still running after Close", w.net.InFlight)
	}
	if w.badReq != "" {
		s.Fail("bad-request", "a request was wrong: %s", w.badReq)
	}
}

var never = func() bool { return false }

var rangeChange = &Scenario{
	Name: "range-change",
	Doc:  "1-3 readers of one remote object whose version, size or origin changes between requests, with and without validators, conditional requests, redirects, prior knowledge and lanes; all bytes returned must belong to one version, the declared one if there is one",
	Run: func(s *vsim.Sim) {
		s.Configure()
		w, cfg := newRangeWorld(s, 2+s.Draw(vsim.SOps, 2))
		if s.Chance(vsim.SCfg, 0.3) {
			w.p, w.budget = 0.1, 3
		}
		want := -1
		if s.Chance(vsim.SOps, 0.4) {
			want = s.Draw(vsim.SOps, len(w.vers))
			v := w.vers[want]
			k := cfg.PriorKnowledge
			switch s.Draw(vsim.SOps, 4) {
			case 0:
				k = httprange.Metadata{ETag: v.etag, LastModified: v.lm, Size: int64(len(v.data))}
			case 1:
				k = httprange.Metadata{ETag: v.etag}
			case 2:
				k = httprange.Metadata{LastModified: v.lm}
			case 3:
				k = httprange.Metadata{Size: int64(len(v.data))}
			}
			k.Header = http.Header{"Etag": {"ignored"}}
			cfg.PriorKnowledge = k
		}
		rr := w.open(context.Background(), cfg, s.Chance(vsim.SOps, 0.4))
		if rr == nil {
			return
		}
		u := &used{w: w, ver: -1}
		s.Go("mutator", func() {
			for k := s.Draw(vsim.SOps, 4); k > 0; k-- {
				for j := s.Draw(vsim.SOps, 12); j > 0; j-- {
					vsim.Yield(vsim.KOp, 1)
				}
				w.cur = s.Draw(vsim.SOps, len(w.vers))
				s.Logf("the server now holds version %d", w.cur)
				s.Fault("object-changed")
			}
		})
		for t := 1 + s.Draw(vsim.SOps, 3); t > 0; t-- {
			s.Go("reader"+itoa(t), func() {
				pos := int64(0)
				for k := 1 + s.Draw(vsim.SOps, 6); k > 0 && !s.Failed(); k-- {
					vsim.Yield(vsim.KOp, 2)
					if s.Chance(vsim.SOps, 0.15) {
						w.last[s.CurName()] = &seenResp{want: -1}
						err := rr.r.Probe(context.Background())
						s.Logf("Probe -> %v", err)
						continue
					}
					off, size := w.drawRead(rr)
					if rr.lane && s.Chance(vsim.SOps, 0.6) {
						off = pos
					}
					rec, ok := u.read(rr, off, size, never)
					if !ok {
						return
					}
					if rec.off == pos {
						pos += int64(rec.n)
					}
				}
			})
		}
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		k := cfg.PriorKnowledge
		if u.ver >= 0 {
			v := w.vers[u.ver]
			if k.ETag != "" && v.etag != "" && k.ETag != v.etag || k.LastModified != "" && v.lm != "" && k.LastModified != v.lm || k.Size > 0 && k.Size != int64(len(v.data)) {
				s.Fail("undeclared-version", "bytes of version %d (%s %s %d) were returned, the caller declared %s %s %d", u.ver, v.etag, v.lm, len(v.data), k.ETag, k.LastModified, k.Size)
				return
			}
			m, ok := rr.r.Metadata()
			if ok && (m.ETag != v.etag && !(k.ETag != "" && v.etag == "") || m.LastModified != v.lm && !(k.LastModified != "" && v.lm == "") || m.Size != int64(len(v.data))) {
				s.Fail("wrong-metadata", "Metadata says %s %s %d, bytes came from version %d (%s %s %d)", m.ETag, m.LastModified, m.Size, u.ver, v.etag, v.lm, len(v.data))
				return
			}
		}
		w.finish(rr)
	},
}

var rangeExact = &Scenario{
	Name: "range-exact",
	Doc:  "1-2 readers of one unchanging object from a server and network that truncate, exceed, refuse, ignore, mislabel, re-encode and break; every result against the object, reads after the last fault must succeed, every body closed",
	Run: func(s *vsim.Sim) {
		s.Configure()
		w, cfg := newRangeWorld(s, 1)
		if s.Chance(vsim.SCfg, 0.85) {
			w.p, w.budget = []float64{0.03, 0.1, 0.3}[s.Draw(vsim.SCfg, 3)], 1+s.Draw(vsim.SCfg, 4)
		}
		v := w.vers[0]
		switch s.Draw(vsim.SOps, 4) {
		case 1:
			cfg.PriorKnowledge = httprange.Metadata{Size: int64(len(v.data))}
		case 2:
			cfg.PriorKnowledge = httprange.Metadata{ETag: v.etag, LastModified: v.lm, Size: int64(len(v.data))}
		}
		rr := w.open(context.Background(), cfg, s.Chance(vsim.SOps, 0.4))
		if rr == nil {
			return
		}
		u := &used{w: w, ver: -1}
		if len(v.data) > 0 {
			u.ver = 0
		}
		for t := 1 + s.Draw(vsim.SOps, 2); t > 0; t-- {
			s.Go("reader"+itoa(t), func() {
				pos := int64(0)
				for k := 2 + s.Draw(vsim.SOps, 8); k > 0 && !s.Failed(); k-- {
					vsim.Yield(vsim.KOp, 2)
					if s.Chance(vsim.SOps, 0.1) {
						sr := &seenResp{want: -1}
						w.last[s.CurName()] = sr
						err := rr.r.Probe(context.Background())
						s.Logf("Probe -> %v", err)
						if err != nil && !sr.bad {
							s.Fail("spurious-error", "Probe: %v", err)
						}
						if m, ok := rr.r.Metadata(); err == nil && (!ok || m.Size != int64(len(v.data)) || m.ETag != v.etag || m.LastModified != v.lm) {
							s.Fail("wrong-metadata", "after Probe: %+v %v", m, ok)
						}
						continue
					}
					off, size := w.drawRead(rr)
					if s.Chance(vsim.SOps, 0.5) {
						off = pos
					}
					rec, ok := u.read(rr, off, size, never)
					if !ok {
						return
					}
					if rec.off == pos {
						pos += int64(rec.n)
					}
				}
			})
		}
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		w.budget = 0
		s.Go("after", func() {
			// the whole view again, with nothing misbehaving
			var out []byte
			p := make([]byte, 1+s.Draw(vsim.SOps, 20))
			view := rr.view(v)
			for {
				n, err := rr.r.ReadAt(p, int64(len(out)))
				out = append(out, p[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					if w.fired > 0 && rr.lane && s.Chance(vsim.SOps, 0) {
						continue
					}
					// a stream opened while faults were injected may still break once
					if rr.lane && w.fired > 0 {
						w.fired = 0
						continue
					}
					s.Fail("fault-lingers", "reading at %d after the faults stopped: %v", len(out), err)
					return
				}
				if len(out) > len(view) {
					break
				}
			}
			if !bytes.Equal(out, view) {
				s.Fail("wrong-bytes", "after the faults stopped the view reads %v, want %v", out, view)
			}
		})
		s.Run()
		s.State(fmt.Sprint(w.fired, len(w.net.Bodies)))
		w.finish(rr)
	},
}

var rangeLane = &Scenario{
	Name: "range-lane",
	Doc:  "a sequential view read in order by one task, out of order by others, and closed or cancelled by another at any instant, over a network that stalls and breaks; requests counted, blocked reads end, one close per body, nothing left running",
	Run: func(s *vsim.Sim) {
		s.Configure()
		w, cfg := newRangeWorld(s, 1)
		end := s.Draw(vsim.SOps, 4) // 0 nobody, 1 Close, 2 cancel, 3 both
		if s.Chance(vsim.SCfg, 0.6) {
			w.p, w.budget = []float64{0.05, 0.2}[s.Draw(vsim.SCfg, 2)], 1+s.Draw(vsim.SCfg, 3)
			w.stalls = end > 0
		}
		v := w.vers[0]
		if s.Chance(vsim.SOps, 0.3) {
			cfg.PriorKnowledge = httprange.Metadata{Size: int64(len(v.data))}
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		rr := w.open(ctx, cfg, true)
		if rr == nil {
			return
		}
		view := rr.view(v)
		u := &used{w: w, ver: -1}
		if len(v.data) > 0 {
			u.ver = 0
		}
		probeCtx, probeCancel := context.WithCancel(context.Background())
		defer probeCancel()
		probeEnded := false
		probes := s.Chance(vsim.SOps, 0.3)
		w.probeStalls = probes || end > 0
		ended, endedReturned := false, false
		released, jumped := false, false
		others := s.Draw(vsim.SOps, 3)
		hops := 1
		if w.redirect {
			hops = 2
		}
		s.Go("inorder", func() {
			pos := int64(0)
			for k := 3 + s.Draw(vsim.SOps, 9); k > 0 && !s.Failed(); k-- {
				vsim.Yield(vsim.KOp, 2)
				was := endedReturned
				off := pos
				if others == 0 && s.Chance(vsim.SOps, 0.05) {
					off = int64(s.Draw(vsim.SOps, len(view)+1))
				}
				reqs := w.net.Requests
				rec, ok := u.read(rr, off, 1+s.Draw(vsim.SOps, 13), func() bool { return ended })
				if !ok {
					return
				}
				if off != pos {
					if w.net.Requests > reqs {
						released = true
					}
					jumped = true
				} else if rec.err != nil {
					released = true
					if n := w.openStreams(); n > 0 && others == 0 && !jumped && !ended {
						s.Fail("body-kept", "the stream ended with %v and its response is still open", rec.err)
						return
					}
				}
				if was && (rec.n > 0 || rec.err == nil) {
					s.Fail("read-after-close", "a read begun after the end of the session returned %d, %v", rec.n, rec.err)
					return
				}
				if off == pos {
					pos += int64(rec.n)
				}
				if w.fired == 0 && others == 0 && !ended && !jumped && w.net.Requests > hops {
					s.Fail("second-request", "%d requests for reads in order", w.net.Requests/hops)
					return
				}
				if rec.err == io.EOF && off == pos-int64(rec.n) {
					break
				}
			}
			if w.fired == 0 && others == 0 && !ended && pos == int64(len(view)) {
				s.Probe("read-through-by-one-request")
			}
		})
		for t := others; t > 0; t-- {
			s.Go("other"+itoa(t), func() {
				for k := 1 + s.Draw(vsim.SOps, 4); k > 0 && !s.Failed(); k-- {
					vsim.Yield(vsim.KOp, 3)
					was := endedReturned
					if s.Chance(vsim.SOps, 0.15) {
						w.probe(rr, probeCtx, was, func() bool { return ended || probeEnded })
						continue
					}
					off, size := w.drawRead(rr)
					rec, ok := u.read(rr, off, size, func() bool { return ended })
					if !ok {
						return
					}
					if was && (rec.n > 0 || rec.err == nil && size > 0) {
						s.Fail("read-after-close", "a read begun after the end of the session returned %d, %v", rec.n, rec.err)
						return
					}
				}
			})
		}
		if probes {
			s.Go("probe-ender", func() {
				for k := s.Draw(vsim.SOps, 40); k > 0; k-- {
					vsim.Yield(vsim.KOp, 5)
				}
				probeEnded = true
				s.Fault("probe-cancelled")
				probeCancel()
			})
		}
		if end > 0 {
			s.Go("ender", func() {
				for k := s.Draw(vsim.SOps, 40); k > 0; k-- {
					vsim.Yield(vsim.KOp, 4)
				}
				ended = true
				s.Fault("session-ended")
				if end&2 != 0 {
					cancel()
				}
				if end&1 != 0 {
					if err := rr.r.Close(); err != nil {
						s.Fail("spurious-error", "Close: %v", err)
					}
					if n := w.openStreams(); n > 0 {
						s.Fail("body-open-after-close", "Close returned with the stream's response still open")
					}
				}
				endedReturned = true
				s.Logf("ended")
			})
		}
		s.Run()
		s.State(fmt.Sprint(w.fired, w.net.Requests, end))
		if s.Failed() || s.Stuck != "" {
			return
		}
		s.Settle()
		if n := w.openStreams(); n > 0 && others == 0 && released {
			s.Fail("body-kept", "the stream serves nothing any more and its response is still open")
			return
		}
		w.finish(rr)
	},
}

// openStreams counts responses to streaming requests not closed yet.
func (w *rangeWorld) openStreams() int {
	n := 0
	for _, b := range w.net.Bodies {
		if b.Marked() && b.Closed == 0 {
			n++
		}
	}
	return n
}

// probe probes while others may end the session or the probe.
func (w *rangeWorld) probe(rr *rangeReader, ctx context.Context, was bool, loose func() bool) {
	s := w.s
	sr := &seenResp{want: -1, probe: true}
	w.last[s.CurName()] = sr
	pre := loose()
	err := rr.r.Probe(ctx)
	s.Logf("Probe -> %v", err)
	if err == nil && was {
		s.Fail("read-after-close", "a probe begun after the end of the session succeeded")
	}
	if err != nil && !sr.bad && !pre && !loose() {
		s.Fail("spurious-error", "Probe: %v", err)
	}
}

// discloses returns the secret an error or anything it wraps gives away.
func discloses(err error) string {
	if err == nil {
		return ""
	}
	text := err.Error()
	var ue *url.Error
	if e, ok := err.(*url.Error); ok {
		ue = e
		text += " " + ue.URL
	}
	for _, x := range secrets {
		if strings.Contains(text, x) {
			return fmt.Sprintf("%q in %T %q", x, err, text)
		}
	}
	switch e := err.(type) {
	case interface{ Unwrap() error }:
		return discloses(e.Unwrap())
	case interface{ Unwrap() []error }:
		for _, x := range e.Unwrap() {
			if d := discloses(x); d != "" {
				return d
			}
		}
	}
	return ""
}

var rangeSecrets = &Scenario{
	Name: "range-secrets",
	Doc:  "every request of probes, bounded reads and streams failing at every stage with errors that quote the URL as clients and transports do, also after redirects with credentials of their own; no error text or unwrapped error may hold a secret",
	Run: func(s *vsim.Sim) {
		s.Configure()
		w, cfg := newRangeWorld(s, 1+s.Draw(vsim.SOps, 2))
		w.secretErrs = true
		w.p, w.budget = []float64{0.1, 0.3, 0.6}[s.Draw(vsim.SCfg, 3)], 20
		wrap := s.Draw(vsim.SOps, 3)
		in := cfg.Client
		cfg.Client = doerFunc(func(r *http.Request) (*http.Response, error) {
			resp, err := in.Do(r)
			if err != nil && wrap == 1 {
				err = &url.Error{Op: "Get", URL: r.URL.String(), Err: err}
			}
			if err != nil && wrap == 2 {
				err = fmt.Errorf("doer: %w", err)
			}
			return resp, err
		})
		if s.Chance(vsim.SOps, 0.05) {
			for _, bad := range []string{"ftp://" + secretUser + ":" + secretPass + "@h/x?sig=" + secretTok, "https:///x?sig=" + secretTok, "https://h/%zz?sig=" + secretTok, "https://" + secretUser + ":" + secretPass + "@h/\x7f"} {
				_, err := httprange.New(context.Background(), bad, cfg)
				if err == nil {
					s.Fail("bad-url-accepted", "%s", bad)
					return
				}
				if d := discloses(err); d != "" {
					s.Fail("secret-disclosed", "New: %s", d)
					return
				}
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		rr := w.open(ctx, cfg, s.Chance(vsim.SOps, 0.5))
		if rr == nil {
			return
		}
		s.Go("reader", func() {
			pos := int64(0)
			for k := 3 + s.Draw(vsim.SOps, 6); k > 0; k-- {
				vsim.Yield(vsim.KOp, 2)
				var err error
				what := "ReadAt"
				switch {
				case s.Chance(vsim.SOps, 0.2):
					what = "Probe"
					pctx, pc := context.WithCancel(ctx)
					if s.Chance(vsim.SOps, 0.3) {
						pc()
						pctx, pc = context.WithTimeoutCause(ctx, -1, nil)
					} else if s.Chance(vsim.SOps, 0.5) {
						s.Go("canceller"+itoa(k), func() {
							for j := s.Draw(vsim.SOps, 5); j > 0; j-- {
								vsim.Yield(vsim.KOp, 6)
							}
							pc()
						})
					}
					err = rr.r.Probe(pctx)
					pc()
				case s.Chance(vsim.SOps, 0.05):
					cancel()
					continue
				case s.Chance(vsim.SOps, 0.1):
					w.cur = s.Draw(vsim.SOps, len(w.vers))
					continue
				default:
					off, size := w.drawRead(rr)
					if s.Chance(vsim.SOps, 0.6) {
						off = pos
					}
					var n int
					n, err = rr.r.ReadAt(make([]byte, size), off)
					if off == pos {
						pos += int64(n)
					}
				}
				s.Logf("%s -> %v", what, err)
				if d := discloses(err); d != "" {
					s.Fail("secret-disclosed", "%s: %s", what, d)
					return
				}
				if ctx.Err() != nil && err != nil && err != io.EOF && !errors.Is(err, context.Canceled) {
					s.Probe("other-error-after-cancel")
				}
				if err != nil {
					s.State(fmt.Sprintf("%s %T", what, err))
				}
			}
			_ = rr.r.Close()
		})
		s.Run()
	},
}

func init() {
	real := []string{"stream/httprange", "net/http.Client (redirects, error wrapping) in most runs"}
	stub := []string{"HTTP transport, servers and connections (simhttp)"}
	as := []string{"versions differ in something the server states in every answer (validator, size or origin)", "what a first answer says about the object's size is true"}
	register(&Check{Property: "P10", Quick: 800000, Thorough: 40000000, Parts: []Part{{rangeChange, 1}}, Real: real, Stub: stub, Assumptions: as})
	register(&Check{Property: "P11", Quick: 800000, Thorough: 40000000, Parts: []Part{{rangeExact, 1}}, Real: real, Stub: stub, Assumptions: as})
	register(&Check{Property: "P12", Quick: 800000, Thorough: 40000000, Parts: []Part{{rangeLane, 1}}, Real: real, Stub: stub, Assumptions: as})
	register(&Check{Property: "P13", Quick: 800000, Thorough: 40000000, Parts: []Part{{rangeSecrets, 2}, {fileserverSecrets, 1}}, Real: append(real, "stream/fileserver.HTTPClient"), Stub: stub,
		Assumptions: []string{"secrets reach errors through URL errors, as net/http and its users build them"}})
}
