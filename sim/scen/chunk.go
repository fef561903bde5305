package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"
	"verif.local/sim/simhttp"
	"verif.local/sim/vsim"
)

// objServer is a simulated object server: whole-object PUT, HEAD, ranged GET.
type objServer struct {
	s       *vsim.Sim
	objects map[string][]byte
	puts    map[string]int
	gets    int
	// p is the chance of misbehaviour per request while budget lasts.
	p      float64
	budget int
	fired  int
	// torn lets a broken upload leave the part that arrived.
	torn bool
	// wrong lists requests answered with something a checker must notice.
	header string
}

func (o *objServer) fault(kind string) bool {
	if o.budget <= 0 || !o.s.Chance(vsim.SFault, o.p) {
		return false
	}
	o.budget--
	o.fired++
	o.s.Fault(kind)
	return true
}

func plainErr(status int) *simhttp.Answer {
	return simhttp.NewAnswer(status, []byte("<html>error</html>"))
}

func (o *objServer) handle(req *http.Request) *simhttp.Answer {
	s := o.s
	parts := strings.Split(req.URL.EscapedPath(), "/")
	name, _ := url.PathUnescape(parts[len(parts)-1])
	s.Logf("%s %s %s", req.Method, name, req.Header.Get("Range"))
	if o.header != "" && req.Header.Get("Authorization") != o.header {
		return plainErr(401)
	}
	if o.fault("connection-refused") {
		return &simhttp.Answer{Err: errors.New("dial tcp: connection refused")}
	}
	if o.fault("error-status") {
		n := 7
		if req.Method == http.MethodGet {
			n = 10
		}
		return plainErr([]int{500, 503, 403, 429, 302, 304, 412, 204, 201, 202}[s.Draw(vsim.SFault, n)])
	}
	switch req.Method {
	case http.MethodPut:
		if o.fault("upload-broken") {
			n := s.Draw(vsim.SFault, int(max(req.ContentLength, 0))+1)
			b, _ := simhttp.RequestBody(req, int64(n))
			if o.torn {
				o.objects[name] = b
			}
			return &simhttp.Answer{Err: simhttp.ErrReset}
		}
		b, err := simhttp.RequestBody(req, -1)
		if err != nil {
			return &simhttp.Answer{Err: err}
		}
		if o.fault("upload-refused") {
			return plainErr(507)
		}
		o.objects[name] = append([]byte{}, b...)
		o.puts[name]++
		if o.fault("response-lost") {
			return &simhttp.Answer{Err: simhttp.ErrReset}
		}
		return simhttp.NewAnswer([]int{200, 201, 204}[s.Draw(vsim.SOps, 3)], nil)
	case http.MethodHead:
		b, ok := o.objects[name]
		if !ok {
			return plainErr([]int{404, 410}[s.Draw(vsim.SOps, 2)])
		}
		a := simhttp.NewAnswer(200, b)
		if o.fault("length-missing") {
			a.Unsized = true
		}
		return a
	case http.MethodGet:
		o.gets++
		b, ok := o.objects[name]
		if !ok || o.fault("object-missing") {
			return plainErr([]int{404, 410}[s.Draw(vsim.SOps, 2)])
		}
		off := 0
		ranged := false
		if r := req.Header.Get("Range"); r != "" {
			v, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(r, "bytes="), "-"))
			if err != nil {
				s.Fail("bad-request", "Range %q", r)
				return plainErr(400)
			}
			off, ranged = v, true
		}
		if off > 0 && off >= len(b) {
			a := plainErr(416)
			a.Header.Set("Content-Range", fmt.Sprintf("bytes */%d", len(b)))
			return a
		}
		if ranged && o.fault("range-ignored") {
			return simhttp.NewAnswer(200, b)
		}
		from := off
		if ranged && o.fault("other-range") {
			from = s.Draw(vsim.SFault, len(b))
		}
		a := simhttp.NewAnswer(200, b[from:])
		if ranged {
			a.Status = 206
			a.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, len(b)-1, len(b)))
			switch {
			case o.fault("range-missing"):
				a.Header.Del("Content-Range")
			case o.fault("range-malformed"):
				a.Header.Set("Content-Range", []string{"bytes", "bytes 1-2", "bytes 1-2/*", "bytes x-y/z"}[s.Draw(vsim.SFault, 4)])
			}
		}
		a.Short = s.Draw(vsim.SOps, 2) == 1
		a.Unsized = s.Draw(vsim.SOps, 3) == 1
		if o.fault("body-cut") {
			a.CutAt = s.Draw(vsim.SFault, len(a.Body)+1)
			if !a.Unsized || s.Draw(vsim.SFault, 2) == 0 {
				a.CutErr = []error{io.ErrUnexpectedEOF, simhttp.ErrReset}[s.Draw(vsim.SFault, 2)]
			}
		}
		return a
	}
	return plainErr(405)
}

// localSource produces the bytes to upload from an offset.
type localSource struct {
	s      *vsim.Sim
	data   []byte
	faulty bool
	fired  int
}

func (l *localSource) from(off int64) *flakyReader {
	r := &flakyReader{s: l.s, b: l.data[min(off, int64(len(l.data))):], failAt: -1, eofAt: -1, short: l.s.Chance(vsim.SOps, 0.5), withData: l.s.Chance(vsim.SOps, 0.5), name: "local"}
	if l.faulty && l.s.Chance(vsim.SFault, 0.25) {
		r.failAt = l.s.Draw(vsim.SFault, len(r.b)+1)
		l.fired++
	} else if l.faulty && l.s.Chance(vsim.SFault, 0.25) && len(r.b) > 0 {
		r.eofAt = l.s.Draw(vsim.SFault, len(r.b))
		l.fired++
	}
	return r
}

func chunkClient(s *vsim.Sim, o *objServer) (*fileserver.HTTPClient, *simhttp.Net) {
	net := &simhttp.Net{S: s, Handle: o.handle}
	base, _ := url.Parse("https://files.example/store/")
	c := &fileserver.HTTPClient{BaseURL: base, Client: &http.Client{Transport: net, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}}
	if s.Chance(vsim.SOps, 0.3) {
		o.header = "Bearer x"
		c.Header = http.Header{"Authorization": {o.header}}
	}
	return c, net
}

var chunkRoundTrip = &Scenario{
	Name: "chunk-round-trip",
	Doc:  "an object uploaded in chunks over several attempts (state, append, commit) to a server that fails, cuts and loses requests, with a local source that fails or ends early; then read back in several ways from a server that misbehaves; objects and bytes against the original",
	Run: func(s *vsim.Sim) {
		s.Configure()
		chunk := 1 + s.Draw(vsim.SOps, 9)
		size := s.Draw(vsim.SOps, 40)
		if s.Chance(vsim.SOps, 0.2) {
			size = chunk * s.Draw(vsim.SOps, 5)
		}
		data := pattern(2, size)
		o := &objServer{s: s, objects: map[string][]byte{}, puts: map[string]int{}, torn: s.Chance(vsim.SCfg, 0.4)}
		if s.Chance(vsim.SCfg, 0.7) {
			o.p = []float64{0.05, 0.15, 0.3}[s.Draw(vsim.SCfg, 3)]
		}
		loc := &localSource{s: s, data: data, faulty: s.Chance(vsim.SCfg, 0.4)}
		if s.Chance(vsim.SCfg, 0.2) {
			s.TempFail = func() error {
				if s.Chance(vsim.SFault, 0.1) {
					s.Fault("temp-file-error")
					o.fired++
					return &os.PathError{Op: "open", Path: "/tmp/x", Err: errors.New("no space left on device")}
				}
				return nil
			}
		}
		c, net := chunkClient(s, o)
		name := func(i int) string { return fmt.Sprintf("obj/%d", i) }
		nchunks := max(1, (size+chunk-1)/chunk)
		intact := func(i int) bool {
			lo, hi := i*chunk, min((i+1)*chunk, size)
			b, ok := o.objects[name(i)]
			return ok && bytes.Equal(b, data[lo:hi])
		}
		// checks every stored chunk of the right length holds the right bytes
		consistent := func() bool {
			for i := 0; i < nchunks; i++ {
				lo, hi := i*chunk, min((i+1)*chunk, size)
				if b, ok := o.objects[name(i)]; ok && len(b) == hi-lo && !bytes.Equal(b, data[lo:hi]) {
					s.Fail("wrong-chunk", "chunk %d holds %q, the object has %q there", i, b, data[lo:hi])
					return false
				}
			}
			return true
		}
		if s.Chance(vsim.SOps, 0.15) {
			// what an upload with other chunks, or a foreign one, left behind
			for k := 1 + s.Draw(vsim.SOps, 2); k > 0; k-- {
				i := s.Draw(vsim.SOps, nchunks)
				lo, hi := i*chunk, min((i+1)*chunk, size)
				switch s.Draw(vsim.SOps, 3) {
				case 0:
					hi = min(hi+1+s.Draw(vsim.SOps, chunk), size)
				case 1:
					hi -= s.Draw(vsim.SOps, hi-lo+1)
				}
				b := append([]byte{}, data[lo:hi]...)
				if s.Chance(vsim.SOps, 0.3) {
					b = append(b, "tail"[:1+s.Draw(vsim.SOps, 4)]...)
				}
				if want := min((i+1)*chunk, size) - lo; len(b) == want && !bytes.Equal(b, data[lo:lo+want]) {
					continue // a length like that stands for the right bytes
				}
				o.objects[name(i)] = b
				s.Logf("the server already has %d bytes as chunk %d", len(b), i)
			}
		}
		s.Go("transfer", func() {
			done := false
			for a := 0; a < 8 && !done && !s.Failed(); a++ {
				last := a == 7
				o.budget = 3
				if last {
					o.budget, loc.faulty, s.TempFail = 0, false, nil
				}
				lf := loc.fired
				of := o.fired
				ctx, cancel := context.WithCancel(context.Background())
				sink := fileserver.NewChunkedSink(c, name, int64(size), int64(chunk))
				off, complete, err := sink.State(ctx)
				s.Logf("state -> %d %v %v", off, complete, err)
				faulted := func() bool { return loc.fired > lf || o.fired > of }
				if err != nil {
					cancel()
					if !faulted() {
						s.Fail("spurious-error", "State: %v", err)
					}
					continue
				}
				pre := 0
				for pre < nchunks && intact(pre) {
					pre++
				}
				if complete && pre < nchunks {
					s.Fail("complete-too-early", "State says complete, chunk %d of %d is not stored", pre, nchunks)
				}
				if !complete && (off%int64(chunk) != 0 || off != int64(pre*chunk)) {
					s.Fail("wrong-resume-point", "State says %d, %d chunks of %d are stored", off, pre, chunk)
				}
				if s.Failed() {
					cancel()
					return
				}
				if !complete {
					if s.Chance(vsim.SOps, 0.1) && !last {
						k := s.Draw(vsim.SOps, 20)
						s.Go("canceller", func() {
							for ; k > 0; k-- {
								vsim.Yield(vsim.KOp, 9)
							}
							o.fired++
							s.Fault("cancel")
							cancel()
						})
					}
					before := map[string]int{}
					for k, v := range o.puts {
						before[k] = v
					}
					gets := o.gets
					err = sink.Append(ctx, off, loc.from(off))
					s.Logf("append@%d -> %v", off, err)
					for i := 0; i < pre; i++ {
						if o.puts[name(i)] != before[name(i)] {
							s.Fail("chunk-repeated", "resuming at %d stored chunk %d again", off, i)
						}
					}
					_ = gets
					for _, f := range s.TempFiles {
						if _, e := os.Lstat(f); e == nil {
							s.Fail("temp-file-left", "Append left %s behind (result %v)", f, err)
							_ = os.Remove(f)
						}
					}
					s.TempFiles = nil
					if err == nil {
						for i := 0; i < nchunks; i++ {
							if !intact(i) {
								s.Fail("success-without-chunk", "Append reported success, chunk %d of %d is %q", i, nchunks, o.objects[name(i)])
							}
						}
						if e := sink.Commit(ctx); e != nil {
							s.Fail("spurious-error", "Commit: %v", e)
						}
					} else if !faulted() {
						s.Fail("spurious-error", "Append: %v", err)
					}
				}
				cancel()
				if !consistent() || s.Failed() {
					return
				}
				done = complete || err == nil
			}
			if s.Failed() {
				return
			}
			if !done {
				s.Fail("no-progress", "the upload never completes although the last attempt met no fault")
				return
			}
			if s.Chance(vsim.SOps, 0.1) && nchunks > 1 {
				i := s.Draw(vsim.SOps, nchunks)
				n := s.Draw(vsim.SOps, len(o.objects[name(i)])+1)
				if n < len(o.objects[name(i)]) {
					o.objects[name(i)] = o.objects[name(i)][:n]
					s.Fault("chunk-truncated-at-server")
					o.fired++
				}
			}
			truncated := false
			for i := 0; i < nchunks; i++ {
				truncated = truncated || !intact(i)
			}
			o.fired = 0
			for k := 1 + s.Draw(vsim.SOps, 3); k > 0 && !s.Failed(); k-- {
				o.budget = 3
				readBack(s, o, fileserver.NewChunkedSource(c, name, int64(size), int64(chunk)), data, truncated, nchunks, chunk)
			}
			if l := net.Leaked(); len(l) > 0 && !s.Failed() {
				s.Fail("body-leak", "%d response bodies never closed: %v", len(l), l)
			}
		})
		s.Run()
		s.State(fmt.Sprint(o.fired, nchunks, net.Requests))
	},
}

func readBack(s *vsim.Sim, o *objServer, src *fileserver.ChunkedSource, data []byte, truncated bool, nchunks, chunk int) {
	size := len(data)
	off := s.Draw(vsim.SOps, size+1)
	if s.Chance(vsim.SOps, 0.05) {
		off = []int{-1, size + 1}[s.Draw(vsim.SOps, 2)]
	}
	before := o.fired
	gets := o.gets
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rc, err := src.Open(ctx, int64(off))
	if off < 0 || off > size {
		if err == nil {
			s.Fail("bad-offset", "Open at %d of %d succeeded", off, size)
		}
		return
	}
	if err != nil {
		s.Fail("spurious-error", "Open at %d of %d: %v", off, size, err)
		return
	}
	out := append([]byte{}, data[:off]...)
	seeker, canSeek := rc.(io.Seeker)
	idle := 0
	for try := 0; try < 60; try++ {
		var b []byte
		var err error
		if s.Chance(vsim.SOps, 0.3) {
			b, err = io.ReadAll(rc)
			if err == nil {
				err = io.EOF
			}
		} else {
			p := make([]byte, 1+s.Draw(vsim.SOps, 13))
			var n int
			n, err = rc.Read(p)
			b = p[:n]
		}
		s.Logf("read -> %d %v", len(b), err)
		out = append(out, b...)
		if !bytes.HasPrefix(data, out) {
			s.Fail("wrong-bytes", "read %q from %d, the object has %q", out[off:], off, data[off:])
			break
		}
		if err == io.EOF {
			if len(out) != size {
				s.Fail("clean-end-too-early", "clean end at %d of %d", len(out), size)
			}
			break
		}
		if err != nil {
			if o.fired == before && !truncated {
				s.Fail("spurious-error", "reading from %d: %v", off, err)
				break
			}
			if s.Chance(vsim.SOps, 0.5) {
				break // give up
			}
			if errors.Is(err, fs.ErrNotExist) {
				s.Probe("missing-chunk")
			}
		}
		if len(b) == 0 && err == nil {
			if idle++; idle > 8 && o.fired == before && !truncated {
				s.Fail("no-bytes", "neither bytes nor an error")
				break
			}
		}
		if canSeek && s.Chance(vsim.SOps, 0.1) {
			// a relative seek of nothing must change nothing
			if _, err := seeker.Seek(0, io.SeekCurrent); err != nil {
				s.Fail("bad-seek", "%v", err)
				break
			}
		}
	}
	if o.fired == before && !truncated && len(out) == size && off < size {
		want := nchunks - off/chunk
		if o.gets-gets > want && !canSeek {
			s.Fail("too-many-requests", "%d requests for %d chunks", o.gets-gets, want)
		}
	}
	if err := rc.Close(); err != nil {
		s.Fail("spurious-error", "Close: %v", err)
	}
}

func init() {
	register(&Check{Property: "P08", Quick: 200000, Thorough: 8000000, Parts: []Part{{chunkRoundTrip, 1}},
		Real:        []string{"stream/fileserver (chunk, client)", "stream (multi_read_at_closer, seq_reader_at)", "net/http.Client above the transport", "temporary files on the real disk"},
		Stub:        []string{"HTTP transport and server (simhttp)", "the local source"},
		Assumptions: []string{"chunk names are content-addressed: the same name always stands for the same bytes", "a server that states a length or range truthfully states it for the object it holds"}})
}
