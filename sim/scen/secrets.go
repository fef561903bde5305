package scen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"

	"verif.local/sim/simhttp"
	"verif.local/sim/vsim"
)

var fileserverSecrets = &Scenario{
	Name: "fileserver-secrets",
	Doc:  "reads, queries, uploads and chunked transfers of the file server client, whose base URL holds credentials and which is redirected to URLs with others, with transport errors that quote the URL, refusals, stalls cut short by cancellation and base URLs that no request can be built from; no error text or unwrapped error may hold a secret",
	Run: func(s *vsim.Sim) {
		s.Configure()
		p := []float64{0.1, 0.3, 0.6}[s.Draw(vsim.SCfg, 3)]
		data := pattern(3, 24)
		hop := "https://" + secretUser2 + ":" + secretPass2 + "@mirror.example/o/data?sig=" + secretTok2 + "#" + secretFrag
		fault := func(kind string) bool {
			if !s.Chance(vsim.SFault, p) {
				return false
			}
			s.Fault(kind)
			return true
		}
		net := &simhttp.Net{S: s}
		net.Handle = func(req *http.Request) *simhttp.Answer {
			if fault("transport-error") {
				return &simhttp.Answer{Err: []error{simhttp.ErrReset, io.ErrUnexpectedEOF, io.EOF, context.DeadlineExceeded, errors.New("tls: handshake failure")}[s.Draw(vsim.SFault, 5)]}
			}
			if req.URL.Host != "mirror.example" && s.Chance(vsim.SOps, 0.3) {
				a := plainErr([]int{301, 302, 303, 307, 308}[s.Draw(vsim.SOps, 5)])
				a.Header.Set("Location", hop)
				return a
			}
			if req.URL.Host == "mirror.example" && fault("redirect-loop") {
				a := plainErr(302)
				a.Header.Set("Location", hop)
				return a
			}
			if fault("error-status") {
				return plainErr([]int{400, 403, 404, 410, 416, 500, 503}[s.Draw(vsim.SFault, 7)])
			}
			if fault("stalled") {
				return &simhttp.Answer{StallHead: true}
			}
			switch req.Method {
			case http.MethodHead:
				return simhttp.NewAnswer(200, data)
			case http.MethodPut:
				if _, err := simhttp.RequestBody(req, -1); err != nil {
					return &simhttp.Answer{Err: err}
				}
				return simhttp.NewAnswer(204, nil)
			}
			var from int
			fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-", &from)
			a := simhttp.NewAnswer(200, data[min(from, len(data)):])
			if from > 0 {
				a.Status = 206
				a.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, len(data)-1, len(data)))
			}
			if fault("body-cut") {
				a.CutAt, a.CutErr = s.Draw(vsim.SFault, len(a.Body)+1), simhttp.ErrReset
			}
			return a
		}
		base := &url.URL{Scheme: "https", User: url.UserPassword(secretUser, secretPass), Host: "files.example", Path: "/store/"}
		if s.Chance(vsim.SOps, 0.5) {
			base.RawQuery = "sig=" + secretTok
		}
		if s.Chance(vsim.SOps, 0.2) {
			base.Fragment = secretFrag
		}
		if s.Chance(vsim.SOps, 0.05) {
			// nothing can be asked for at this place
			base.Host = []string{"files.example:port", "files example", "[::1", "files.example\x7f"}[s.Draw(vsim.SOps, 4)]
			s.Fault("unusable-base")
		}
		cl := &http.Client{Transport: net}
		var doer fileserver.Doer = cl
		switch s.Draw(vsim.SOps, 4) {
		case 1:
			doer = doerFunc(func(r *http.Request) (*http.Response, error) {
				resp, err := cl.Do(r)
				if err != nil {
					err = fmt.Errorf("doer: %w", err)
				}
				return resp, err
			})
		case 2:
			// a client of its own, which reports the URL as it is
			doer = doerFunc(func(r *http.Request) (*http.Response, error) {
				resp, err := net.RoundTrip(r)
				if err != nil {
					err = &url.Error{Op: r.Method, URL: r.URL.String(), Err: err}
				}
				return resp, err
			})
		case 3:
			// one that cannot follow what it is redirected to
			doer = doerFunc(func(r *http.Request) (*http.Response, error) {
				resp, err := cl.Do(r)
				if err != nil {
					err = &url.Error{Op: r.Method, URL: "https://" + secretUser2 + ":" + secretPass2 + "@mirror.example/%zz?sig=" + secretTok2, Err: simhttp.ErrReset}
				}
				return resp, err
			})
		}
		c := &fileserver.HTTPClient{BaseURL: base, Client: doer}
		name := func(i int) string { return []string{"a", "b/c", "d%2F?x"}[i%3] }
		s.Go("user", func() {
			for k := 3 + s.Draw(vsim.SOps, 6); k > 0; k-- {
				vsim.Yield(vsim.KOp, 2)
				ctx, cancel := context.WithCancel(context.Background())
				s.Go("canceller"+itoa(k), func() {
					for j := 2 + s.Draw(vsim.SOps, 9); j > 0; j-- {
						vsim.Yield(vsim.KOp, 6)
					}
					cancel()
				})
				var err error
				what := ""
				switch s.Draw(vsim.SOps, 6) {
				case 0:
					what = "Stat"
					_, err = c.Stat(ctx, name(k))
				case 1:
					what = "Put"
					err = c.Put(ctx, name(k), int64(len(data)), strings.NewReader(string(data)))
				case 2:
					what = "Sink"
					sink := fileserver.NewChunkedSink(c, name, int64(len(data)), 9)
					if _, _, err = sink.State(ctx); err == nil {
						err = sink.Append(ctx, 0, strings.NewReader(string(data)))
					}
				case 3:
					what = "Source"
					src := fileserver.NewChunkedSource(c, name, int64(len(data)), 9)
					var r io.ReadCloser
					if r, err = src.Open(ctx, int64(s.Draw(vsim.SOps, len(data)))); err == nil {
						_, err = io.Copy(io.Discard, r)
						_ = r.Close()
					}
				default:
					what = "Get"
					var r io.ReadCloser
					if r, _, err = c.Get(ctx, name(k), int64(s.Draw(vsim.SOps, len(data)))); err == nil {
						_, err = io.Copy(io.Discard, r)
						_ = r.Close()
					}
				}
				cancel()
				s.Logf("%s -> %v", what, err)
				if d := discloses(err); d != "" {
					s.Fail("secret-disclosed", "%s: %s", what, d)
					return
				}
				if err != nil {
					s.State(fmt.Sprintf("%s %T", what, errors.Unwrap(err)))
				}
			}
		})
		s.Run()
	},
}
