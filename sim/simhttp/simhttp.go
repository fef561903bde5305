// Package simhttp is the simulated network: an http.RoundTripper whose every
// request, response and body byte goes through the simulator, and which breaks
// them the ways real servers and connections do.
package simhttp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"

	"verif.local/sim/vsim"
)

// Answer is what a server does with one request.
type Answer struct {
	// Err is a transport error in place of a response.
	Err error
	// StallHead never answers; only cancellation ends the request.
	StallHead bool

	Status int
	Header http.Header
	Body   []byte
	// Unsized hides the length (chunked transfer).
	Unsized bool
	// Length overrides the announced length when not 0.
	Length int64
	// CutAt ends the body after that many bytes (-1: never): with CutErr, or
	// with a clean end of data if CutErr is nil.
	CutAt  int
	CutErr error
	// StallAt stops delivering after that many bytes (-1: never) until the
	// request is cancelled or the body closed.
	// Endless: the body goes on and on after Body.
	Endless bool
	StallAt int
	// Uncompressed is what net/http sets when it decoded the body itself.
	Uncompressed bool
	// NoRequest leaves Response.Request empty, as some Doers do.
	NoRequest bool
	// Short hands the body out in small pieces, EOF with the last one or after.
	Short bool
	// Mark is for the scenario.
	Mark bool
	// CloseErr is what closing the body reports.
	CloseErr error
}

// NewAnswer is a plain answer.
func NewAnswer(status int, body []byte) *Answer {
	return &Answer{Status: status, Header: http.Header{}, Body: body, CutAt: -1, StallAt: -1}
}

// Net is the network and every server on it.
type Net struct {
	S *vsim.Sim
	// Handle answers a request; body is the full request body or nil.
	Handle func(req *http.Request) *Answer
	// Bodies are all response bodies handed out.
	Bodies   []*Body
	Requests int
	// InFlight counts round trips that have not returned.
	InFlight int
	// Late counts requests that were started with an already cancelled context.
	Late int
}

// EndlessLimit is how much of an endless body may be read.
const EndlessLimit = 4 << 20

// ErrReset is a broken connection.
var ErrReset = errors.New("read tcp 192.0.2.1:443: connection reset by peer")

// Body is one response body.
type Body struct {
	net     *Net
	ctx     context.Context
	a       *Answer
	pos     int
	Closed  int
	Label   string
	reading int
	// Stalled is set while a reader is blocked in it.
	Stalled bool
	// AfterClose counts reads after Close.
	AfterClose int
	// Delivered counts bytes handed out.
	Delivered int
}

// RoundTrip implements http.RoundTripper.
func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	n.Requests++
	n.InFlight++
	defer func() { n.InFlight-- }()
	if req.Body != nil {
		defer req.Body.Close()
	}
	vsim.Yield(vsim.KIO, 0xd2000000)
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		n.Late++
		return nil, err
	}
	if n.S.Dead() {
		return nil, ErrReset
	}
	a := n.Handle(req)
	vsim.Yield(vsim.KIO, 0xd2000001)
	if a.StallHead {
		n.S.Fault("stalled-request")
		vsim.Block("a response that never comes", func() bool { return ctx.Err() != nil || n.S.Dead() })
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	h := a.Header.Clone()
	if h == nil {
		h = http.Header{}
	}
	resp := &http.Response{
		Status: fmt.Sprintf("%d %s", a.Status, http.StatusText(a.Status)), StatusCode: a.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, ContentLength: int64(len(a.Body)), Request: req, Uncompressed: a.Uncompressed,
	}
	if a.NoRequest {
		resp.Request = nil
	}
	if a.Unsized {
		resp.ContentLength = -1
	}
	if a.Length != 0 {
		resp.ContentLength = a.Length
	}
	if req.Method == http.MethodHead || a.Status == 204 || a.Status == 304 {
		resp.Body = http.NoBody
		return resp, nil
	}
	b := &Body{net: n, ctx: ctx, a: a, Label: req.Header.Get("Range")}
	n.Bodies = append(n.Bodies, b)
	resp.Body = b
	return resp, nil
}

// Read implements io.Reader.
func (b *Body) Read(p []byte) (int, error) {
	b.reading++
	defer func() { b.reading-- }()
	vsim.Yield(vsim.KIO, 0xd2000010)
	s := b.net.S
	if s.Dead() {
		return 0, ErrReset
	}
	if b.Closed > 0 {
		b.AfterClose++
		return 0, http.ErrBodyReadAfterClose
	}
	if len(p) == 0 {
		return 0, nil
	}
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	a := b.a
	if a.StallAt >= 0 && b.pos >= a.StallAt && b.pos < len(a.Body) {
		s.Fault("stalled-body")
		b.Stalled = true
		vsim.Block("body bytes that never come", func() bool { return b.ctx.Err() != nil || b.Closed > 0 || s.Dead() })
		b.Stalled = false
		if err := b.ctx.Err(); err != nil {
			return 0, err
		}
		return 0, http.ErrBodyReadAfterClose
	}
	if a.Endless && b.pos >= len(a.Body) {
		b.pos += len(p)
		b.Delivered += len(p)
		s.Faults["endless-body"]++
		if b.pos > len(a.Body)+EndlessLimit {
			s.Fail("endless", "more than %d bytes were read of a body that goes on after the %d that were asked for", EndlessLimit, len(a.Body))
			return 0, ErrReset
		}
		clear(p)
		return len(p), nil
	}
	end, endErr := len(a.Body), io.EOF
	if a.Endless {
		endErr = nil
	}
	if a.CutAt >= 0 && a.CutAt <= end {
		end = a.CutAt
		if a.CutErr != nil {
			endErr = a.CutErr
		}
	}
	if a.StallAt >= 0 && a.StallAt < end && a.StallAt < len(a.Body) {
		end = a.StallAt
		endErr = nil
	}
	n := min(len(p), end-b.pos)
	with := false
	if a.Short {
		if n > 1 && s.Draw(vsim.SFault, 4) > 0 {
			n = 1 + s.Draw(vsim.SFault, n)
			s.Faults["short-read"]++
		}
		with = s.Draw(vsim.SFault, 2) == 1
	}
	copy(p, a.Body[b.pos:b.pos+n])
	b.pos += n
	b.Delivered += n
	if b.pos >= end && endErr != nil && (n == 0 || with) {
		if endErr != io.EOF {
			s.Fault("connection-broken")
		} else if end < len(a.Body) {
			s.Fault("body-truncated")
		}
		return n, endErr
	}
	if n == 0 {
		return 0, nil
	}
	return n, nil
}

// Close implements io.Closer.
func (b *Body) Close() error {
	vsim.Yield(vsim.KIO, 0xd2000011)
	b.Closed++
	if b.Closed == 1 {
		return b.a.CloseErr
	}
	return nil
}

// Marked tells whether the answer was marked.
func (b *Body) Marked() bool { return b.a.Mark }

// Leaked lists bodies never closed.
func (n *Net) Leaked() []string {
	var out []string
	for _, b := range n.Bodies {
		if b.Closed == 0 {
			out = append(out, b.Label)
		}
	}
	return out
}

// RequestBody reads up to limit bytes of a request body (limit < 0: all) and
// checks it against the announced length the way the real transport does.
func RequestBody(req *http.Request, limit int64) ([]byte, error) {
	if req.Body == nil {
		if req.ContentLength > 0 {
			return nil, fmt.Errorf("http: ContentLength=%d with nil Body", req.ContentLength)
		}
		return nil, nil
	}
	var buf bytes.Buffer
	var err error
	if limit >= 0 {
		_, err = io.CopyN(&buf, req.Body, limit)
		if err == io.EOF {
			err = nil
		}
		return buf.Bytes(), err
	}
	_, err = io.Copy(&buf, req.Body)
	if err != nil {
		return buf.Bytes(), err
	}
	if req.ContentLength > 0 && int64(buf.Len()) != req.ContentLength {
		return buf.Bytes(), fmt.Errorf("http: ContentLength=%d with Body length %d", req.ContentLength, buf.Len())
	}
	return buf.Bytes(), nil
}
