package scen

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"

	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// life runs the tasks added so far and, if the world crashed, starts the next
// one: handles die, every lock and task is gone. It reports whether it crashed.
func life(s *vsim.Sim, disks ...*simfs.Disk) (crashed bool) {
	s.Run()
	if s.Failed() || s.Stuck != "" {
		return false
	}
	crashed = s.Dead()
	s.Reap()
	if crashed {
		s.Revive()
		for _, d := range disks {
			d.NextLife()
		}
	}
	return crashed
}

// pattern is content that shows where every byte came from.
func pattern(id, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + (id*7+i*3+i/26)%58)
		if i%5 == 0 {
			b[i] = byte('a' + id%26)
		}
	}
	return b
}

// errSource is what failing simulated sources report.
var errSource = errors.New("simulated source failure")

// sourceErr draws what a failing source reports: none of these is the end.
func sourceErr(s *vsim.Sim) error {
	return []error{errSource, errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, fmt.Errorf("%w: %w", errSource, fs.ErrClosed), io.ErrNoProgress}[s.Draw(vsim.SFault, 7)]
}

// closingErr draws what a failing close reports, unlike any other's.
func closingErr(s *vsim.Sim, i int) error {
	return fmt.Errorf("close %d failed: %w", i, []error{errSource, io.ErrClosedPipe, fs.ErrClosed, io.ErrUnexpectedEOF, io.EOF}[s.Draw(vsim.SOps, 5)])
}

// flakyReader delivers b in pieces the run decides and may fail or end early.
type flakyReader struct {
	s      *vsim.Sim
	b      []byte
	pos    int
	failAt int // -1: never
	eofAt  int // -1: at the end of b
	err    error
	short  bool
	// withData hands out the final error together with the last bytes
	withData bool
	// after an error, reads go on: 1 with the end, 2 with what follows
	after, failed int
	closed        int
	onRead        func(n int)
	closeErr      error
	name          string
}

func (r *flakyReader) Read(p []byte) (int, error) {
	vsim.Yield(vsim.KIO, 0xd1000000)
	if r.s.Dead() {
		return 0, simfs.ErrDead
	}
	if r.closed > 0 {
		r.s.Logf("%s: read after close", r.name)
		return 0, errors.New("read after close")
	}
	end := len(r.b)
	var endErr error = io.EOF
	if r.eofAt >= 0 && r.eofAt < end {
		end = r.eofAt
	}
	if r.failAt >= 0 && r.failAt <= end {
		end = r.failAt
		endErr = r.err
		if endErr == nil {
			endErr = errSource
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.failed > 0 {
		switch r.after {
		case 1:
			return 0, io.EOF
		case 2:
			end, endErr = len(r.b), io.EOF
			r.pos = min(r.pos+1, end) // a byte is lost
		}
	}
	n := min(len(p), end-r.pos)
	if r.short && n > 1 {
		k := r.s.Draw(vsim.SFault, 4)
		if k > 0 {
			n = 1 + r.s.Draw(vsim.SFault, n)
			r.s.Faults["short-read"]++
		}
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.onRead != nil {
		r.onRead(n)
	}
	if r.pos >= end && (n == 0 || r.withData) {
		if endErr != io.EOF {
			r.failed++
			r.s.Fault("source-read-error")
		} else if end < len(r.b) {
			r.s.Fault("source-early-eof")
		}
		return n, endErr
	}
	if n == 0 {
		return 0, endErr
	}
	return n, nil
}

func (r *flakyReader) Close() error {
	vsim.Yield(vsim.KIO, 0xd1000001)
	r.closed++
	return r.closeErr
}

func kinds(ks ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

// drawNames picks the three entry names of a run. Some of them are prefixes
// of each other, and some sort between a name and what lies under it.
func drawNames(s *vsim.Sim) []string {
	return [][]string{{"a", "b", "c"}, {"a", "ab", "b"}, {"a", "a.", "a0"}, {"a", "b", "a-b"}, {"a", "A", "aa"}}[s.Draw(vsim.SCfg, 5)]
}
