package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

type version struct {
	etag string
	data []byte
}

func drawVersions(s *vsim.Sim, n int) []version {
	tags := []string{"v1", "v12", "sha256:aa", "sha256:ab"}
	var vs []version
	size := s.Draw(vsim.SOps, 50)
	for i := 0; i < n; i++ {
		switch s.Draw(vsim.SOps, 3) {
		case 1:
			size = s.Draw(vsim.SOps, 50)
		case 2:
			if s.Chance(vsim.SOps, 0.3) {
				size = 0
			}
		}
		vs = append(vs, version{tags[i], pattern(i, size)})
	}
	return vs
}

// whole finds the version b is the complete content of.
func whole(vs []version, b []byte) int {
	for i, v := range vs {
		if bytes.Equal(v.data, b) {
			return i
		}
	}
	return -1
}

func rawFile(d *simfs.Disk, name string) ([]byte, bool) {
	b, err := fsop.ReadFile(d.Plain(), name)
	if err != nil {
		return nil, false
	}
	return b, true
}

// pullSource is the simulated remote of a download.
type pullSource struct {
	s        *vsim.Sim
	v        version
	noTag    bool
	noSize   bool
	openFail bool
	failAt   int
	eofAt    int
	excess   int
	short    bool
	opens    []int64
	readers  []*flakyReader
	onOpen   func(off int64)
	wrongLen int64
	err      error
}

func (p *pullSource) Open(ctx context.Context, off int64) (io.ReadCloser, fsutil.ContentInfo, error) {
	vsim.Yield(vsim.KIO, 0xd1000010)
	if p.s.Dead() {
		return nil, fsutil.ContentInfo{}, simfs.ErrDead
	}
	p.opens = append(p.opens, off)
	if p.onOpen != nil {
		p.onOpen(off)
	}
	p.s.Logf("source open @%d (%s)", off, p.v.etag)
	if p.openFail {
		p.openFail = false
		p.s.Fault("source-open-error")
		return nil, fsutil.ContentInfo{}, sourceErr(p.s)
	}
	var b []byte
	if off <= int64(len(p.v.data)) {
		b = p.v.data[off:]
	}
	if p.excess > 0 {
		b = append(append([]byte{}, b...), pattern(40, p.excess)...)
		p.s.Fault("source-excess-bytes")
	}
	r := &flakyReader{s: p.s, b: b, failAt: -1, eofAt: -1, err: p.err, short: p.short, name: "source", withData: p.short}
	if p.failAt >= 0 {
		r.failAt = max(0, p.failAt-int(off))
	}
	if p.eofAt >= 0 {
		r.eofAt = max(0, p.eofAt-int(off))
	}
	p.readers = append(p.readers, r)
	info := fsutil.ContentInfo{ETag: p.v.etag, Size: int64(len(p.v.data)) + p.wrongLen}
	if p.wrongLen != 0 {
		p.s.Fault("source-wrong-length")
	}
	if p.noTag {
		info.ETag = ""
	}
	if p.noSize {
		info.Size = -1
	}
	return r, info, nil
}

var diskKinds = []string{"open", "create", "read", "write", "close", "stat", "lstat", "fstat", "rename", "remove", "truncate", "seek"}

func drawDiskFaults(s *vsim.Sim, d *simfs.Disk, p float64) {
	d.Plan = &simfs.Plan{Sim: s, CloseLoses: true}
	if s.Chance(vsim.SCfg, p) {
		d.Plan.Kinds = kinds(diskKinds...)
		d.Plan.MeanGap = float64([]int{3, 8, 20}[s.Draw(vsim.SCfg, 3)])
		d.Plan.Max = 1 + s.Draw(vsim.SCfg, 2)
		d.Plan.ShortWrites = true
		d.Plan.AfterEffect = s.Chance(vsim.SCfg, 0.3)
	}
	if s.Chance(vsim.SCfg, 0.3) {
		d.Plan.ShortReads = 0.5
	}
}

// pullHistory: a download attempted several times under changing versions,
// failing disk and source, cancellation and crashes.
var pullHistory = &Scenario{
	Name: "pull-history",
	Doc:  "2-6 attempts of one Pull with source changes, source failures (open, read, early end, excess bytes, wrong length), failing disk operations, cancellation and crashes between and inside attempts; after every attempt the final name is checked, and the resume point when nothing changed",
	Run: func(s *vsim.Sim) {
		s.Configure()
		d := simfs.New("local")
		nv := 1 + s.Draw(vsim.SOps, 3)
		vs := drawVersions(s, nv)
		noTag := nv == 1 && s.Chance(vsim.SOps, 0.5)
		noSize := s.Chance(vsim.SOps, 0.15)
		realSrc := s.Chance(vsim.SOps, 0.3)
		remote := simfs.New("remote")
		name := "f"
		lieLen := s.Chance(vsim.SCfg, 0.5)
		cur := s.Draw(vsim.SOps, nv)
		first := cur
		// bytes were added to what is stored when its version was known
		tagged := false
		attempts := 2 + s.Draw(vsim.SOps, 5)
		// a source of several versions that shows its tag only from one attempt
		// on, or only to the caller, who then always expects it
		lateTags, silent := 0, false
		if !noTag && s.Chance(vsim.SOps, 0.3) {
			if silent = s.Chance(vsim.SOps, 0.5); !silent {
				lateTags = 1 + s.Draw(vsim.SOps, attempts)
			}
			// stored bytes may here be without a record when it is written: one
			// cut short must not read as another version's tag
			for i := range vs {
				vs[i].etag = string(rune('p'+i)) + vs[i].etag
			}
		}
		for a := 0; a < attempts; a++ {
			if a >= lateTags && s.Chance(vsim.SOps, 0.25) {
				cur = s.Draw(vsim.SOps, nv)
			}
			lastTry := a == attempts-1
			drawDiskFaults(s, d, 0.35)
			d.Plan.ShortOK = name + ".part"
			if s.Chance(vsim.SOps, 0.3) {
				d.Plan.CrashMean = float64([]int{3, 8, 20}[s.Draw(vsim.SOps, 3)])
			}
			src := &pullSource{s: s, v: vs[cur], noTag: noTag || a < lateTags || silent && s.Chance(vsim.SOps, 0.5), noSize: noSize, failAt: -1, eofAt: -1, short: s.Chance(vsim.SOps, 0.6)}
			n := len(vs[cur].data)
			sourceFault := false
			if s.Chance(vsim.SOps, 0.5) && !lastTry {
				sourceFault = true
				switch k := s.Draw(vsim.SOps, 5); {
				case k == 0:
					src.openFail = true
				case k == 1 && !noSize:
					src.eofAt = s.Draw(vsim.SOps, n+1)
				case k == 2 && !noSize && !lieLen:
					src.excess = 1 + s.Draw(vsim.SOps, 5)
				case k == 3 && !noSize && lieLen:
					src.wrongLen = int64(1 + s.Draw(vsim.SOps, 5))
				default:
					src.failAt = s.Draw(vsim.SOps, n+1)
					src.err = sourceErr(s)
				}
			}
			_, hadFinal := rawFile(d, name)
			finalBefore, _ := rawFile(d, name)
			part, hadPart := rawFile(d, name+".part")
			side, _ := rawFile(d, name+".part.etag")
			exp := fsutil.ContentInfo{Size: -1}
			want := cur
			if s.Chance(vsim.SOps, 0.2) && !silent {
				want = s.Draw(vsim.SOps, nv)
			}
			// what was stored without a tag is believed to be what is expected
			if len(part) == 0 {
				tagged = false
			}
			anon := !tagged && lateTags > 0 && (a < lateTags || len(part) > 0 && len(side) == 0 && (cur != first || want != first))
			if silent || s.Chance(vsim.SOps, 0.5) && !noTag && !anon {
				exp.ETag = vs[want].etag
			}
			if s.Chance(vsim.SOps, 0.5) {
				exp.Size = int64(len(vs[want].data))
			}
			opt := fsutil.ResumableCopyOption[*simfs.Disk, vroot.File]{BufSize: []int{0, 1, 3, 7}[s.Draw(vsim.SOps, 4)]}
			hooks := s.Draw(vsim.SOps, 3)
			hookFailed, hooked := false, 0
			bad := errors.New("verification failed")
			rejects := -1
			if hooks > 0 && s.Chance(vsim.SOps, 0.15) && !lastTry {
				rejects = s.Draw(vsim.SOps, hooks)
			}
			for h := 0; h < hooks; h++ {
				opt.PreCommitHooks = append(opt.PreCommitHooks, func(f vroot.File, path string) error {
					if h != hooked || hookFailed || path != name+".part" {
						s.Fail("hook-misplaced", "attempt %d: hook %d runs after %d others, on %s", a, h, hooked, path)
					}
					hooked++
					b, err := io.ReadAll(f)
					if err != nil {
						hookFailed = true
						return err
					}
					if rejects == h || !bytes.Equal(b, vs[cur].data) {
						hookFailed = true
						return bad
					}
					return nil
				})
			}
			ctx, cancel := context.WithCancel(context.Background())
			cancelled := false
			if s.Chance(vsim.SOps, 0.2) && !lastTry {
				after := s.Draw(vsim.SOps, 12)
				s.Go("canceller", func() {
					for i := 0; i < after; i++ {
						vsim.Yield(vsim.KOp, 77)
					}
					if !s.Dead() {
						s.Fault("cancel")
					}
					cancelled = true
					cancel()
				})
			}
			if lastTry {
				d.Plan = &simfs.Plan{Sim: s, CloseLoses: true}
				if exp.ETag != "" {
					exp.ETag = vs[cur].etag
				}
				exp.Size = int64(n)
			}
			openFired := -1
			switchTo := -1
			if a >= lateTags && !lastTry && s.Chance(vsim.SOps, 0.2) {
				switchTo = s.Draw(vsim.SOps, nv)
			}
			switched := false
			src.onOpen = func(off int64) {
				if len(src.opens) == 2 && switchTo >= 0 && switchTo != cur {
					switched = true
					cur = switchTo
					src.v = vs[cur]
					s.Fault("source-changes-between-opens")
				}
				if openFired < 0 {
					openFired = d.Plan.Fired
				}
			}
			var from fsutil.ResumableSource = src
			realUsed := realSrc && !sourceFault
			if realUsed {
				_ = fsop.WriteFile(remote.Plain(), "r", vs[cur].data, 0o644)
				tag := vs[cur].etag
				if src.noTag {
					tag = ""
				}
				from = fsutil.NewFsSource[*simfs.Disk, vroot.File](remote, "r", tag)
				remote.Plan = &simfs.Plan{Sim: s, ShortReads: 0.2}
				if !lastTry && s.Chance(vsim.SOps, 0.3) {
					remote.Plan.Kinds = kinds("open", "stat", "fstat", "seek", "read", "readat", "close")
					remote.Plan.MeanGap, remote.Plan.Max = 4, 2
				}
			}
			var err error
			done := false
			s.Go("pull"+itoa(a), func() {
				s.Logf("pull attempt %d cur=%s(%d) expected=%v part=%v(%d) side=%q", a, vs[cur].etag, n, exp, hadPart, len(part), side)
				err = opt.Pull(ctx, d, name, from, exp, 0o644)
				done = !s.Dead()
				s.Logf("pull attempt %d -> %v", a, err)
			})
			crashed := life(s, d, remote)
			cancel()
			if s.Failed() || s.Stuck != "" {
				return
			}
			s.State(fmt.Sprint(crashed, errClass(err), cur))
			if now, _ := rawFile(d, name+".part"); len(now) > len(part) && (!src.noTag || exp.ETag != "") {
				tagged = true
			}
			got, has := rawFile(d, name)
			if has && whole(vs, got) < 0 {
				s.Fail("incomplete-or-mixed", "after attempt %d the final name holds %d bytes that are no version's complete content", a, len(got))
				return
			}
			if hadFinal && (!has || !bytes.Equal(got, finalBefore)) {
				s.Fail("final-changed", "attempt %d changed or removed the already complete final file", a)
				return
			}
			if crashed || !done {
				s.Probe("pull-crashed")
				continue
			}
			if n := d.OpenHandles() + remote.OpenHandles(); n > 0 {
				s.Fail("handle-leak", "%d handles open after Pull: %v %v", n, d.OpenNames(), remote.OpenNames())
				return
			}
			for _, r := range src.readers {
				if r.closed != 1 {
					s.Fail("reader-leak", "a source reader was closed %d times", r.closed)
					return
				}
			}
			switch {
			case err == nil && !has:
				s.Fail("success-without-file", "attempt %d reported success, the final name does not exist", a)
				return
			case err == nil && hookFailed:
				s.Fail("verification-ignored", "attempt %d reported success although verification failed", a)
				return
			case err == nil && !hadFinal && hooked != hooks:
				s.Fail("verification-ignored", "attempt %d reported success after %d of %d verifications", a, hooked, hooks)
				return
			case err == nil && !hadFinal && !bytes.Equal(got, vs[cur].data):
				s.Fail("stale-version", "attempt %d reported success with another version than the source has", a)
				return
			case err == nil && exp.Size >= 0 && int64(len(got)) != exp.Size:
				s.Fail("wrong-length", "attempt %d reported success, length %d, expected %d", a, len(got), exp.Size)
				return
			case err == nil && !hadFinal && exp.ETag != "" && exp.ETag != vs[cur].etag:
				s.Fail("changed-ignored", "attempt %d expected %s, got %s and reported success", a, exp.ETag, vs[cur].etag)
				return
			case err == nil && !hadFinal && src.wrongLen != 0:
				s.Fail("length-ignored", "attempt %d: the source announced a length it did not deliver; success reported", a)
				return
			}
			if hookFailed && d.Plan.Fired == 0 {
				_, p := rawFile(d, name+".part")
				_, e := rawFile(d, name+".part.etag")
				if p || e {
					s.Fail("rejected-kept", "attempt %d: verification failed and what was downloaded stays to be resumed", a)
					return
				}
			}
			if err == nil {
				s.Probe("pull-succeeded")
			}
			if err != nil && !hadFinal && has && d.Plan.Fired == 0 {
				s.Fail("failed-but-published", "attempt %d reported %v although the final name is in place", a, err)
				return
			}
			// resuming: nothing changed, so the stored bytes are to be used
			unchanged := !switched && hadPart && len(part) > 0 && len(part) <= n && bytes.HasPrefix(vs[cur].data, part) &&
				(src.noTag && (exp.ETag == "" || len(side) == 0) || string(side) == vs[cur].etag) && (exp.ETag == "" || exp.ETag == vs[cur].etag) &&
				(exp.Size < 0 || exp.Size == int64(n))
			if unchanged && !hadFinal && openFired == 0 && !realUsed && src.wrongLen == 0 {
				s.Probe("resumable")
				if src.opens[0] != int64(len(part)) || len(src.opens) > 1 {
					s.Fail("not-resumed", "attempt %d: %d bytes of the unchanged source were stored, but the source was opened at %v", a, len(part), src.opens)
					return
				}
			}
			if err != nil && !hadFinal && d.Plan.Fired == 0 && !hookFailed && unchanged {
				now, ok := rawFile(d, name+".part")
				if !ok || len(now) < len(part) {
					s.Fail("progress-lost", "attempt %d failed with %v and dropped stored bytes: %d -> %d", a, err, len(part), len(now))
					return
				}
			}
			if err != nil && d.Plan.Fired == 0 && !hookFailed && !cancelled && len(src.readers) == 1 && src.readers[0].pos > 0 && src.excess == 0 && src.wrongLen == 0 && src.opens[0] == 0 && cur == want {
				now, ok := rawFile(d, name+".part")
				if !ok || len(now) != src.readers[0].pos {
					s.Fail("progress-lost", "attempt %d failed with %v after %d bytes were delivered; %d are stored", a, err, src.readers[0].pos, len(now))
					return
				}
			}
			if lastTry && !hadFinal && err != nil {
				s.Fail("retry-never-succeeds", "with source and disk in order and the right expectation Pull reports %v (part %d bytes, record %q)", err, len(part), side)
				return
			}
		}
	},
}

// recSink records what a pusher does to a sink.
type recSink struct {
	s         *vsim.Sim
	in        fsutil.ResumableSink
	state     fsutil.SinkState
	stateOK   bool
	appends   []int64
	commits   int
	committed bool
	failState bool
}

func (r *recSink) State(ctx context.Context) (fsutil.SinkState, error) {
	if r.failState {
		r.s.Fault("sink-state-error")
		return fsutil.SinkState{}, sourceErr(r.s)
	}
	st, err := r.in.State(ctx)
	r.state, r.stateOK = st, err == nil
	r.s.Logf("state -> %+v %v", st, err)
	return st, err
}

func (r *recSink) Append(ctx context.Context, info fsutil.ContentInfo, off int64, rd io.Reader) error {
	r.appends = append(r.appends, off)
	err := r.in.Append(ctx, info, off, rd)
	r.s.Logf("append(%v,@%d) -> %v", info, off, err)
	return err
}

func (r *recSink) Commit(ctx context.Context) error {
	r.commits++
	err := r.in.Commit(ctx)
	r.committed = err == nil
	r.s.Logf("commit -> %v", err)
	return err
}

// pushHistory: an upload attempted several times.
var pushHistory = &Scenario{
	Name: "push-history",
	Doc:  "2-6 attempts of one Push into a file sink with local file changes between attempts, failing disk operations on both sides, cancellation and crashes; after every attempt the committed object is checked, and the resume offset when nothing changed",
	Run: func(s *vsim.Sim) {
		s.Configure()
		local, remote := simfs.New("local"), simfs.New("remote")
		nv := 1 + s.Draw(vsim.SOps, 3)
		vs := drawVersions(s, nv)
		noTag := nv == 1 && s.Chance(vsim.SOps, 0.5)
		cur := s.Draw(vsim.SOps, nv)
		attempts := 2 + s.Draw(vsim.SOps, 5)
		pushed := map[int]bool{}
		for a := 0; a < attempts; a++ {
			if s.Chance(vsim.SOps, 0.3) {
				cur = s.Draw(vsim.SOps, nv)
			}
			pushed[cur] = true
			_ = fsop.WriteFile(local.Plain(), "l", vs[cur].data, 0o644)
			n := int64(len(vs[cur].data))
			lastTry := a == attempts-1
			drawDiskFaults(s, local, 0.2)
			drawDiskFaults(s, remote, 0.35)
			if s.Chance(vsim.SOps, 0.35) {
				remote.Plan.CrashMean = float64([]int{3, 8, 20}[s.Draw(vsim.SOps, 3)])
			}
			info := fsutil.ContentInfo{ETag: vs[cur].etag, Size: -1}
			if noTag {
				info.ETag = ""
			}
			if s.Chance(vsim.SOps, 0.5) {
				info.Size = n
			}
			wrong := false
			if s.Chance(vsim.SOps, 0.1) && !lastTry {
				info.Size, wrong = n+1, true
			}
			if lastTry {
				local.Plan, remote.Plan = &simfs.Plan{Sim: s, CloseLoses: true}, &simfs.Plan{Sim: s, CloseLoses: true}
			}
			fired := func() int { return local.Plan.Fired + remote.Plan.Fired }
			sink := &recSink{s: s, in: fsutil.NewFsSink[*simfs.Disk, vroot.File](remote, "o", 0o644)}
			sink.failState = !lastTry && s.Chance(vsim.SOps, 0.05)
			ctx, cancel := context.WithCancel(context.Background())
			if s.Chance(vsim.SOps, 0.2) && !lastTry {
				after := s.Draw(vsim.SOps, 12)
				s.Go("canceller", func() {
					for i := 0; i < after; i++ {
						vsim.Yield(vsim.KOp, 77)
					}
					if !s.Dead() {
						s.Fault("cancel")
					}
					cancel()
				})
			}
			before, hadFinal := rawFile(remote, "o")
			part, _ := rawFile(remote, "o.part")
			side, _ := rawFile(remote, "o.part.etag")
			var err error
			done := false
			s.Go("push"+itoa(a), func() {
				s.Logf("push attempt %d cur=%s(%d) info=%v part=%d side=%q", a, vs[cur].etag, n, info, len(part), side)
				opt := fsutil.ResumableCopyOption[*simfs.Disk, vroot.File]{}
				err = opt.Push(ctx, local, "l", sink, info)
				done = !s.Dead()
				s.Logf("push attempt %d -> %v", a, err)
			})
			crashed := life(s, local, remote)
			cancel()
			if s.Failed() || s.Stuck != "" {
				return
			}
			s.State(fmt.Sprint(crashed, errClass(err), cur))
			got, has := rawFile(remote, "o")
			if has {
				known := false
				for i := range pushed {
					known = known || bytes.Equal(vs[i].data, got)
				}
				if !known {
					s.Fail("incomplete-or-mixed", "after attempt %d the committed object holds %d bytes that are no pushed version's complete content", a, len(got))
					return
				}
			}
			if hadFinal && (!has || !bytes.Equal(got, before)) {
				s.Fail("final-changed", "attempt %d changed or removed the committed object", a)
				return
			}
			if crashed || !done {
				s.Probe("push-crashed")
				continue
			}
			if n := local.OpenHandles() + remote.OpenHandles(); n > 0 {
				s.Fail("handle-leak", "%d handles open after Push: %v %v", n, local.OpenNames(), remote.OpenNames())
				return
			}
			switch {
			case err == nil && !has:
				s.Fail("success-without-object", "attempt %d reported success, nothing is committed", a)
				return
			case err == nil && wrong:
				s.Fail("length-ignored", "attempt %d declared a wrong length and reported success", a)
				return
			case err == nil && !hadFinal && !bytes.Equal(got, vs[cur].data):
				s.Fail("stale-version", "attempt %d reported success with another version committed", a)
				return
			case lastTry && err != nil:
				s.Fail("retry-never-succeeds", "with both disks in order Push reports %v (part %d bytes, record %q, length %d)", err, len(part), side, n)
				return
			}
			if err == nil {
				s.Probe("push-succeeded")
			}
			if !hadFinal && sink.stateOK && len(sink.appends) > 0 && len(part) > 0 && int64(len(part)) < n && fired() == 0 {
				same := noTag || string(side) == vs[cur].etag
				if same && sink.appends[0] != int64(len(part)) {
					s.Fail("not-resumed", "attempt %d: the sink holds %d bytes of the unchanged source, the push went on at %d", a, len(part), sink.appends[0])
					return
				}
				if same {
					s.Probe("resumable")
				}
				if !same && len(side) > 0 && sink.appends[0] != 0 {
					s.Fail("not-restarted", "attempt %d: the sink holds bytes of %q, the source is %s, the push went on at %d", a, side, vs[cur].etag, sink.appends[0])
					return
				}
			}
		}
	},
}

// pushShrink: the local file gets shorter while it is pushed.
var pushShrink = &Scenario{
	Name: "push-shrinking-source",
	Doc:  "one Push while another task truncates the local file; the commit must hold the content before or after the truncation",
	Run: func(s *vsim.Sim) {
		s.Configure()
		local, remote := simfs.New("local"), simfs.New("remote")
		local.Plan, remote.Plan = &simfs.Plan{Sim: s, CloseLoses: true}, &simfs.Plan{Sim: s, CloseLoses: true}
		if s.Chance(vsim.SCfg, 0.7) {
			local.Plan.ShortReads = 0.8
		}
		data := pattern(1, 2+s.Draw(vsim.SOps, 40))
		_ = fsop.WriteFile(local.Plain(), "l", data, 0o644)
		k := s.Draw(vsim.SOps, len(data))
		if m := s.Draw(vsim.SOps, 2*len(data)); m > 0 && m < len(data) {
			_ = fsop.WriteFile(remote.Plain(), "o.part", data[:m], 0o644)
			s.Probe("shrinks-under-resumed-push")
		}
		var err error
		sink := fsutil.NewFsSink[*simfs.Disk, vroot.File](remote, "o", 0o644)
		s.Go("push", func() {
			opt := fsutil.ResumableCopyOption[*simfs.Disk, vroot.File]{}
			err = opt.Push(context.Background(), local, "l", sink, fsutil.ContentInfo{Size: -1})
			s.Logf("push -> %v", err)
		})
		s.Go("truncate", func() {
			for i := s.Draw(vsim.SOps, 10); i > 0; i-- {
				vsim.Yield(vsim.KOp, 5)
			}
			f, err := local.Plain().OpenFile("l", os.O_RDWR, 0)
			if err == nil {
				_ = f.Truncate(int64(k))
				f.Close()
				s.Fault("source-truncated")
			}
		})
		s.Run()
		if s.Failed() || s.Stuck != "" {
			return
		}
		got, has := rawFile(remote, "o")
		s.State(fmt.Sprint(has, err == nil, len(got) == k))
		if has && !bytes.Equal(got, data) && !bytes.Equal(got, data[:k]) {
			s.Fail("truncated-commit", "committed %d bytes: neither the %d before nor the %d after the truncation", len(got), len(data), k)
			return
		}
		if err == nil && !has {
			s.Fail("success-without-object", "success reported, nothing is committed")
		}
	},
}

// sinkDirect: a sink used by another pusher than Push.
var sinkDirect = &Scenario{
	Name: "sink-direct",
	Doc:  "State, Append (at 0, inside, at and past the end of what is stored; from failing readers) and Commit in any order on one file sink, with failing disk operations and crashes; what is stored and committed is followed by a model",
	Run: func(s *vsim.Sim) {
		s.Configure()
		d := simfs.New("remote")
		sfx := ""
		if s.Chance(vsim.SCfg, 0.3) {
			sfx = ".tmp"
		}
		pn := "o" + sfx
		if sfx == "" {
			pn = "o.part"
		}
		ctx := context.Background()
		for i, n := 0, 3+s.Draw(vsim.SOps, 8); i < n; i++ {
			drawDiskFaults(s, d, 0.2)
			d.Plan.ShortOK = pn
			if s.Chance(vsim.SOps, 0.15) {
				d.Plan.CrashMean = float64([]int{3, 8, 20}[s.Draw(vsim.SOps, 3)])
			}
			sink := fsutil.NewFsSink[*simfs.Disk, vroot.File](d, "o", 0o644)
			sink.PartSuffix = sfx
			final, hadFinal := rawFile(d, "o")
			part, hadPart := rawFile(d, pn)
			side, _ := rawFile(d, pn+".etag")
			op := s.Draw(vsim.SOps, 5)
			var err error
			done := false
			var st fsutil.SinkState
			var off int
			info := fsutil.ContentInfo{Size: -1, ETag: []string{"", "aa", "ab"}[s.Draw(vsim.SOps, 3)]}
			rd := &flakyReader{s: s, b: pattern(i, s.Draw(vsim.SOps, 20)), failAt: -1, eofAt: -1, err: sourceErr(s), short: s.Chance(vsim.SOps, 0.5), withData: s.Chance(vsim.SOps, 0.5), name: "pushed"}
			if s.Chance(vsim.SOps, 0.2) {
				rd.failAt = s.Draw(vsim.SOps, len(rd.b)+1)
			}
			if s.Chance(vsim.SOps, 0.7) {
				off = s.Draw(vsim.SOps, len(part)+1)
				if s.Chance(vsim.SOps, 0.5) {
					off = len(part)
				}
				if s.Chance(vsim.SOps, 0.1) {
					off = len(part) + 1 + s.Draw(vsim.SOps, 3)
				}
			}
			s.Go("op"+itoa(i), func() {
				switch op {
				case 0:
					st, err = sink.State(ctx)
					s.Logf("State -> %+v %v", st, err)
				case 1:
					err = sink.Commit(ctx)
					s.Logf("Commit -> %v", err)
				default:
					err = sink.Append(ctx, info, int64(off), rd)
					s.Logf("Append(%q @%d, %d bytes, fails at %d) onto %d -> %v", info.ETag, off, len(rd.b), rd.failAt, len(part), err)
				}
				done = !s.Dead()
			})
			crashed := life(s, d)
			if s.Failed() || s.Stuck != "" {
				return
			}
			fault := d.Plan.Fired > 0
			nFinal, hasFinal := rawFile(d, "o")
			nPart, hasPart := rawFile(d, pn)
			nSide, hasSide := rawFile(d, pn+".etag")
			s.State(fmt.Sprint(op, crashed, errClass(err), hasFinal, hasPart, hasSide))
			if !crashed && done && d.OpenHandles() > 0 {
				s.Fail("handle-leak", "open after a sink call: %v", d.OpenNames())
				return
			}
			committed := hasFinal && !hadFinal
			if hadFinal && (!hasFinal || !bytes.Equal(nFinal, final)) {
				s.Fail("final-changed", "call %d changed the committed object", i)
				return
			}
			if committed && (op != 1 || !hadPart || !bytes.Equal(nFinal, part)) {
				s.Fail("incomplete-or-mixed", "call %d put %d bytes in place, stored were %d", i, len(nFinal), len(part))
				return
			}
			if crashed || !done {
				continue
			}
			same := hasPart == hadPart && bytes.Equal(nPart, part)
			switch op {
			case 0:
				if !same || !bytes.Equal(nSide, side) {
					s.Fail("state-changes", "State changed what is stored")
					return
				}
				want := fsutil.SinkState{}
				if hadFinal {
					want = fsutil.SinkState{Offset: int64(len(final)), Complete: true}
				} else if hadPart {
					want = fsutil.SinkState{Offset: int64(len(part)), ETag: string(side)}
				}
				if err == nil && st != want {
					s.Fail("state-wrong", "State reports %+v, stored is %+v", st, want)
					return
				}
				if err != nil && !fault {
					s.Fail("needless-failure", "State: %v", err)
					return
				}
			case 1:
				if err == nil && !hasFinal {
					s.Fail("success-without-object", "Commit succeeded, nothing is committed")
					return
				}
				if err == nil && hasPart {
					s.Fail("part-left", "Commit succeeded and left a part")
					return
				}
				if err == nil && !fault && hasSide {
					s.Fail("part-left", "Commit succeeded and left a record")
					return
				}
				if err != nil && !fault && (hadFinal || hadPart) {
					s.Fail("needless-failure", "Commit: %v", err)
					return
				}
			default:
				limit := len(rd.b)
				if rd.failAt >= 0 {
					limit = rd.failAt
				}
				if off > len(part) {
					if err == nil {
						s.Fail("gap", "Append at %d onto %d bytes succeeded", off, len(part))
						return
					}
					if !bytes.Equal(nPart, part) {
						s.Fail("stored-changed", "a refused Append changed what is stored")
						return
					}
					break
				}
				want := append(append([]byte{}, part[:off]...), rd.b[:limit]...)
				switch {
				case err == nil && rd.failAt >= 0:
					s.Fail("failure-hidden", "Append succeeded although its reader failed")
					return
				case err == nil && !bytes.Equal(nPart, want):
					s.Fail("stored-wrong", "Append at %d of %d bytes onto %d succeeded, stored are %d other bytes", off, len(rd.b), len(part), len(nPart))
					return
				case err == nil && info.ETag != "" && string(nSide) != info.ETag:
					s.Fail("record-wrong", "Append of %q succeeded, the record says %q", info.ETag, nSide)
					return
				case err != nil && !fault && rd.failAt < 0:
					s.Fail("needless-failure", "Append: %v", err)
					return
				case err != nil && !same && !bytes.HasPrefix(want, nPart):
					s.Fail("stored-wrong", "a failed Append at %d onto %d left %d bytes that are neither the old nor the start of the new", off, len(part), len(nPart))
					return
				}
				s.Probe("direct-append")
			}
		}
	},
}

var _ = fs.ErrExist

func init() {
	real := []string{"fsutil (resumable, resumable_fs)"}
	register(&Check{Property: "P03", Quick: 1000000, Thorough: 8000000, Parts: []Part{{pullHistory, 1}}, Real: real,
		Stub:        []string{"local and remote disks (simfs)", "the source of most runs"},
		Assumptions: []string{"versions carry different ETags, or the source never changes", "process crashes only: writes that returned are not lost", "a source of unknown size is not cut short silently", "where bytes stored without an ETag get their record later, a record cut short is not another version's ETag"}})
	register(&Check{Property: "P04", Quick: 1000000, Thorough: 8000000, Parts: []Part{{pushHistory, 6}, {pushShrink, 1}, {sinkDirect, 2}}, Real: real,
		Stub:        []string{"local and remote disks (simfs)"},
		Assumptions: []string{"versions carry different ETags, or the source never changes", "process crashes only: writes that returned are not lost", "the local file changes between attempts (it may shrink during one)"}})
}
