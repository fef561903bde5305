package vsim

import (
	"context"
	crand "crypto/rand"
	"fmt"
	"iter"
	"math/rand/v2"
	"os"
	"sort"
	"syscall"
	"time"
)

// The functions below are what the instrumented sources call in place of the
// standard library's. Outside a simulated run each is the standard behaviour.

// Y is the statement-level preemption point.
func Y(loc uint32) {
	if active != nil {
		Yield(KStmt, loc)
	}
}

// GoStmt replaces the go statement.
func GoStmt(fn func()) {
	s := active
	if s == nil {
		go fn()
		return
	}
	t := s.Go("bg", fn)
	t.Daemon = true
	t.Name = "bg" + itoa(t.ID)
	Yield(KSync, 1)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	return string(b)
}

// AfterFunc replaces context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) func() bool {
	s := active
	if s == nil {
		return context.AfterFunc(ctx, f)
	}
	started, stopped := false, false
	t := s.Go("afterfunc", func() {
		Block("context done", func() bool { return stopped || ctx.Err() != nil })
		if stopped {
			return
		}
		started = true
		f()
	})
	t.Daemon = true
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		return true
	}
}

// TimeNow replaces time.Now.
func TimeNow() time.Time {
	s := active
	if s == nil {
		return time.Now()
	}
	s.Now = s.Now.Add(time.Microsecond)
	return s.Now
}

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeSleep replaces time.Sleep.
func TimeSleep(d time.Duration) {
	s := active
	if s == nil {
		time.Sleep(d)
		return
	}
	until := s.Now.Add(d)
	// A sleeper is runnable; running it advances the clock to its deadline.
	Yield(KSync, 2)
	if s.Now.Before(until) {
		s.Now = until
	}
}

// RandUint64 is the simulated entropy behind every replaced random function.
func RandUint64() uint64 {
	s := active
	if s == nil {
		return rand.Uint64()
	}
	// Small ranges on purpose: collisions of generated names are rare events
	// the code has to handle, so a share of the draws comes from a tiny set.
	return s.src.draw(SRand, 0, func(r *rand.Rand) uint64 {
		if r.IntN(4) == 0 {
			return uint64(r.IntN(2))
		}
		return r.Uint64()
	})
}

// RandUint32 replaces math/rand/v2.Uint32.
func RandUint32() uint32 { return uint32(RandUint64()) }

// RandInt64 replaces math/rand/v2.Int64.
func RandInt64() int64 { return int64(RandUint64() >> 1) }

// RandInt replaces math/rand/v2.Int.
func RandInt() int { return int(RandUint64() >> 1) }

// RandIntN replaces math/rand/v2.IntN.
func RandIntN(n int) int { return int(RandUint64() % uint64(n)) }

// CreateTemp replaces os.CreateTemp: the file is real, in the check's scratch
// directory, and a run may make creating it fail.
func CreateTemp(dir, pattern string) (*os.File, error) {
	s := active
	if s == nil {
		return os.CreateTemp(dir, pattern)
	}
	Yield(KIO, 3)
	if s.TempFail != nil {
		if err := s.TempFail(); err != nil {
			return nil, err
		}
	}
	f, err := os.CreateTemp(dir, pattern)
	if err == nil {
		s.TempFiles = append(s.TempFiles, f.Name())
	}
	return f, err
}

// RandText replaces crypto/rand.Text. The name it makes never reaches a
// decision, so it stays a plain counter in a run.
func RandText() string {
	if active == nil {
		return crand.Text()
	}
	textCounter++
	return "T" + itoa(textCounter)
}

var textCounter int

// MapKeys iterates over a map's keys in an order the run decides: sorted,
// reversed, or rotated. Entries deleted meanwhile are not visited, as the
// language says.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range mapOrder(m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

// MapAll is MapKeys with values.
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range mapOrder(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapValues is MapAll without keys.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapAll(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func mapOrder[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if active == nil || len(keys) < 2 {
		return keys
	}
	str := make(map[K]string, len(keys))
	for _, k := range keys {
		str[k] = fmt.Sprint(k)
	}
	sort.Slice(keys, func(i, j int) bool { return str[keys[i]] < str[keys[j]] })
	s := active
	if s.dead {
		return keys
	}
	switch d := s.Draw(SRand, len(keys)+1); {
	case d == len(keys):
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case d > 0:
		keys = append(append([]K{}, keys[d:]...), keys[:d]...)
	}
	return keys
}

// FlockFn is the lock system call of the running scenario, if it has one.
var FlockFn func(fd, how int) error

// Flock replaces syscall.Flock.
func Flock(fd, how int) error {
	if active == nil || FlockFn == nil {
		return syscall.Flock(fd, how)
	}
	return FlockFn(fd, how)
}
