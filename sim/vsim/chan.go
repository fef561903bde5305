package vsim

import (
	"iter"
	"reflect"
	"time"
)

// Channels. The instrumented sources operate on real channels through the
// functions below, so that waiting on one, and which of several ready
// operations goes first, are the simulator's decisions. A value for a channel
// without a buffer is handed from task to task here and never enters the real
// channel; buffers and closing are the real channel's own.

// selState is one task waiting in one select (or plain send or receive).
type selState struct {
	done bool
	idx  int
	val  any
}

type chWaiter struct {
	st  *selState
	idx int
	val any // a waiting sender's value
}

type chQueue struct{ send, recv []*chWaiter }

func live(q []*chWaiter) []*chWaiter {
	out := q[:0]
	for _, w := range q {
		if !w.st.done {
			out = append(out, w)
		}
	}
	return out
}

func (s *Sim) chq(p uintptr) *chQueue {
	q := s.chans[p]
	if q == nil {
		if s.chans == nil {
			s.chans = map[uintptr]*chQueue{}
		}
		q = &chQueue{}
		s.chans[p] = q
	}
	q.send, q.recv = live(q.send), live(q.recv)
	return q
}

// Case is one communication of a select.
type Case interface {
	ready(s *Sim, self *selState) bool
	perform(s *Sim) // ready said yes
	enqueue(s *Sim, st *selState, idx int)
	finish(st *selState) // a partner completed it
	std() reflect.SelectCase
	stdDone(v reflect.Value, ok bool)
}

// RCase is a receive.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool

	got bool // a value someone outside the simulation sent
	gv  T
}

// RecvCase is a receive communication.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) ptr() uintptr { return reflect.ValueOf(c.ch).Pointer() }

func (c *RCase[T]) sender(s *Sim, self *selState) *chWaiter {
	for _, w := range s.chq(c.ptr()).send {
		if w.st != self {
			return w
		}
	}
	return nil
}

func (c *RCase[T]) ready(s *Sim, self *selState) bool {
	if c.ch == nil {
		return false
	}
	if c.got || len(c.ch) > 0 {
		return true
	}
	if cap(c.ch) == 0 && c.sender(s, self) != nil {
		return true
	}
	select {
	case v, ok := <-c.ch:
		if ok {
			c.got, c.gv = true, v
		}
		return true
	default:
		return false
	}
}

func (c *RCase[T]) perform(s *Sim) {
	if c.got {
		c.V, c.OK, c.got = c.gv, true, false
		return
	}
	if cap(c.ch) == 0 {
		if w := c.sender(s, nil); w != nil {
			w.st.done, w.st.idx = true, w.idx
			c.V, c.OK = value[T](w.val), true
			return
		}
	}
	c.V, c.OK = <-c.ch
}

func (c *RCase[T]) enqueue(s *Sim, st *selState, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		q := s.chq(c.ptr())
		q.recv = append(q.recv, &chWaiter{st: st, idx: idx})
	}
}

func (c *RCase[T]) finish(st *selState) { c.V, c.OK = value[T](st.val), true }

func (c *RCase[T]) std() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RCase[T]) stdDone(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	}
}

func value[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

type sCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase is a send communication: SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return &sCase[T]{ch, v} }
}

func (c *sCase[T]) ptr() uintptr { return reflect.ValueOf(c.ch).Pointer() }

func (c *sCase[T]) receiver(s *Sim, self *selState) *chWaiter {
	for _, w := range s.chq(c.ptr()).recv {
		if w.st != self {
			return w
		}
	}
	return nil
}

func (c *sCase[T]) ready(s *Sim, self *selState) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch)
	}
	return c.receiver(s, self) != nil
}

func (c *sCase[T]) perform(s *Sim) {
	if cap(c.ch) > 0 {
		c.ch <- c.v
		return
	}
	w := c.receiver(s, nil)
	w.st.done, w.st.idx, w.st.val = true, w.idx, c.v
}

func (c *sCase[T]) enqueue(s *Sim, st *selState, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		q := s.chq(c.ptr())
		q.send = append(q.send, &chWaiter{st: st, idx: idx, val: c.v})
	}
}

func (c *sCase[T]) finish(*selState) {}

func (c *sCase[T]) std() reflect.SelectCase {
	v := c.v
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&v).Elem()}
}

func (c *sCase[T]) stdDone(reflect.Value, bool) {}

const locChan = 0xf0000031

// Select is the select statement: the index of the communication made, -1 for
// the default clause.
func Select(def bool, cases ...Case) int {
	s := active
	if s == nil || s.cur == nil {
		var sc []reflect.SelectCase
		for _, c := range cases {
			sc = append(sc, c.std())
		}
		if def {
			sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(sc)
		if i == len(cases) {
			return -1
		}
		cases[i].stdDone(v, ok)
		return i
	}
	Yield(KSync, locChan)
	st := &selState{}
	pick := func() int {
		var r []int
		for i, c := range cases {
			if c.ready(s, st) {
				r = append(r, i)
			}
		}
		switch len(r) {
		case 0:
			return -1
		case 1:
			return r[0]
		}
		return r[s.Draw(SSched, len(r))]
	}
	if i := pick(); i >= 0 {
		cases[i].perform(s)
		return i
	}
	if def {
		return -1
	}
	for i, c := range cases {
		c.enqueue(s, st, i)
	}
	// What a partner cannot complete for us: buffers and closing.
	Block("channel", func() bool {
		if st.done {
			return true
		}
		for _, c := range cases {
			if c.ready(s, st) {
				return true
			}
		}
		return false
	})
	if st.done {
		cases[st.idx].finish(st)
		return st.idx
	}
	i := pick()
	st.done = true
	cases[i].perform(s)
	return i
}

// RecvC waits until a receive from ch can be made and returns the channel to
// make it from.
func RecvC[T any](ch <-chan T) <-chan T {
	if active == nil || active.cur == nil {
		return ch
	}
	c := RecvCase(ch)
	Select(false, c)
	if !c.OK {
		return ch
	}
	out := make(chan T, 1)
	out <- c.V
	return out
}

// Sender is the send statement: Sender(ch)(v).
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) {
		if active == nil || active.cur == nil {
			ch <- v
			return
		}
		Select(false, SendCase(ch)(v))
	}
}

// ChanAll is the range over a channel.
func ChanAll[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := <-RecvC(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Timer replaces time.Timer.
type Timer struct {
	C   <-chan time.Time
	ch  chan time.Time
	f   func()
	std *time.Timer
	cur *bool // whether the pending expiry is still wanted
}

func (t *Timer) arm(d time.Duration) {
	want := new(bool)
	*want = true
	t.cur = want
	task := active.Go("timer", func() {
		TimeSleep(d)
		if !*want {
			return
		}
		*want = false
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.ch <- TimeNow():
		default:
		}
	})
	task.Daemon = true
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if active == nil {
		std := time.NewTimer(d)
		return &Timer{C: std.C, std: std}
	}
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.arm(d)
	return t
}

// TimerFunc replaces time.AfterFunc.
func TimerFunc(d time.Duration, f func()) *Timer {
	if active == nil {
		return &Timer{std: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// TimeAfter replaces time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	if t.std != nil {
		return t.std.Stop()
	}
	was := *t.cur
	*t.cur = false
	for t.ch != nil && len(t.ch) > 0 {
		<-t.ch
		was = true
	}
	return was
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if t.std != nil {
		return t.std.Reset(d)
	}
	was := t.Stop()
	t.arm(d)
	return was
}
