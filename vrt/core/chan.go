package core

import "unsafe"

// Chan replaces channels in the code under test.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	// rendezvous for unbuffered channels: receivers waiting, and a handed-over value
	recvq []*recvWait[T]
	sendq []*sendWait[T]
	sync  int64
	ext   func() (closed bool)
}

type recvWait[T any] struct {
	val  T
	ok   bool
	done bool
	c    *Chan[T]
	grp  *selState
}

type sendWait[T any] struct {
	val  T
	done bool
	c    *Chan[T]
	grp  *selState
}

type selState struct {
	chosen int
	fired  bool
	cases  []SelCase
}

func NewChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

// Ext wraps a real channel of an uninstrumented package that only ever gets closed (ctx.Done()).
func Ext[T any](ch <-chan T) *Chan[T] {
	if ch == nil {
		return nil
	}
	return &Chan[T]{ext: func() bool {
		select {
		case _, ok := <-ch:
			return !ok
		default:
			return false
		}
	}}
}

//go:norace
func (c *Chan[T]) isClosed() bool { return c.closed || (c.ext != nil && c.ext()) }

//go:norace
func (c *Chan[T]) canRecv() bool {
	if c == nil {
		return false
	}
	if len(c.buf) > 0 || c.isClosed() {
		return true
	}
	for _, s := range c.sendq {
		if !s.done && (s.grp == nil || !s.grp.fired) {
			return true
		}
	}
	return false
}

//go:norace
func (c *Chan[T]) canSend() bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	for _, r := range c.recvq {
		if !r.done && (r.grp == nil || !r.grp.fired) {
			return true
		}
	}
	return false
}

//go:norace
func (r *recvWait[T]) Ready() bool { return r.done || r.c.canRecv() }

//go:norace
func (s *sendWait[T]) Ready() bool { return s.done || s.c.canSend() }

//go:norace
func (c *Chan[T]) doRecv() (v T, ok bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		for _, s := range c.sendq {
			if !s.done && (s.grp == nil || !s.grp.fired) && len(c.buf) < c.cap {
				s.done = true
				c.buf = append(c.buf, s.val)
			}
		}
		RaceAcquire(unsafe.Pointer(&c.sync))
		return v, true
	}
	for _, s := range c.sendq {
		if !s.done && (s.grp == nil || !s.grp.fired) {
			s.done = true
			if s.grp != nil {
				s.grp.fired = true
			}
			RaceAcquire(unsafe.Pointer(&c.sync))
			RaceReleaseMerge(unsafe.Pointer(&c.sync))
			return s.val, true
		}
	}
	RaceAcquire(unsafe.Pointer(&c.sync))
	return v, false
}

//go:norace
func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	RaceReleaseMerge(unsafe.Pointer(&c.sync))
	for _, r := range c.recvq {
		if !r.done && (r.grp == nil || !r.grp.fired) {
			r.done, r.val, r.ok = true, v, true
			if r.grp != nil {
				r.grp.fired = true
			}
			return
		}
	}
	c.buf = append(c.buf, v)
}

type never struct{}

//go:norace
func (never) Ready() bool { return false }

//go:norace
func (c *Chan[T]) Send(v T) {
	if c == nil {
		Block(never{}, "send on nil channel")
		return
	}
	RaceReleaseMerge(unsafe.Pointer(&c.sync))
	w := &sendWait[T]{val: v, c: c}
	c.sendq = append(c.sendq, w)
	Block(w, "channel send")
	c.dropSend(w)
	if !w.done {
		c.doSend(v)
	}
	if c.cap == 0 {
		RaceAcquire(unsafe.Pointer(&c.sync))
	}
}

//go:norace
func (c *Chan[T]) dropSend(w *sendWait[T]) {
	for i, s := range c.sendq {
		if s == w {
			c.sendq = append(c.sendq[:i:i], c.sendq[i+1:]...)
			return
		}
	}
}

//go:norace
func (c *Chan[T]) dropRecv(w *recvWait[T]) {
	for i, s := range c.recvq {
		if s == w {
			c.recvq = append(c.recvq[:i:i], c.recvq[i+1:]...)
			return
		}
	}
}

//go:norace
func (c *Chan[T]) Recv2() (v T, ok bool) {
	if c == nil {
		Block(never{}, "receive from nil channel")
		return
	}
	w := &recvWait[T]{c: c}
	c.recvq = append(c.recvq, w)
	Block(w, "channel receive")
	c.dropRecv(w)
	if w.done {
		RaceAcquire(unsafe.Pointer(&c.sync))
		return w.val, w.ok
	}
	return c.doRecv()
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

//go:norace
func (c *Chan[T]) Close() {
	Point("close channel")
	if c.closed {
		panic("close of closed channel")
	}
	RaceReleaseMerge(unsafe.Pointer(&c.sync))
	c.closed = true
}

//go:norace
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	Point("len(channel)")
	return len(c.buf)
}

//go:norace
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// TrySend is used by timers: a non-blocking send outside the schedule.
//
//go:norace
func (c *Chan[T]) TrySend(v T) bool {
	if !c.canSend() || c.closed {
		return false
	}
	c.doSend(v)
	return true
}

// ---- select

type SelCase interface {
	ready() bool
	arm(g *selState)
	disarm()
	fire()
	wasDone() bool
}

type RecvCase[T any] struct {
	C   *Chan[T]
	Val T
	OK  bool
	w   *recvWait[T]
}

//go:norace
func (r *RecvCase[T]) ready() bool { return r.C.canRecv() }

//go:norace
func (r *RecvCase[T]) arm(g *selState) {
	if r.C != nil {
		r.w = &recvWait[T]{c: r.C, grp: g}
		r.C.recvq = append(r.C.recvq, r.w)
	}
}

//go:norace
func (r *RecvCase[T]) disarm() {
	if r.C != nil {
		r.C.dropRecv(r.w)
	}
}

//go:norace
func (r *RecvCase[T]) wasDone() bool {
	if r.w != nil && r.w.done {
		r.Val, r.OK = r.w.val, r.w.ok
		RaceAcquire(unsafe.Pointer(&r.C.sync))
		return true
	}
	return false
}

//go:norace
func (r *RecvCase[T]) fire() { r.Val, r.OK = r.C.doRecv() }

type SendCase[T any] struct {
	C   *Chan[T]
	Val T
	w   *sendWait[T]
}

//go:norace
func (s *SendCase[T]) ready() bool { return s.C.canSend() }

//go:norace
func (s *SendCase[T]) arm(g *selState) {
	if s.C != nil {
		RaceReleaseMerge(unsafe.Pointer(&s.C.sync))
		s.w = &sendWait[T]{val: s.Val, c: s.C, grp: g}
		s.C.sendq = append(s.C.sendq, s.w)
	}
}

//go:norace
func (s *SendCase[T]) disarm() {
	if s.C != nil {
		s.C.dropSend(s.w)
	}
}

//go:norace
func (s *SendCase[T]) wasDone() bool { return s.w != nil && s.w.done }

//go:norace
func (s *SendCase[T]) fire() { s.C.doSend(s.Val) }

//go:norace
func (g *selState) Ready() bool {
	if g.fired {
		return true
	}
	for _, c := range g.cases {
		if c.ready() {
			return true
		}
	}
	return false
}

// Select returns the index of the chosen case, or -1 for default.
//
//go:norace
func Select(hasDefault bool, cases ...SelCase) int {
	if hasDefault {
		Point("select")
	} else {
		g := &selState{cases: cases}
		for _, c := range cases {
			c.arm(g)
		}
		Block(g, "select")
		for _, c := range cases {
			c.disarm()
		}
		for i, c := range cases {
			if c.wasDone() {
				return i
			}
		}
	}
	var ready []int
	for i, c := range cases {
		if c.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		return -1
	}
	i := ready[Choose(len(ready), false)]
	cases[i].fire()
	return i
}

// Drain drops buffered values (timer reset).
//
//go:norace
func (c *Chan[T]) Drain() { c.buf = c.buf[:0] }

// R and S build the cases of a select statement.
func R[T any](c *Chan[T]) *RecvCase[T]      { return &RecvCase[T]{C: c} }
func S[T any](c *Chan[T], v T) *SendCase[T] { return &SendCase[T]{C: c, Val: v} }
