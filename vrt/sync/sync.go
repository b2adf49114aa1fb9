// Package sync stands in for the standard package: same operations, controlled by the explorer.
package sync

import (
	"unsafe"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

type Locker interface {
	Lock()
	Unlock()
}

// ---- Mutex

type Mutex struct {
	locked bool
	hb     int32
}

//go:norace
func (m *Mutex) Ready() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	core.CountLock()
	core.Block(m, "Mutex.Lock")
	m.locked = true
	core.RaceAcquire(unsafe.Pointer(&m.hb))
}

//go:norace
func (m *Mutex) TryLock() bool {
	core.CountLock()
	core.Point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	core.RaceAcquire(unsafe.Pointer(&m.hb))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
		return
	}
	core.RaceRelease(unsafe.Pointer(&m.hb))
	m.locked = false
}

//go:norace
func fatal(s string) {
	if core.Aborting() {
		return
	}
	core.Failf("fatal error: %s", s)
	panic("fatal error: " + s)
}

// ---- RWMutex (a pending writer blocks new readers, as in the standard library)

type RWMutex struct {
	writer  bool // a writer holds or awaits the lock
	held    bool
	readers int32
	hbw     int32
	hbr     int32
}

type rwAnnounce struct{ m *RWMutex }
type rwDrain struct{ m *RWMutex }

//go:norace
func (w rwAnnounce) Ready() bool { return !w.m.writer }

//go:norace
func (w rwDrain) Ready() bool { return w.m.readers == 0 }

//go:norace
func (m *RWMutex) Lock() {
	core.CountLock()
	core.Block(rwAnnounce{m}, "RWMutex.Lock")
	m.writer = true
	if m.readers > 0 {
		core.Block(rwDrain{m}, "RWMutex.Lock (waiting for readers)")
	}
	m.held = true
	core.RaceAcquire(unsafe.Pointer(&m.hbw))
	core.RaceAcquire(unsafe.Pointer(&m.hbr))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	core.CountLock()
	core.Point("RWMutex.TryLock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer, m.held = true, true
	core.RaceAcquire(unsafe.Pointer(&m.hbw))
	core.RaceAcquire(unsafe.Pointer(&m.hbr))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.held {
		fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	core.RaceRelease(unsafe.Pointer(&m.hbw))
	m.writer, m.held = false, false
}

//go:norace
func (m *RWMutex) RLock() {
	core.CountLock()
	core.Block(rwAnnounce{m}, "RWMutex.RLock")
	m.readers++
	core.RaceAcquire(unsafe.Pointer(&m.hbw))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	core.CountLock()
	core.Point("RWMutex.TryRLock")
	if m.writer {
		return false
	}
	m.readers++
	core.RaceAcquire(unsafe.Pointer(&m.hbw))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	core.RaceReleaseMerge(unsafe.Pointer(&m.hbr))
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---- Once

type Once struct {
	done bool
	m    Mutex
	hb   int32
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		core.RaceAcquire(unsafe.Pointer(&o.hb))
		return true
	}
	return false
}

//go:norace
func (o *Once) finish() {
	core.Point("Once done")
	core.RaceRelease(unsafe.Pointer(&o.hb))
	o.done = true
}

func (o *Once) Do(f func()) {
	core.Point("Once.Do")
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.finish()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// ---- WaitGroup

type WaitGroup struct {
	n  int
	hb int32
}

//go:norace
func (w *WaitGroup) Ready() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	core.Point("WaitGroup.Add")
	core.RaceReleaseMerge(unsafe.Pointer(&w.hb))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	core.Block(w, "WaitGroup.Wait")
	core.RaceAcquire(unsafe.Pointer(&w.hb))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	core.Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Cond

type Cond struct {
	L  Locker
	q  []*condWait
	hb int32
}

type condWait struct{ signaled bool }

//go:norace
func (c *condWait) Ready() bool { return c.signaled }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enqueue() *condWait {
	w := &condWait{}
	c.q = append(c.q, w)
	return w
}

//go:norace
func (c *Cond) await(w *condWait) {
	core.Block(w, "Cond.Wait")
	core.RaceAcquire(unsafe.Pointer(&c.hb))
}

func (c *Cond) Wait() {
	w := c.enqueue()
	c.L.Unlock()
	c.await(w)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	core.Point("Cond.Signal")
	core.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	if len(c.q) > 0 {
		c.q[0].signaled = true
		c.q = c.q[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	core.Point("Cond.Broadcast")
	core.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	for _, w := range c.q {
		w.signaled = true
	}
	c.q = nil
}

// ---- Pool: hands back the most recently returned object (the most reuse a real Pool can show)

type Pool struct {
	New  func() any
	free []any
	hb   int32
}

//go:norace
func (p *Pool) take() (any, bool) {
	core.Point("Pool.Get")
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		core.RaceAcquire(unsafe.Pointer(&p.hb))
		return v, true
	}
	return nil, false
}

func (p *Pool) Get() any {
	if v, ok := p.take(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	core.Point("Pool.Put")
	core.RaceReleaseMerge(unsafe.Pointer(&p.hb))
	p.free = append(p.free, v)
}

// ---- Map: every method is one atomic step

type Map struct {
	m  map[any]any
	hb int32
}

//go:norace
func (m *Map) step(what string) {
	core.Point(what)
	core.RaceAcquire(unsafe.Pointer(&m.hb))
	core.RaceReleaseMerge(unsafe.Pointer(&m.hb))
	if m.m == nil {
		m.m = map[any]any{}
	}
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	m.step("Map.Load")
	v, ok := m.m[k]
	return v, ok
}

//go:norace
func (m *Map) Store(k, v any) { m.step("Map.Store"); m.m[k] = v }

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.step("Map.LoadOrStore")
	if a, ok := m.m[k]; ok {
		return a, true
	}
	m.m[k] = v
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.step("Map.LoadAndDelete")
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

//go:norace
func (m *Map) Delete(k any) { m.step("Map.Delete"); delete(m.m, k) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.step("Map.Swap")
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

//go:norace
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.step("Map.CompareAndSwap")
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, o any) bool {
	m.step("Map.CompareAndDelete")
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() { m.step("Map.Clear"); clear(m.m) }

func (m *Map) Range(f func(k, v any) bool) {
	m.step("Map.Range")
	for _, e := range core.MapEntries(m.m) {
		v, ok := m.Load(e.K)
		if ok && !f(e.K, v) {
			return
		}
	}
}
