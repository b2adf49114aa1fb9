package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- C06, C08: single-threaded histories on the virtual clock

const ms = time.Millisecond

type scEntry = synccache.Entry[int]
type scCache = synccache.SyncCache[int, int]

func satAdd(a, b int64) int64 {
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return math.MaxInt64
	}
	if a < 0 && b < 0 && s >= 0 {
		return math.MinInt64
	}
	return s
}

// scEnt is the reference entry: certainly live up to lo, certainly expired from hi on.
type scEnt struct {
	key, val int
	lo, hi   int64
	maybe    bool // an expired lookup may have removed it already
}

func newScEnt(k, v int, d time.Duration) *scEnt {
	t := satAdd(core.ClockNow(), int64(d))
	return &scEnt{key: k, val: v, lo: t, hi: satAdd(t, int64(ms))}
}

func (e *scEnt) live() bool { return core.ClockNow() <= e.lo }
func (e *scEnt) dead() bool { return core.ClockNow() >= e.hi }

type scSeqOp struct {
	kind string
	k, v int
	d    time.Duration
}

func (o scSeqOp) String() string {
	switch o.kind {
	case "Store", "LoadOrStore":
		return fmt.Sprintf("%s(%d,%d,%v)", o.kind, o.k, o.v, o.d)
	case "Load", "Delete", "LoadAndDelete":
		return fmt.Sprintf("%s(%d)", o.kind, o.k)
	case "CompareValueAndDelete":
		return fmt.Sprintf("%s(%d,%d)", o.kind, o.k, o.v)
	case "CompareAndDelete":
		return fmt.Sprintf("%s(%d,handle)", o.kind, o.k)
	case "Advance", "AddExpiration", "SetExpiration":
		return fmt.Sprintf("%s(%v)", o.kind, o.d)
	}
	return o.kind + "()"
}

type scSys struct {
	sc    *scCache
	what  byte // 'r' results (C06), 'c' callbacks (C08)
	probe bool // the callback looks the entry up
	ops   []scSeqOp
	ref   map[int]*scEnt
	h     *scEntry // the entry most recently handed out
	hr    *scEnt
	cbs   []int
	bad   string
}

func newScSys(what byte, callback, probe bool, offset int64, ops []scSeqOp) *scSys {
	core.AdvanceQuiet(offset)
	y := &scSys{what: what, probe: probe, ops: ops, ref: map[int]*scEnt{}}
	if callback {
		y.sc = synccache.NewSyncCache[int, int](time.Second, synccache.WithDeletedCallback[int, int](func(v int) {
			y.cbs = append(y.cbs, v)
			if y.probe {
				if e, ok := y.sc.Load(v / 10); ok {
					y.bad = fmt.Sprintf("inside the callback for %d, Load(%d) still returns %d", v, v/10, e.Value())
				}
			}
		}))
	} else {
		y.sc = synccache.NewSyncCache[int, int](time.Second)
	}
	return y
}

func (y *scSys) Ops() int            { return len(y.ops) }
func (y *scSys) OpName(i int) string { return y.ops[i].String() }
func (y *scSys) Enabled(i int) bool {
	o := y.ops[i]
	switch o.kind {
	case "AddExpiration":
		if y.hr == nil {
			return false
		}
		r := y.hr.lo - core.ClockNow()
		return r > -int64(20*ms) && r < int64(8*ms) && r != 0 || (r > int64(ms)*1000) != (o.d > ms*1000)
	case "SetExpiration", "CompareAndDelete", "IsExpired":
		return y.hr != nil
	}
	return true
}

func (y *scSys) Digest(f *FP) {
	f.Now, f.Horizon = core.ClockNow(), int64(12*ms)
	f.Root(y.sc)
	if y.h != nil {
		f.Root(y.h)
	}
	f.u(uint64(f.Now % int64(ms)))
	put := func(e *scEnt) {
		if e == nil {
			f.u(0)
			return
		}
		f.u(uint64(e.key*100 + e.val))
		f.Rel(e.lo)
		f.Rel(e.hi)
		if e.maybe {
			f.u(1)
		} else {
			f.u(0)
		}
	}
	put(y.ref[1])
	put(y.ref[2])
	if y.hr != nil {
		if y.ref[y.hr.key] == y.hr {
			f.u(1)
		} else {
			f.u(2)
			put(y.hr)
		}
	}
}

// lookup judges whether the key may / must be seen as holding its entry.
func (y *scSys) lookup(k int) (e *scEnt, may, must bool) {
	e = y.ref[k]
	if e == nil {
		return nil, false, false
	}
	return e, !e.dead(), e.live() && !e.maybe
}

// found compares an outcome with what the reference allows.
func (y *scSys) found(what string, k int, ok bool, v int) (*scEnt, error) {
	e, may, must := y.lookup(k)
	if y.what != 'r' {
		return e, nil
	}
	switch {
	case ok && !may:
		if e == nil {
			return e, fmt.Errorf("%s finds %d although the key is absent", what, v)
		}
		return e, fmt.Errorf("%s serves %d, which expired %v ago", what, v, time.Duration(core.ClockNow()-e.lo))
	case !ok && must:
		return e, fmt.Errorf("%s does not find %d, which lives for another %v", what, e.val, time.Duration(e.lo-core.ClockNow()))
	case ok && e.val != v:
		return e, fmt.Errorf("%s returns %d instead of %d", what, v, e.val)
	}
	if ok {
		e.maybe = false
	} else if e != nil {
		e.maybe = true
	}
	return e, nil
}

// calls checks the callbacks of one operation: each value of must exactly once, each of may at most once.
func (y *scSys) calls(what string, must, may []*scEnt) error {
	if y.what != 'c' {
		y.cbs = y.cbs[:0]
		return nil
	}
	left := append([]int{}, y.cbs...)
	y.cbs = y.cbs[:0]
	take := func(v int) bool {
		for i, x := range left {
			if x == v {
				left = append(left[:i], left[i+1:]...)
				return true
			}
		}
		return false
	}
	gone := func(e *scEnt) {
		if y.ref[e.key] == e {
			delete(y.ref, e.key)
		}
	}
	for _, e := range must {
		if !take(e.val) {
			return fmt.Errorf("%s removed %d without a callback", what, e.val)
		}
		gone(e)
	}
	for _, e := range may {
		if take(e.val) {
			gone(e)
		}
	}
	if len(left) > 0 {
		return fmt.Errorf("%s caused callbacks for %v, which it did not remove (or more than one)", what, left)
	}
	if y.bad != "" {
		return fmt.Errorf("%s", y.bad)
	}
	return nil
}

func one(e *scEnt) []*scEnt {
	if e == nil {
		return nil
	}
	return []*scEnt{e}
}

func (y *scSys) Do(i int) error {
	o := y.ops[i]
	y.cbs, y.bad = y.cbs[:0], ""
	switch o.kind {
	case "Advance":
		core.AdvanceQuiet(int64(o.d))
		return nil
	case "Store":
		y.sc.Store(o.k, o.v, o.d)
		if err := y.calls("Store", nil, nil); err != nil {
			return err
		}
		y.ref[o.k] = newScEnt(o.k, o.v, o.d)
	case "Load":
		e, ok := y.sc.Load(o.k)
		v := 0
		if ok {
			v = e.Value()
			if y.what == 'r' && e.IsExpired() {
				return fmt.Errorf("Load(%d) hands out an entry that is expired", o.k)
			}
		}
		if !ok && e != nil && y.what == 'r' {
			return fmt.Errorf("Load(%d) reports nothing but returns an entry", o.k)
		}
		r, err := y.found("Load", o.k, ok, v)
		if err != nil {
			return err
		}
		if ok {
			y.h, y.hr = e, r
			return y.calls("Load", nil, nil)
		}
		return y.calls("Load", nil, one(r))
	case "LoadOrStore":
		e, loaded := y.sc.LoadOrStore(o.k, o.v, o.d)
		if e == nil {
			return fmt.Errorf("LoadOrStore returns no entry")
		}
		if loaded {
			r, err := y.found("LoadOrStore", o.k, true, e.Value())
			if err != nil {
				return err
			}
			y.h, y.hr = e, r
			return y.calls("LoadOrStore", nil, nil)
		}
		r, err := y.found("LoadOrStore", o.k, false, 0)
		if err != nil {
			return err
		}
		if err := y.calls("LoadOrStore", one(r), nil); err != nil {
			return err
		}
		if y.what == 'r' && e.Value() != o.v {
			return fmt.Errorf("LoadOrStore stored %d but returns %d", o.v, e.Value())
		}
		y.ref[o.k] = newScEnt(o.k, o.v, o.d)
		y.h, y.hr = e, y.ref[o.k]
	case "Delete":
		y.sc.Delete(o.k)
		e := y.ref[o.k]
		if err := y.calls("Delete", one(e), nil); err != nil {
			return err
		}
		delete(y.ref, o.k)
	case "LoadAndDelete":
		e, ok := y.sc.LoadAndDelete(o.k)
		v := 0
		if ok {
			v = e.Value()
		}
		r, err := y.found("LoadAndDelete", o.k, ok, v)
		if err != nil {
			return err
		}
		if ok {
			y.h, y.hr = e, r
			if r == nil { // wrong, but not for this property to tell
				y.cbs = y.cbs[:0]
				y.h = nil
				return nil
			}
			if err := y.calls("LoadAndDelete", one(r), nil); err != nil {
				return err
			}
			delete(y.ref, o.k)
			return nil
		}
		return y.calls("LoadAndDelete", nil, one(r))
	case "CompareAndDelete":
		e := y.ref[o.k]
		same := e != nil && e == y.hr
		ok := y.sc.CompareAndDelete(o.k, y.h)
		if y.what == 'r' {
			if ok && !same {
				return fmt.Errorf("CompareAndDelete(%d) with an entry that is not there reports success", o.k)
			}
			if same && !ok && e.live() && !e.maybe {
				return fmt.Errorf("CompareAndDelete(%d) with the entry that is there fails", o.k)
			}
		}
		if ok {
			if same {
				if err := y.calls("CompareAndDelete", one(e), nil); err != nil {
					return err
				}
				delete(y.ref, o.k)
			}
			return nil
		}
		if same {
			e.maybe = e.maybe || !e.live()
		}
		return y.calls("failed CompareAndDelete", nil, nil)
	case "CompareValueAndDelete":
		ok := y.sc.CompareValueAndDelete(o.k, o.v)
		e, may, must := y.lookup(o.k)
		if y.what == 'r' {
			if ok && (!may || e.val != o.v) {
				return fmt.Errorf("CompareValueAndDelete(%d,%d) reports success although that value is not there", o.k, o.v)
			}
			if !ok && must && e.val == o.v {
				return fmt.Errorf("CompareValueAndDelete(%d,%d) fails although that value is there", o.k, o.v)
			}
		}
		if ok && e != nil {
			if err := y.calls("CompareValueAndDelete", one(e), nil); err != nil {
				return err
			}
			delete(y.ref, o.k)
			return nil
		}
		if e != nil && !e.live() {
			e.maybe = true
			return y.calls("failed CompareValueAndDelete", nil, one(e))
		}
		return y.calls("failed CompareValueAndDelete", nil, nil)
	case "Clear":
		y.sc.Clear()
		if err := y.calls("Clear", append(one(y.ref[1]), one(y.ref[2])...), nil); err != nil {
			return err
		}
		clear(y.ref)
	case "Range", "RangeStop":
		seen := map[int]bool{}
		stopped := false
		var err error
		y.sc.Range(func(k int, e *scEntry) bool {
			if y.what == 'r' {
				if stopped {
					err = fmt.Errorf("Range goes on after the function returned false")
				}
				if seen[k] {
					err = fmt.Errorf("Range visits %d twice", k)
				}
				if _, er := y.found("Range", k, true, e.Value()); er != nil && err == nil {
					err = er
				}
			}
			seen[k] = true
			if o.kind == "RangeStop" {
				stopped = true
				return false
			}
			return true
		})
		if err != nil {
			return err
		}
		var may []*scEnt
		for k := 1; k <= 2; k++ {
			if e := y.ref[k]; e != nil && !e.live() {
				if !seen[k] {
					e.maybe = true
				}
				may = append(may, e)
			}
		}
		if o.kind == "Range" {
			for k := 1; k <= 2; k++ {
				if _, _, must := y.lookup(k); must && !seen[k] && y.what == 'r' {
					return fmt.Errorf("Range does not visit key %d, which is live", k)
				}
			}
		} else if y.what == 'r' && len(seen) == 0 {
			for k := 1; k <= 2; k++ {
				if _, _, must := y.lookup(k); must {
					return fmt.Errorf("Range visits nothing although key %d is live", k)
				}
			}
		}
		return y.calls(o.kind, nil, may)
	case "AddExpiration":
		y.h.AddExpiration(o.d)
		y.hr.lo = satAdd(y.hr.lo, int64(o.d))
		y.hr.hi = satAdd(y.hr.lo, int64(ms))
	case "SetExpiration":
		t := core.ClockNow() + int64(o.d)
		y.h.SetExpiration(time.Unix(0, t))
		y.hr.lo = t
		y.hr.hi = t + int64(ms)
	case "IsExpired":
		if y.what != 'r' {
			return nil
		}
		x := y.h.IsExpired()
		if x && y.hr.live() {
			return fmt.Errorf("IsExpired() although the entry lives for another %v", time.Duration(y.hr.lo-core.ClockNow()))
		}
		if !x && y.hr.dead() {
			return fmt.Errorf("not IsExpired() although the entry expired %v ago", time.Duration(core.ClockNow()-y.hr.lo))
		}
		if y.h.Value() != y.hr.val {
			return fmt.Errorf("Value() of an entry changed from %d to %d", y.hr.val, y.h.Value())
		}
	}
	return nil
}

const forever = time.Duration(math.MaxInt64)

func scOps(keys int, vals []int, lives []time.Duration, adv []time.Duration, handle []time.Duration, full bool) []scSeqOp {
	var ops []scSeqOp
	for _, d := range adv {
		ops = append(ops, scSeqOp{kind: "Advance", d: d})
	}
	for k := 1; k <= keys; k++ {
		ops = append(ops, scSeqOp{kind: "Load", k: k})
		for _, v := range vals {
			for _, d := range lives {
				ops = append(ops, scSeqOp{kind: "Store", k: k, v: k*10 + v, d: d}, scSeqOp{kind: "LoadOrStore", k: k, v: k*10 + v, d: d})
			}
			ops = append(ops, scSeqOp{kind: "CompareValueAndDelete", k: k, v: k*10 + v})
		}
		ops = append(ops, scSeqOp{kind: "Delete", k: k}, scSeqOp{kind: "LoadAndDelete", k: k}, scSeqOp{kind: "CompareAndDelete", k: k})
	}
	ops = append(ops, scSeqOp{kind: "Range"}, scSeqOp{kind: "RangeStop"}, scSeqOp{kind: "Clear"}, scSeqOp{kind: "IsExpired"})
	for _, d := range handle {
		ops = append(ops, scSeqOp{kind: "AddExpiration", d: d})
		if full {
			ops = append(ops, scSeqOp{kind: "SetExpiration", d: d})
		}
	}
	return ops
}

func scSeqJobs(what byte, t bool) (r []Job) {
	add := func(name string, cb, probe bool, offset int64, depth, max int, ops []scSeqOp) {
		r = append(r, Job{Name: name, Run: func(c *Ctx) {
			c.BFS(Spec{Name: name, Depth: depth, MaxStates: max, New: func() Sys { return newScSys(what, cb, probe, offset, ops) }})
		}})
	}
	mx := pick(t, 60000, 600000)
	us := time.Microsecond
	for _, cb := range []bool{true, false} {
		if !cb && what == 'c' {
			continue
		}
		n := map[bool]string{true: " with callback", false: ""}[cb]
		probe := what == 'c'
		add("one key"+n, cb, probe, 0, 40, mx, scOps(1, []int{1, 2}, []time.Duration{ms, forever}, []time.Duration{ms}, nil, false))
		add("one key, unaligned"+n, cb, false, 400_000, 40, mx, scOps(1, []int{1}, []time.Duration{0, 700 * us, 2 * ms}, []time.Duration{300 * us, 700 * us}, nil, false))
		add("one key, moved deadlines"+n, cb, false, 999_999, 40, mx, scOps(1, []int{1}, []time.Duration{-ms, 2 * ms}, []time.Duration{1, ms}, []time.Duration{-2 * ms, ms}, true))
		add("two keys"+n, cb, probe, 1, 40, mx, scOps(2, []int{1}, []time.Duration{ms, forever}, []time.Duration{999_999, 3 * ms}, nil, false))
		add("two keys, extreme lifetimes"+n, cb, false, 0, 40, mx, scOps(2, []int{1}, []time.Duration{math.MinInt64, 0, forever}, []time.Duration{2 * ms}, nil, false))
		add("two keys, moved deadlines"+n, cb, false, 0, 40, mx, scOps(2, []int{1}, []time.Duration{ms}, []time.Duration{500 * us, 2 * ms}, []time.Duration{ms}, true))
		add("far moved deadlines"+n, cb, false, 0, 40, mx, scOps(1, []int{1}, []time.Duration{ms}, []time.Duration{2 * ms}, []time.Duration{-time.Hour, time.Hour}, true))
	}
	r = append(r, Job{Name: "boundaries", Run: func(c *Ctx) { scBoundaries(c, what, t) }})
	return
}

// scBoundaries walks every lifetime over several orders of magnitude and looks just before, at and after its end.
func scBoundaries(c *Ctx, what byte, t bool) {
	lives := []time.Duration{0, 1, ms - 1, ms, ms + 1, 5 * ms, time.Second - ms, time.Second, 61 * time.Second, time.Hour, 25 * time.Hour, 31 * 24 * time.Hour, 366 * 24 * time.Hour, 100 * 366 * 24 * time.Hour}
	offs := []int64{0, 1, 499_999, 500_000, 999_999, 999_000_000, 999_999_999}
	looks := []time.Duration{-time.Hour, -time.Second, -ms, -1, 0, ms, ms + 1, 2 * ms, time.Second, time.Hour, 400 * 24 * time.Hour}
	kinds := []string{"Load", "LoadOrStore", "LoadAndDelete", "CompareValueAndDelete", "Range", "Delete", "Clear", "CompareAndDelete"}
	for _, d := range lives {
		for _, off := range offs {
			for _, l := range looks {
				if d+l < 0 {
					continue
				}
				for _, kind := range kinds {
					for _, how := range []string{"Store", "LoadOrStore", "Add", "Set"} {
						ops := []scSeqOp{{kind: "LoadOrStore", k: 1, v: 11, d: d}, {kind: "Advance", d: d + l}, {kind: kind, k: 1, v: 11, d: ms}, {kind: "Load", k: 1}, {kind: "Clear"}}
						switch how {
						case "Store":
							if kind == "CompareAndDelete" {
								continue
							}
							ops[0].kind = "Store"
						case "Add":
							if d%ms != 0 {
								continue
							}
							ops[0].d = ms
							ops = append(ops[:1:1], append([]scSeqOp{{kind: "AddExpiration", d: d - ms}}, ops[1:]...)...)
						case "Set":
							ops[0].d = 0
							ops = append(ops[:1:1], append([]scSeqOp{{kind: "SetExpiration", d: d}}, ops[1:]...)...)
						}
						if !c.Case(func() string { return fmt.Sprintf("at +%v: %v", time.Duration(off), ops) }, func() error {
							y := newScSys(what, true, false, off, ops)
							for i := range ops {
								c.Trans++
								if err := y.Do(i); err != nil {
									return fmt.Errorf("%v: %v", ops[i], err)
								}
							}
							return nil
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C07, C08: concurrent histories

const (
	scLoad = iota
	scStore
	scLOS
	scLAD
	scDel
	scCAD  // with the entry of the setup
	scCVAD // value A
	scClearKey
	scAdvance
	scClear
	scRange
)

type scOp struct {
	Kind, K, A int
	D          time.Duration
}

var scNames = []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndDelete", "CompareValueAndDelete", "Clear/key", "Advance", "Clear", "Range"}

func (o scOp) String() string {
	switch o.Kind {
	case scStore, scLOS:
		return fmt.Sprintf("%s(%d,%d,%v)", scNames[o.Kind], o.K, o.A, o.D)
	case scCVAD:
		return fmt.Sprintf("%s(%d,%d)", scNames[o.Kind], o.K, o.A)
	case scAdvance:
		return fmt.Sprintf("Advance(%v)", o.D)
	case scClear, scRange:
		return scNames[o.Kind] + "()"
	}
	return fmt.Sprintf("%s(%d)", scNames[o.Kind], o.K)
}

type scRes struct {
	V      int
	OK     bool
	T0, T1 int64
}

func (r scRes) String() string {
	if r.T0 == r.T1 {
		return fmt.Sprintf("%d,%v", r.V, r.OK)
	}
	return fmt.Sprintf("%d,%v (clock moved)", r.V, r.OK)
}

func (r scRes) sig() uint64 {
	h := uint64(r.V) * 2
	if r.OK {
		h++
	}
	return mix(mix(h, uint64(r.T0)), uint64(r.T1))
}

// scState is the model: per key the entry present (value 0: none) with its deadline, and callbacks per value.
type scState struct {
	v, id [3]int8
	dl    [3]int64
	cb    [8]int16
}

func (s *scState) put(o scOp, now int64, id int) {
	s.v[o.K], s.dl[o.K], s.id[o.K] = int8(o.A), satAdd(now, int64(o.D)), int8(id)
}

func floorMs(t int64) int64 { return t / int64(ms) }

// scWindow: expiry is certain a millisecond after the deadline and excluded up to it.
func (s *scState) canLive(k int, now int64) bool {
	return s.v[k] != 0 && now < satAdd(s.dl[k], int64(ms))
}
func (s *scState) canDead(k int, now int64) bool { return s.v[k] != 0 && now > s.dl[k] }

func (s *scState) drop(k int) scState {
	t := *s
	t.cb[t.v[k]]++
	t.v[k], t.dl[k], t.id[k] = 0, 0, 0
	return t
}

type scScenario struct {
	init    []scOp
	mode    string // "live", "expired", "expiring"
	threads [][]scOp
	clock   []time.Duration // what the clock thread does
	sweep   bool
	bound   int32
	c       *Ctx
	cb      bool // judge callbacks
	intr    *core.Intrusion
}

func (s *scScenario) desc() []string {
	r := []string{fmt.Sprintf("setup %v", s.init)}
	for i, t := range s.threads {
		r = append(r, fmt.Sprintf("T%d %v", i, t))
	}
	if s.clock != nil {
		r = append(r, fmt.Sprintf("clock advances by %v", s.clock))
	}
	if s.intr != nil {
		r = append(r, intrDesc(s.intr))
	}
	return r
}

func scDo(sc *scCache, h *scEntry, o scOp) (r scRes) {
	r.T0 = core.ClockNow()
	switch o.Kind {
	case scLoad:
		if e, ok := sc.Load(o.K); ok {
			r.V, r.OK = e.Value(), true
		}
	case scStore:
		sc.Store(o.K, o.A, o.D)
	case scLOS:
		e, ok := sc.LoadOrStore(o.K, o.A, o.D)
		r.V, r.OK = e.Value(), ok
	case scLAD:
		if e, ok := sc.LoadAndDelete(o.K); ok {
			r.V, r.OK = e.Value(), true
		}
	case scDel:
		sc.Delete(o.K)
	case scCAD:
		r.OK = sc.CompareAndDelete(o.K, h)
	case scCVAD:
		r.OK = sc.CompareValueAndDelete(o.K, o.A)
	case scClear:
		sc.Clear()
	case scRange:
		sc.Range(func(int, *scEntry) bool { return true })
	case scAdvance:
		core.AdvanceQuiet(int64(o.D))
	}
	r.T1 = core.ClockNow()
	return
}

type cbRec struct {
	v  int
	at int64
}

func (s *scScenario) prog(x *core.Exec) func() error {
	x.DropGo = !s.sweep
	x.Intr = s.intr
	var cbs []cbRec
	var opts []synccache.SyncCacheConfig[int, int]
	if s.cb {
		opts = append(opts, synccache.WithDeletedCallback[int, int](func(v int) { cbs = append(cbs, cbRec{v, core.Stamp()}) }))
	}
	sc := synccache.NewSyncCache[int, int](time.Second, opts...)
	var st scState
	var h *scEntry
	for i, o := range s.init {
		switch o.Kind {
		case scLOS:
			e, _ := sc.LoadOrStore(o.K, o.A, o.D)
			st.put(o, core.ClockNow(), i+1)
			if o.K == 1 && h == nil {
				h = e
			}
		case scDel:
			sc.Delete(o.K)
			st.v[o.K], st.dl[o.K], st.id[o.K] = 0, 0, 0
		default:
			scDo(sc, h, o)
		}
	}
	cbs = cbs[:0]
	n := len(s.threads)
	hist := NewHist[scOp, scRes](n+2, 6)
	for i, ops := range s.threads {
		x.Spawn(fmt.Sprintf("T%d", i), func() {
			for _, o := range ops {
				hist.Call(i, o, func() scRes { return scDo(sc, h, o) })
			}
		})
	}
	if s.clock != nil {
		x.Spawn("clock", func() {
			for _, d := range s.clock {
				core.Advance(d)
			}
		})
	}
	// quiescent: look at both keys
	look := func() {
		for k := 1; k <= 2; k++ {
			o := scOp{Kind: scLoad, K: k}
			hist.Call(n, o, func() scRes { return scDo(sc, h, o) })
		}
	}
	if s.sweep {
		x.Spawn("end", func() {
			core.Idle()
			look()
		})
	}
	return func() error {
		if !s.sweep {
			look()
		}
		ev := hist.All()
		sg := uint64(0)
		if s.intr == nil {
			sg = signature(ev)
		}
		var got [8]int16
		for _, r := range cbs {
			sg = mix(sg, uint64(r.v))
			if r.v > 0 && r.v < 8 {
				got[r.v]++
			}
			for i := range ev {
				if ev[i].Ret < r.at {
					sg = mix(sg, uint64(i+1))
				}
			}
		}
		if s.c.Seen(sg) {
			return nil
		}
		// values stored by exactly one operation identify their entry
		if s.cb {
			stores := map[int]int{}
			for _, o := range s.init {
				if o.Kind == scLOS {
					stores[o.A]++
				}
			}
			for i := range ev {
				if o := ev[i].Op; o.Kind == scStore || o.Kind == scLOS {
					stores[o.A]++
				}
			}
			for _, r := range cbs {
				if stores[r.v] != 1 {
					continue
				}
				for i := range ev {
					if ev[i].Call > r.at && ev[i].Res.OK && ev[i].Res.V == r.v && ev[i].Op.Kind != scCAD && ev[i].Op.Kind != scCVAD {
						return fmt.Errorf("%v returned %d after its delete callback: %s", ev[i].Op, r.v, histString(ev))
					}
				}
			}
		}
		// Clear is not one step: it removes key by key
		var evs []Event[scOp, scRes]
		for _, e := range ev {
			if e.Op.Kind == scClear {
				for k := 1; k <= 2; k++ {
					f := e
					f.Op = scOp{Kind: scClearKey, K: k}
					// a key written meanwhile may survive
					for _, g := range ev {
						if (g.Op.Kind == scStore || g.Op.Kind == scLOS) && g.Op.K == k && g.Call < e.Ret && e.Call < g.Ret {
							f.Op.A = 1
						}
					}
					evs = append(evs, f)
				}
				continue
			}
			evs = append(evs, e)
		}
		ok := Linearizable(st, evs, s.step, func(t scState) bool {
			if !s.cb {
				return true
			}
			if t.cb == got {
				return true
			}
			{ // what is expired now may have been removed last
				for k := 1; k <= 2; k++ {
					if t.canDead(k, core.ClockNow()) {
						u := t.drop(k)
						if u.cb == got {
							return true
						}
						if j := 3 - k; u.canDead(j, core.ClockNow()) {
							if w := u.drop(j); w.cb == got {
								return true
							}
						}
					}
				}
			}
			return false
		})
		if !ok {
			m := ""
			if s.cb {
				var b strings.Builder
				sort.Slice(cbs, func(i, j int) bool { return cbs[i].v < cbs[j].v })
				for _, r := range cbs {
					fmt.Fprintf(&b, " %d", r.v)
				}
				m = fmt.Sprintf(" with callbacks for [%s ]", b.String())
			}
			return fmt.Errorf("no order of the calls explains: %s%s", histString(ev), m)
		}
		return nil
	}
}

// step applies one call to the model; the clock the call goes by is any reading within it. An expired entry
// may be removed, with its callback, at any time (by the sweep or by a look-up that finds it).
func (s *scScenario) step(st scState, e *Event[scOp, scRes], emit func(scState)) {
	if s.cb || s.sweep {
		for k := 1; k <= 2; k++ {
			if st.canDead(k, e.Res.T1) {
				t := st.drop(k)
				s.apply(t, e, emit)
				if j := 3 - k; k == 1 && t.canDead(j, e.Res.T1) {
					s.apply(t.drop(j), e, emit)
				}
			}
		}
	}
	s.apply(st, e, emit)
}

func (s *scScenario) apply(st scState, e *Event[scOp, scRes], emit func(scState)) {
	s.at(st, e, e.Res.T0, emit)
	if e.Res.T1 != e.Res.T0 {
		s.at(st, e, e.Res.T1, emit)
	}
}

func (s *scScenario) at(st scState, e *Event[scOp, scRes], now int64, emit func(scState)) {
	o, r := e.Op, e.Res
	k := o.K
	absent := st.v[k] == 0
	live, dead := st.canLive(k, now), st.canDead(k, now)
	has := live && int(st.v[k]) == r.V
	rm := st
	rm.v[k], rm.dl[k], rm.id[k] = 0, 0, 0
	id := int(e.Call%100) + 10
	switch o.Kind {
	case scLoad:
		if r.OK && has || !r.OK && (absent || dead) {
			emit(st)
		}
		if !r.OK && dead {
			emit(st.drop(k))
		}
	case scStore:
		st.put(o, now, id)
		emit(st)
	case scLOS:
		if r.OK {
			if has {
				emit(st)
			}
			return
		}
		if r.V != o.A {
			return
		}
		base := st
		if !absent {
			if !dead {
				return
			}
			base = st.drop(k)
		}
		base.put(o, e.Res.T0, id)
		emit(base)
		if e.Res.T1 != e.Res.T0 {
			base.put(o, e.Res.T1, id)
			emit(base)
		}
	case scLAD:
		if r.OK {
			if has {
				emit(st.drop(k))
			}
			return
		}
		if absent || dead {
			emit(st)
		}
		if dead {
			emit(st.drop(k))
		}
	case scDel:
		if absent {
			emit(st)
		} else {
			emit(st.drop(k))
		}
	case scCAD:
		mine := st.id[k] == s.handleID()
		if r.OK && mine {
			emit(st.drop(k))
		}
		if !r.OK && (!mine || dead) {
			emit(st)
		}
	case scCVAD:
		eq := int(st.v[k]) == o.A
		if r.OK {
			if live && eq {
				emit(st.drop(k))
			}
			return
		}
		if !live || !eq || dead {
			emit(st)
		}
		if dead {
			emit(st.drop(k))
		}
	case scClearKey:
		if absent || o.A == 1 {
			emit(st)
		}
		if !absent {
			emit(st.drop(k))
		}
	}
}

func (s *scScenario) handleID() int8 {
	for i, o := range s.init {
		if o.Kind == scLOS && o.K == 1 {
			return int8(i + 1)
		}
	}
	return -1
}

const scLong, scShort = time.Hour, 2 * ms

// scInits: configurations of the underlying map, each with live, expired and expiring entries.
func scInits(life time.Duration) [][]scOp {
	a := scOp{Kind: scLOS, K: 1, A: 1, D: life}
	b := scOp{Kind: scLOS, K: 2, A: 2, D: life}
	rg := scOp{Kind: scRange}
	return [][]scOp{
		{a},
		{a, rg},
		{a, b, rg},
		{b, rg, a},
		{a, rg, b},
		{a, rg, {Kind: scDel, K: 1}},
		{a, rg, {Kind: scDel, K: 1}, b},
	}
}

func scAlpha(u int, clear bool, full bool) []scOp {
	a := []scOp{
		{Kind: scLoad, K: 1}, {Kind: scStore, K: 1, A: u, D: scLong}, {Kind: scLOS, K: 1, A: u, D: scLong}, {Kind: scLAD, K: 1},
		{Kind: scDel, K: 1}, {Kind: scCAD, K: 1}, {Kind: scCVAD, K: 1, A: 1},
	}
	if clear {
		a = append(a, scOp{Kind: scClear})
	}
	if full {
		a = append(a, scOp{Kind: scStore, K: 1, A: 1, D: scLong}, scOp{Kind: scStore, K: 2, A: u, D: scLong}, scOp{Kind: scStore, K: 1, A: u, D: scShort},
			scOp{Kind: scLAD, K: 2}, scOp{Kind: scLOS, K: 1, A: u, D: 0}, scOp{Kind: scLOS, K: 2, A: u, D: scLong})
	}
	return a
}

func passive(o scOp) bool { return o.Kind == scLoad }

// scFam enumerates scenarios: shape is the number of calls per thread.
func scFam(cb bool, modes []string, shape []int, full bool, ninit int, bound int32) func(emit func(s *scScenario) bool) {
	return func(emit func(s *scScenario) bool) {
		for _, mode := range modes {
			life := scLong
			if mode != "live" {
				life = scShort
			}
			inits := scInits(life)
			if mode == "live" {
				inits = append([][]scOp{nil}, inits...)
			}
			if len(inits) > ninit {
				inits = inits[:ninit]
			}
			for _, in := range inits {
				s := scScenario{init: in, mode: mode, bound: bound, cb: cb}
				switch mode {
				case "expired":
					s.init = append(append([]scOp{}, in...), scOp{Kind: scAdvance, D: 10 * ms})
				case "expiring":
					s.clock = []time.Duration{10 * ms}
				case "swept":
					s.sweep = true
					s.clock = []time.Duration{6 * time.Second}
				}
				var gen func(i, j int, ths [][]scOp) bool
				val := 3
				gen = func(i, j int, ths [][]scOp) bool {
					if i == len(shape) {
						q := s
						q.threads = make([][]scOp, len(ths))
						n := 0
						for i := range ths {
							q.threads[i] = append([]scOp{}, ths[i]...)
							for _, o := range ths[i] {
								if !passive(o) {
									n++
								}
							}
						}
						if n == 0 || n == 1 && mode == "live" && len(ths) == 1 {
							return true
						}
						return emit(&q)
					}
					if j == shape[i] {
						// threads of the same length are interchangeable
						if i > 0 && shape[i] == shape[i-1] && lessOps(ths[i], ths[i-1]) {
							return true
						}
						return gen(i+1, 0, ths)
					}
					if j == 0 {
						ths = append(ths, nil)
					}
					v := val
					for a, b := range shape {
						if a < i {
							v += b
						}
					}
					for _, o := range scAlpha(v+j, cb, full) {
						ths[i] = append(ths[i][:j:j], o)
						if !gen(i, j+1, ths) {
							return false
						}
					}
					return true
				}
				if !gen(0, 0, nil) {
					return
				}
			}
		}
	}
}

func lessOps(a, b []scOp) bool {
	for i := range a {
		x, y := a[i], b[i]
		if x.A >= 3 {
			x.A = 3
		}
		if y.A >= 3 {
			y.A = 3
		}
		if x != y {
			return fmt.Sprint(x) < fmt.Sprint(y)
		}
	}
	return false
}

func scJobs(name string, race bool, shards int, fam func(emit func(s *scScenario) bool)) []Job {
	var r []Job
	for i := 0; i < shards; i++ {
		r = append(r, Job{Name: fmt.Sprintf("%s/%d", name, i), Race: race, Conc: true, Run: func(c *Ctx) {
			n := 0
			fam(func(s *scScenario) bool {
				n++
				if n%shards != i {
					return true
				}
				s.c = c
				return c.Conc(ConcSpec{Name: "synccache", Desc: s.desc, Prog: s.prog, Bound: s.bound, MaxSteps: intrSteps(s.intr)})
			})
		}})
	}
	return r
}

func scConcJobs(cb, t bool) (r []Job) {
	all := []string{"live", "expired", "expiring"}
	if !t {
		r = append(r, scJobs("pairs", false, 16, scFam(cb, all, []int{1, 1}, true, 8, 4))...)
		r = append(r, scJobs("triples", false, 16, scFam(cb, []string{"live", "expired"}, []int{1, 1, 1}, false, 5, 2))...)
		r = append(r, scJobs("2x1", false, 16, scFam(cb, []string{"live", "expired"}, []int{2, 1}, true, 4, 2))...)
		r = append(r, scJobs("sweep", false, 16, scFam(cb, []string{"swept"}, []int{1, 1}, false, 3, 2))...)
		return
	}
	r = append(r, scJobs("pairs", false, 32, scFam(cb, all, []int{1, 1}, true, 8, 8))...)
	r = append(r, scJobs("triples", false, 64, scFam(cb, all, []int{1, 1, 1}, true, 6, 2))...)
	r = append(r, scJobs("triples-deep", false, 64, scFam(cb, all, []int{1, 1, 1}, false, 5, 3))...)
	r = append(r, scJobs("2x1", false, 64, scFam(cb, all, []int{2, 1}, true, 8, 3))...)
	r = append(r, scJobs("2x2", false, 64, scFam(cb, all, []int{2, 2}, false, 4, 2))...)
	r = append(r, scJobs("sweep", false, 32, scFam(cb, []string{"swept"}, []int{1, 1}, true, 7, 3))...)
	r = append(r, scJobs("sweep3", false, 32, scFam(cb, []string{"swept"}, []int{1}, true, 7, 6))...)
	return
}

func init() {
	seqAs := []string{"virtual clock in place of time.Now; the code under test depends on differences between times only (states are compared relative to the clock)"}
	concAs := []string{"Go's sequentially consistent atomics; scheduling points at synchronisation operations and clock readings; unsynchronised accesses are C05's subject",
		"2-3 goroutines, 1-2 calls each, 2 keys, one clock step per schedule, preemption bound as stated"}
	register(&Check{ID: "C06", Bounds: "all call sequences over 1-2 keys, 1-2 values, lifetimes from -MaxInt64 to MaxInt64 and clock steps from 1 ns (closed under reachable states relative to the clock, or to the stated number of states), plus every lifetime x clock alignment x look-up instant x method of a boundary grid; CompareValueAndDelete on every pair of values of 12 types",
		Assume: append(append([]string{}, seqAs...), concAs...), Jobs: func(t bool) []Job {
			return append(append(append(scBrief(t), scSeqJobs('r', t)...), scValuesJob(false), exJob(t)), raceSC(t)...)
		}})
	register(&Check{ID: "C07", Bounds: "all schedules (preemption-bounded) of 2 threads x 1-2 calls and 3 threads x 1 call, from 8 configurations of the underlying map with live, expired and currently expiring entries, with and without a background sweep; one call disturbed by 12 to 300 calls of another goroutine at every regular spacing up to 16 (32) steps; brute-force linearizability of every history",
		Assume: concAs, Jobs: func(t bool) []Job {
			return append(append(scConcJobs(false, t), scValuesJob(false)), raceSC(t)...)
		}})
	register(&Check{ID: "C08", Bounds: "single-threaded: as C06 with the callbacks of every call accounted for; concurrent: as C07 with Clear, requiring an order of the calls that explains results and callback counts together",
		Assume: append(append([]string{}, seqAs...), concAs...), Jobs: func(t bool) []Job {
			return append(append(append(scConcJobs(true, t), scSeqJobs('c', t)...), scValuesJob(true)), raceSC(t)...)
		}})
}
