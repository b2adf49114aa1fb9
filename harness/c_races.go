package main

import (
	"context"
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- C05: races, deadlocks, panics, hangs

// c5Op is one call on the object under test; it keeps nothing the harness shares between threads.
type c5Op struct {
	name string
	f    func(thread int)
}

type c5Fam struct {
	name  string
	inits []string
	mk    func(init int) []c5Op
	sweep bool // let the sweeping goroutine run, with a clock that moves
	only  func(a, b string) bool
}

type c5Panic struct{}

func c5Safe(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(c5Panic); !ok {
				panic(p)
			}
		}
	}()
	f()
}

func (fm *c5Fam) prog(init int, threads [][]int) core.Program {
	return func(x *core.Exec) func() error {
		x.DropGo = !fm.sweep
		ops := fm.mk(init)
		for i, t := range threads {
			x.Spawn(fmt.Sprintf("T%d", i), func() {
				for _, o := range t {
					core.CallPoint(ops[o].name)
					c5Safe(func() { ops[o].f(i) })
					core.EndCall()
				}
			})
		}
		if fm.sweep {
			x.Spawn("clock", func() { core.Advance(6 * time.Second) })
		}
		// whatever happened, everything still works
		n := len(threads)
		x.Spawn("end", func() {
			core.Idle()
			for i := range ops {
				c5Safe(func() { ops[i].f(n) })
			}
		})
		return func() error { return nil }
	}
}

func (fm *c5Fam) shard(c *Ctx, shard, shards int, shape []int, bound int32) {
	names := fm.mk(0)
	n := 0
	threads := make([][]int, len(shape))
	for i := range shape {
		threads[i] = make([]int, shape[i])
	}
	for in := range fm.inits {
		var gen func(i, j int) bool
		gen = func(i, j int) bool {
			if i == len(shape) {
				if fm.only != nil && len(shape) > 1 && !fm.only(names[threads[0][0]].name, names[threads[1][0]].name) {
					return true
				}
				n++
				if n%shards != shard {
					return true
				}
				ts := make([][]int, len(threads))
				for i := range ts {
					ts[i] = append([]int{}, threads[i]...)
				}
				return c.Conc(ConcSpec{Name: fm.name, Bound: bound, Prog: fm.prog(in, ts), Desc: func() []string {
					r := []string{"setup " + fm.inits[in]}
					for i, t := range ts {
						s := fmt.Sprintf("T%d", i)
						for _, o := range t {
							s += " " + names[o].name
						}
						r = append(r, s)
					}
					return r
				}})
			}
			if j == shape[i] {
				if i > 0 && shape[i] == shape[i-1] {
					for k := range threads[i] {
						if threads[i][k] != threads[i-1][k] {
							if threads[i][k] < threads[i-1][k] {
								return true
							}
							break
						}
					}
				}
				return gen(i+1, 0)
			}
			for o := range names {
				threads[i][j] = o
				if !gen(i, j+1) {
					return false
				}
			}
			return true
		}
		if !gen(0, 0) {
			return
		}
	}
}

func (fm *c5Fam) jobs(tag string, race bool, shards int, shape []int, bound int32) (r []Job) {
	for i := 0; i < shards; i++ {
		r = append(r, Job{Name: fmt.Sprintf("%s %s/%d", fm.name, tag, i), Race: race, Conc: true, Run: func(c *Ctx) { fm.shard(c, i, shards, shape, bound) }})
	}
	return
}

// ---------------------------------------------------------------- rwmap

func c5RW(keys, depth int) *c5Fam {
	ins := rwInits(keys, depth, false)
	fm := &c5Fam{name: "rwmap"}
	for _, in := range ins {
		fm.inits = append(fm.inits, fmt.Sprint(in.hist))
	}
	fm.mk = func(init int) []c5Op {
		m := &rwMap{}
		for _, o := range ins[init].hist {
			rwDo(m, o)
		}
		var r []c5Op
		add := func(n string, f func(t int)) { r = append(r, c5Op{n, f}) }
		for _, o := range []rwOp{{Kind: rwLoad, K: 1}, {Kind: rwStore, K: 1, A: 5}, {Kind: rwLOS, K: 1, A: 5}, {Kind: rwLAD, K: 1}, {Kind: rwDel, K: 1},
			{Kind: rwSwap, K: 1, A: 5}, {Kind: rwCAS, K: 1, A: 1, B: 5}, {Kind: rwCAD, K: 1, A: 1}, {Kind: rwClear}, {Kind: rwRange}, {Kind: rwLen}, {Kind: rwSlowLen},
			{Kind: rwStore, K: 2, A: 5}, {Kind: rwLoad, K: 3}} {
			add(o.String(), func(int) { rwDo(m, o) })
		}
		inner := []rwOp{{Kind: rwLoad, K: 1}, {Kind: rwStore, K: 1, A: 6}, {Kind: rwStore, K: 3, A: 6}, {Kind: rwLAD, K: 1}, {Kind: rwCAD, K: 1, A: 1}, {Kind: rwClear}, {Kind: rwRange}, {Kind: rwSlowLen}, {Kind: rwLen}}
		for _, o := range inner {
			add("Range{"+o.String()+"}", func(int) {
				n := 0
				m.Range(func(int, int) bool { n++; rwDo(m, o); return n < 4 })
			})
		}
		add("Range{panic}", func(int) { m.Range(func(int, int) bool { panic(c5Panic{}) }) })
		return r
	}
	return fm
}

// ---------------------------------------------------------------- synccache

var c5Callbacks = []string{"no callback", "plain callback", "callback looks up", "callback stores", "callback deletes", "callback clears", "callback ranges", "callback panics"}

func c5SC(kinds []int, sweep bool) *c5Fam {
	fm := &c5Fam{name: "synccache", sweep: sweep}
	type cf struct{ cb, state int }
	var cfs []cf
	states := []string{"empty", "live entry", "expired entry", "live and expired", "promoted", "deleted"}
	for _, k := range kinds {
		for s := range states {
			if k > 1 && s == 0 || sweep && k == 7 {
				continue
			}
			cfs = append(cfs, cf{k, s})
			fm.inits = append(fm.inits, states[s]+", "+c5Callbacks[k])
		}
	}
	fm.mk = func(init int) []c5Op {
		k := cfs[init]
		var sc *scCache
		var cb func(v int)
		switch k.cb {
		case 1:
			cb = func(int) { core.Point("callback") }
		case 2:
			cb = func(int) { sc.Load(1) }
		case 3:
			cb = func(v int) {
				if v < 50 {
					sc.Store(1, 50, time.Hour)
				}
			}
		case 4:
			cb = func(int) { sc.LoadAndDelete(2) }
		case 5:
			cb = func(int) { sc.Clear() }
		case 6:
			cb = func(v int) {
				sc.Range(func(int, *scEntry) bool { return true })
			}
		case 7:
			cb = func(int) { panic(c5Panic{}) }
		}
		var opts []synccache.SyncCacheConfig[int, int]
		if cb != nil {
			opts = append(opts, synccache.WithDeletedCallback[int, int](cb))
		}
		sc = synccache.NewSyncCache[int, int](time.Second, opts...)
		var h *scEntry
		put := func(key int, d time.Duration) {
			e, _ := sc.LoadOrStore(key, key, d)
			if h == nil {
				h = e
			}
		}
		switch k.state {
		case 1:
			put(1, time.Hour)
		case 2:
			put(1, ms)
			core.AdvanceQuiet(int64(5 * ms))
		case 3:
			put(2, ms)
			put(1, time.Hour)
			core.AdvanceQuiet(int64(5 * ms))
		case 4:
			put(1, time.Hour)
			put(2, time.Hour)
			sc.Range(func(int, *scEntry) bool { return true })
		case 5:
			put(1, time.Hour)
			put(2, time.Hour)
			sc.Range(func(int, *scEntry) bool { return true })
			c5Safe(func() { sc.Delete(1) })
			c5Safe(func() { sc.Delete(2) })
		}
		if h == nil {
			h = synccache.NewEntry(9, time.Hour)
		}
		var r []c5Op
		add := func(n string, f func(t int)) { r = append(r, c5Op{n, f}) }
		add("Load", func(int) { sc.Load(1) })
		add("Store(long)", func(t int) { sc.Store(1, 10+t, time.Hour) })
		add("Store(2)", func(t int) { sc.Store(2, 20+t, time.Hour) })
		add("Store(expired)", func(t int) { sc.Store(1, 10+t, -time.Second) })
		add("LoadOrStore", func(t int) { sc.LoadOrStore(1, 10+t, time.Hour) })
		add("LoadAndDelete", func(int) { sc.LoadAndDelete(1) })
		add("Delete", func(int) { sc.Delete(1) })
		add("CompareAndDelete", func(int) { sc.CompareAndDelete(1, h) })
		add("CompareValueAndDelete", func(int) { sc.CompareValueAndDelete(1, 1) })
		add("Clear", func(int) { sc.Clear() })
		add("Range", func(int) { sc.Range(func(int, *scEntry) bool { return true }) })
		if k.cb <= 1 {
			add("Range{entry}", func(int) {
				sc.Range(func(_ int, e *scEntry) bool { e.Value(); e.IsExpired(); e.AddExpiration(-time.Hour); return true })
			})
			add("Range{Store}", func(t int) {
				sc.Range(func(k int, e *scEntry) bool { sc.Store(k+1, 30+t, time.Hour); return k < 3 })
			})
			add("Range{Delete}", func(int) { sc.Range(func(k int, e *scEntry) bool { sc.Delete(k); return true }) })
			add("Range{Clear}", func(int) { sc.Range(func(k int, e *scEntry) bool { sc.Clear(); return true }) })
			add("Range{panic}", func(int) { sc.Range(func(k int, e *scEntry) bool { panic(c5Panic{}) }) })
			add("entry", func(t int) {
				if e, ok := sc.Load(1); ok {
					e.AddExpiration(time.Second)
					e.IsExpired()
					e.Value()
				}
			})
			add("held entry", func(t int) {
				h.IsExpired()
				h.SetExpiration(time.Unix(0, core.ClockNow()-int64(time.Hour)))
				h.AddExpiration(time.Hour)
				h.Value()
			})
			add("Start", func(int) { sc.Start() })
			add("Close", func(int) { sc.Close() })
			add("NewSyncCache", func(int) {
				q := synccache.NewSyncCache[int, int](time.Second)
				q.Store(1, 1, time.Hour)
				q.Close()
			})
		}
		return r
	}
	return fm
}

// ---------------------------------------------------------------- refresh caches

func c5RC(variants []int) *c5Fam {
	fm := &c5Fam{name: "refresh caches"}
	type cf struct {
		variant        int
		maxAge, errAge time.Duration
		init           string
	}
	var cfs []cf
	for _, v := range variants {
		for _, k := range []cf{{v, -1, 0, ""}, {v, 10, 15, "o"}, {v, 10, 15, "e"}, {v, 10, 15, "oe"}, {v, 0, 15, "eo"}, {v, 10, 15, "ea"}} {
			cfs = append(cfs, k)
			fm.inits = append(fm.inits, fmt.Sprintf("%s maxAge %d errAge %d history %q", rcVariants[v], k.maxAge, k.errAge, k.init))
		}
	}
	type ck struct{}
	fm.mk = func(init int) []c5Op {
		k := cfs[init]
		fn := func(ctx context.Context, a ...int) (int, error) {
			core.Point("refresh function")
			switch ctx.Value(ck{}) {
			case 'e':
				return 0, rcErrs[0]
			case 'p':
				panic(c5Panic{})
			}
			return 7, nil
		}
		cl := func(ctx context.Context, a ...int) error {
			core.Point("clear function")
			switch ctx.Value(ck{}) {
			case 'e':
				return rcErrs[1]
			case 'p':
				panic(c5Panic{})
			}
			return nil
		}
		y := rcNew(k.variant, k.maxAge, k.errAge, fn, cl)
		with := func(o rune) context.Context { return context.WithValue(context.Background(), ck{}, o) }
		for _, o := range k.init {
			switch o {
			case 'a':
				core.AdvanceQuiet(100)
			default:
				y.refresh(with(o), 1)
			}
		}
		var r []c5Op
		add := func(n string, f func(t int)) { r = append(r, c5Op{n, f}) }
		for _, o := range "oep" {
			add("Get/"+string(o), func(t int) { y.get(with(o), t) })
			add("Refresh/"+string(o), func(t int) { y.refresh(with(o), t) })
			add("Clear/"+string(o), func(t int) { y.clear(with(o), t) })
		}
		add("Raw", func(int) { y.raw() })
		add("accessors", func(int) {
			y.last()
			y.lastErr()
			y.lastTime()
			y.lastErrTime()
			y.maxAge()
			y.errAge()
			y.touch()
		})
		if k.variant < 3 {
			add("SetRefreshFunc", func(int) { y.setR(fn) })
			add("SetClearFunc", func(int) { y.setC(cl) })
		}
		return r
	}
	return fm
}

func init() {
	register(&Check{ID: "C05", Bounds: "all schedules (preemption-bounded) of every pair (and, without the race detector, triples and longer programs) of exported methods of RWMap, SyncCache with its entries, and the three refresh caches, including re-entrant and panicking Range functions, delete callbacks and refresh and clear functions and the sweeping goroutine; race detector in the race builds, deadlock, livelock and panic detection in all; afterwards every method is called once more",
		Assume: []string{"the happens-before relation is the Go race detector's, fed with the synchronisation of the controlled scheduler; a sync.Mutex, an atomic and a channel order accesses as in the Go memory model",
			"callbacks of a synccache are re-entrant to a bounded depth; refresh functions that call back into their own cache are not covered"},
		Jobs: func(t bool) (r []Job) {
			rw := c5RW(2, pick(t, 3, 4))
			sc := c5SC([]int{0, 1}, false)
			scRe := c5SC([]int{2, 3, 4, 5, 6, 7}, false)
			sw := c5SC([]int{0, 1, 2}, true)
			sw.inits = sw.inits[:pick(t, 12, 17)]
			rc := c5RC([]int{0, 1, 2})
			rd := c5RC([]int{3, 4, 5})
			if !t {
				r = append(r, rw.jobs("race", true, 16, []int{1, 1}, 1)...)
				r = append(r, sc.jobs("race", true, 16, []int{1, 1}, 1)...)
				r = append(r, rc.jobs("race", true, 8, []int{1, 1}, 1)...)
				r = append(r, rd.jobs("race", true, 8, []int{1, 1}, 1)...)
				r = append(r, sw.jobs("race sweep", true, 8, []int{1}, 1)...)
				r = append(r, rw.jobs("pairs", false, 8, []int{1, 1}, 2)...)
				r = append(r, scRe.jobs("re-entrant", false, 8, []int{1, 1}, 2)...)
				r = append(r, rc.jobs("pairs", false, 8, []int{1, 1}, 4)...)
				r = append(r, rc.jobs("triples", false, 8, []int{1, 1, 1}, 1)...)
				r = append(r, sc.jobs("pairs", false, 8, []int{1, 1}, 2)...)
				return
			}
			r = append(r, rw.jobs("race", true, 32, []int{1, 1}, 2)...)
			r = append(r, sc.jobs("race", true, 32, []int{1, 1}, 2)...)
			r = append(r, scRe.jobs("race", true, 32, []int{1, 1}, 1)...)
			r = append(r, rc.jobs("race", true, 32, []int{1, 1}, 3)...)
			r = append(r, rd.jobs("race", true, 32, []int{1, 1}, 3)...)
			r = append(r, rc.jobs("race triples", true, 32, []int{1, 1, 1}, 1)...)
			r = append(r, sw.jobs("race sweep", true, 16, []int{1}, 2)...)
			r = append(r, sw.jobs("race sweep pairs", true, 64, []int{1, 1}, 1)...)
			r = append(r, rw.jobs("pairs", false, 32, []int{1, 1}, 5)...)
			r = append(r, rw.jobs("triples", false, 64, []int{1, 1, 1}, 1)...)
			r = append(r, scRe.jobs("re-entrant", false, 32, []int{1, 1}, 4)...)
			r = append(r, rc.jobs("triples", false, 64, []int{1, 1, 1}, 2)...)
			r = append(r, rc.jobs("2x2", false, 64, []int{2, 2}, 1)...)
			r = append(r, sc.jobs("triples", false, 64, []int{1, 1, 1}, 1)...)
			return
		}})
}
