package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- C09: the background sweep

const swLimit = 10 * time.Second

// swCache is a cache under test with the reference bookkeeping of its entries.
type swCache struct {
	name    string
	store   func(k, v int, d time.Duration)
	swap    func(k, v int, d time.Duration) (int, bool) // LoadOrStore
	load    func(k int) (int, bool)
	still   func(v int) bool // the entry that was stored with v is still in the cache
	start   func()
	close   func()
	clear   func()
	add     func(k int, d time.Duration) bool // AddExpiration of the live entry
	cbs     map[int]int
	hasCB   bool
	ref     map[int]*swEnt
	over    map[int]bool // replaced values
	open    bool
	started int64
	gone    map[int]bool
}

type swEnt struct {
	v  int
	dl int64
}

func swNew[K comparable, V comparable](name string, rank int, cb bool, zero bool, key func(int) K, val func(int) V, un func(V) int) *swCache {
	c := &swCache{name: name, cbs: map[int]int{}, ref: map[int]*swEnt{}, over: map[int]bool{}, gone: map[int]bool{}, hasCB: cb, open: true}
	var sc *synccache.SyncCache[K, V]
	switch {
	case zero && !cb:
		sc = &synccache.SyncCache[K, V]{}
		core.NameObject(sc, rank)
		sc.Start()
	case cb:
		sc = synccache.NewSyncCache[K, V](time.Second, synccache.WithDeletedCallback[K, V](func(v V) { c.cbs[un(v)]++ }))
	default:
		sc = synccache.NewSyncCache[K, V](time.Second)
	}
	core.NameObject(sc, rank)
	c.started = core.ClockNow()
	ents := map[int]*synccache.Entry[V]{}
	keys := map[int]int{}
	note := func(k, v int) {
		if cb { // the look-up would disturb the map; the final Clear tells
			return
		}
		if e, ok := sc.Load(key(k)); ok && e.Value() == val(v) {
			ents[v], keys[v] = e, k
		}
	}
	c.store = func(k, v int, d time.Duration) { sc.Store(key(k), val(v), d); note(k, v) }
	c.swap = func(k, v int, d time.Duration) (int, bool) {
		e, ok := sc.LoadOrStore(key(k), val(v), d)
		if !ok {
			ents[v], keys[v] = e, k
		}
		return un(e.Value()), ok
	}
	c.load = func(k int) (int, bool) {
		e, ok := sc.Load(key(k))
		if !ok {
			return 0, false
		}
		return un(e.Value()), true
	}
	c.still = func(v int) bool {
		e := ents[v]
		return e != nil && sc.CompareAndDelete(key(keys[v]), e)
	}
	c.add = func(k int, d time.Duration) bool {
		e, ok := sc.Load(key(k))
		if ok {
			e.AddExpiration(d)
		}
		return ok
	}
	c.start, c.close, c.clear = sc.Start, sc.Close, sc.Clear
	return c
}

func swInt(name string, rank int, cb, zero bool) *swCache {
	id := func(i int) int { return i }
	return swNew[int, int](name, rank, cb, zero, id, id, id)
}

func swStr(name string, rank int, cb, zero bool) *swCache {
	un := func(s string) (n int) { fmt.Sscanf(s, "v%d", &n); return }
	return swNew[string, string](name, rank, cb, zero, func(i int) string { return fmt.Sprintf("k%d", i) }, func(i int) string { return fmt.Sprintf("v%d", i) }, un)
}

// put keeps the reference in step with a Store.
func (c *swCache) put(k, v int, d time.Duration) {
	if o := c.ref[k]; o != nil {
		c.over[o.v] = true
	}
	c.ref[k] = &swEnt{v, core.ClockNow() + int64(d)}
}

// observe compares the callbacks so far with what the sweep may and must have done.
func (c *swCache) observe(closedAllAlong bool) error {
	now := core.ClockNow()
	for _, k := range sortedKeys(c.ref) {
		e := c.ref[k]
		n := c.cbs[e.v]
		if n > 1 {
			return fmt.Errorf("cache %s: %d callbacks for entry %d", c.name, n, e.v)
		}
		if n == 1 && !c.gone[e.v] {
			if now <= e.dl {
				return fmt.Errorf("cache %s: entry %d was removed %v before it expires", c.name, e.v, time.Duration(e.dl-now))
			}
			if closedAllAlong {
				return fmt.Errorf("cache %s: entry %d was removed by the sweep although the cache is closed", c.name, e.v)
			}
			c.gone[e.v] = true
		}
		if c.open && c.hasCB && n == 0 && !c.gone[e.v] && now >= max(e.dl+int64(ms), c.started)+int64(swLimit) {
			return fmt.Errorf("cache %s: entry %d expired %v ago and has not been swept", c.name, e.v, time.Duration(now-e.dl))
		}
	}
	return nil
}

// finish looks at what is left.
func (c *swCache) finish() error {
	now := core.ClockNow()
	for _, k := range sortedKeys(c.ref) {
		e := c.ref[k]
		if now <= e.dl {
			if v, ok := c.load(k); !ok || v != e.v {
				return fmt.Errorf("cache %s: the live entry %d is gone (Load(%d) = %d,%v)", c.name, e.v, k, v, ok)
			}
			continue
		}
		if c.gone[e.v] {
			if c.still(e.v) {
				return fmt.Errorf("cache %s: entry %d is still there after its delete callback", c.name, e.v)
			}
		} else if !c.hasCB && c.open && now >= max(e.dl+int64(ms), c.started)+int64(swLimit) && c.still(e.v) {
			return fmt.Errorf("cache %s: entry %d expired %v ago and has not been swept", c.name, e.v, time.Duration(now-e.dl))
		}
	}
	if !c.hasCB {
		return nil
	}
	c.clear()
	for _, k := range sortedKeys(c.ref) {
		if e := c.ref[k]; c.cbs[e.v] != 1 {
			return fmt.Errorf("cache %s: %d callbacks for entry %d in total", c.name, c.cbs[e.v], e.v)
		}
	}
	return nil
}

func sortedKeys[V any](m map[int]V) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// swPass lets d pass in steps of a second, watching every cache.
func swPass(d time.Duration, cs []*swCache) error {
	for d > 0 {
		step := time.Second
		if d < step {
			step = d
		}
		core.AdvanceQuiet(int64(step))
		d -= step
		core.Idle()
		for _, c := range cs {
			if err := c.observe(!c.open); err != nil {
				return err
			}
		}
	}
	return nil
}

type swOp struct {
	kind string
	c, k int
	d    time.Duration
}

func (o swOp) String() string {
	n := string(rune('A' + o.c))
	switch o.kind {
	case "Advance":
		return fmt.Sprintf("Advance(%v)", o.d)
	case "Start", "Close":
		return n + "." + o.kind + "()"
	}
	return fmt.Sprintf("%s.%s(%d,%v)", n, o.kind, o.k, o.d)
}

func (o swOp) do(cs []*swCache, n int) error {
	if o.kind == "Advance" {
		return swPass(o.d, cs)
	}
	c := cs[o.c]
	v := 100*(o.c+1) + n
	switch o.kind {
	case "Store":
		c.store(o.k, v, o.d)
		c.put(o.k, v, o.d)
	case "LoadOrStore":
		if _, ok := c.swap(o.k, v, o.d); !ok {
			if e := c.ref[o.k]; e != nil && core.ClockNow() > e.dl {
				c.gone[e.v] = true // found expired and removed on the way
			}
			c.put(o.k, v, o.d)
		}
	case "AddExpiration":
		if c.add(o.k, o.d) {
			c.ref[o.k].dl += int64(o.d)
		} else if e := c.ref[o.k]; e != nil && c.cbs[e.v] == 1 {
			c.gone[e.v] = true // the look-up removed it
		}
	case "Start":
		c.start()
		if !c.open {
			c.open, c.started = true, core.ClockNow()
		}
	case "Close":
		c.close()
		c.open = false
	}
	return nil
}

func swPair(kind int) []*swCache {
	switch kind {
	case 0:
		return []*swCache{swInt("A", 0, true, false), swStr("B", 1, true, false)}
	case 1:
		return []*swCache{swInt("A", 0, true, false), swInt("B", 1, false, false)}
	}
	return []*swCache{swInt("A", 0, false, true), swStr("B", 1, true, false)}
}

func swSeq(c *Ctx, kind, order int, ops []swOp) bool {
	return c.Conc(ConcSpec{Name: "sweep", Desc: func() []string { return []string{fmt.Sprintf("caches %d, map order %d", kind, order), fmt.Sprint(ops)} }, Bound: 0, MaxSteps: 40000,
		Prog: func(x *core.Exec) func() error {
			core.MapOrder = order
			core.ResetNames()
			var err error
			x.Spawn("T0", func() {
				cs := swPair(kind)
				core.Idle()
				for i, o := range ops {
					if err = o.do(cs, i+1); err != nil {
						return
					}
				}
				if err = swPass(11*time.Second, cs); err != nil {
					return
				}
				for _, c := range cs {
					if err = c.finish(); err != nil {
						return
					}
				}
			})
			return func() error { return err }
		}})
}

var swAlpha = []swOp{
	{"Store", 0, 1, 3 * time.Second}, {"Store", 0, 1, time.Hour}, {"Store", 0, 2, 7500 * ms}, {"Store", 1, 1, 3 * time.Second}, {"Store", 1, 2, time.Hour},
	{"Start", 0, 0, 0}, {"Close", 0, 0, 0}, {"Start", 1, 0, 0}, {"Close", 1, 0, 0},
	{"Advance", 0, 0, 3 * time.Second}, {"Advance", 0, 0, 11 * time.Second}, {"LoadOrStore", 0, 1, 2 * time.Second}, {"AddExpiration", 0, 1, 6 * time.Second},
}

func swSeqJobs(depth int, alpha []swOp, kinds, orders, shards int) (r []Job) {
	for i := 0; i < shards; i++ {
		r = append(r, Job{Name: fmt.Sprintf("sequences of %d/%d", depth, i), Conc: true, Run: func(c *Ctx) {
			n := 0
			ops := make([]swOp, depth)
			var gen func(j int) bool
			gen = func(j int) bool {
				if j == depth {
					for kind := 0; kind < kinds; kind++ {
						for o := 0; o < orders; o++ {
							n++
							if n%shards == i && !swSeq(c, kind, o, append([]swOp{}, ops...)) {
								return false
							}
						}
					}
					return true
				}
				for _, o := range alpha {
					ops[j] = o
					if !gen(j + 1) {
						return false
					}
				}
				return true
			}
			gen(0)
		}})
	}
	return
}

// swMany: one cache, n entries of which some expire, the map in several internal configurations.
func swMany(c *Ctx, t bool) {
	run := func(n int, exp func(i int) bool, cfg, order int) bool {
		return c.Conc(ConcSpec{Name: "sweep of many", Desc: func() []string {
			s := ""
			for i := 0; i < n; i++ {
				if exp(i) {
					s += "x"
				} else {
					s += "."
				}
			}
			if n > 300 {
				s = fmt.Sprintf("%s... (%d)", s[:300], n)
			}
			return []string{fmt.Sprintf("entries %s (x expires), configuration %d, map order %d", s, cfg, order)}
		}, Bound: 0, MaxSteps: 40000000, Prog: func(x *core.Exec) func() error {
			core.MapOrder = order
			core.ResetNames()
			var err error
			x.Spawn("T0", func() {
				a := swInt("A", 0, true, false)
				core.Idle()
				cs := []*swCache{a}
				for i := 0; i < n; i++ {
					d := time.Hour
					if exp(i) {
						d = time.Second + time.Duration(i%5)*time.Second
					}
					a.store(i+1, i+1, d)
					a.put(i+1, i+1, d)
					if cfg == 1 && i == n/2 {
						for j := 0; j <= i; j++ {
							a.load(j + 1)
						}
						a.load(9999)
					}
					if cfg == 2 && i == n/2 {
						a.store(9000, 9000, 0) // left to be swept
						a.put(9000, 9000, 0)
					}
				}
				if err = swPass(17*time.Second, cs); err != nil {
					return
				}
				err = a.finish()
			})
			return func() error { return err }
		}})
	}
	top := 6
	if t {
		top = 9
	}
	for n := 1; n <= top; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			for cfg := 0; cfg < 3; cfg++ {
				for o := 0; o < 2; o++ {
					if !run(n, func(i int) bool { return mask>>i&1 == 1 }, cfg, o) {
						return
					}
				}
			}
		}
	}
	for _, n := range []int{32769, 65537, 100003} {
		if !run(n, func(i int) bool { return i%2 == 0 || n != 65537 }, 0, 0) {
			return
		}
	}
	big := []int{7, 10, 16, 17, 33, 64, 65, 100, 129, 1025, 5000}
	if t {
		big = append(big, 257, 400, 513, 20000)
	}
	for _, n := range big {
		for p := 0; p < 5; p++ {
			if n > 1000 && p == 1 {
				continue
			}
			pat := func(i int) bool {
				switch p {
				case 0:
					return true
				case 1:
					return i%2 == 0
				case 2:
					return i == n-1
				case 3:
					return i < n-1
				}
				return i%7 < 5
			}
			for cfg := 0; cfg < 3; cfg++ {
				for o := 0; o < 2; o++ {
					if !run(n, pat, cfg, o) {
						return
					}
				}
			}
		}
	}
}

// swCaches: n caches, any subset closed, any subset started a second time; every open one is swept.
func swCaches(c *Ctx, t bool) {
	top := 4
	if t {
		top = 5
	}
	run := func(n int, code func(i int) int, o int) bool {
		return c.Conc(ConcSpec{Name: "sweep of several caches", Desc: func() []string {
			s := ""
			for i := 0; i < n && i < 40; i++ {
				s += []string{"open ", "closed ", "started twice ", "closed and started "}[code(i)]
			}
			return []string{fmt.Sprintf("%d caches: %s", n, s), fmt.Sprintf("map order %d", o)}
		}, Bound: 0, MaxSteps: 40000000, Prog: func(x *core.Exec) func() error {
			core.MapOrder = o
			core.ResetNames()
			var err error
			x.Spawn("T0", func() {
				var cs []*swCache
				for i := 0; i < n; i++ {
					var q *swCache
					if i%2 == 0 {
						q = swInt(fmt.Sprint(i), i, true, false)
					} else {
						q = swStr(fmt.Sprint(i), i, true, false)
					}
					cs = append(cs, q)
					q.store(1, 100*i+1, 2*time.Second)
					q.put(1, 100*i+1, 2*time.Second)
					q.store(2, 100*i+2, time.Hour)
					q.put(2, 100*i+2, time.Hour)
				}
				core.Idle()
				for i := 0; i < n; i++ {
					k := code(i)
					if k == 1 || k == 3 {
						(swOp{kind: "Close", c: i}).do(cs, 0)
					}
					if k >= 2 {
						(swOp{kind: "Start", c: i}).do(cs, 0)
					}
				}
				if err = swPass(13*time.Second, cs); err != nil {
					return
				}
				for i, q := range cs {
					q.store(3, 100*i+3, time.Second)
					q.put(3, 100*i+3, time.Second)
				}
				if err = swPass(12*time.Second, cs); err != nil {
					return
				}
				for _, q := range cs {
					if err = q.finish(); err != nil {
						return
					}
				}
			})
			return func() error { return err }
		}})
	}
	for n := 1; n <= top; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 4
		}
		for code := 0; code < total; code++ {
			for o := 0; o < 2; o++ {
				if !run(n, func(i int) int { return code >> (2 * i) & 3 }, o) {
					return
				}
			}
		}
	}
	// more caches: all alike, one unlike the rest, in turn
	for _, n := range []int{5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 129, 257, 513, 1025} {
		pats := []func(i int) int{func(int) int { return 0 }, func(i int) int { return i % 4 }, func(i int) int { return i * 7 / 3 % 4 }}
		for _, at := range []int{0, n / 2, n - 1} {
			for k := 1; k < 4 && n < 200; k++ {
				pats = append(pats, func(i int) int {
					if i == at {
						return k
					}
					return 0
				}, func(i int) int {
					if i == at {
						return 4 - k&3
					}
					return 1
				})
			}
		}
		for _, p := range pats {
			for o := 0; o < 2; o++ {
				if !run(n, func(i int) int { return p(i) & 3 }, o) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- concurrent

// swConc: threads start, close and write while the sweep runs; when all is quiet the sweep must go on as the
// last calls say.
type swConc struct {
	threads [][]swOp
	create  bool // the threads create the caches
	order   int
	bound   int32
	clock   []time.Duration
}

func (s *swConc) desc() []string {
	r := []string{fmt.Sprintf("map order %d, caches created by the threads: %v, clock advances by %v", s.order, s.create, s.clock)}
	for i, t := range s.threads {
		r = append(r, fmt.Sprintf("T%d %v", i, t))
	}
	return r
}

func (s *swConc) prog(x *core.Exec) func() error {
	core.MapOrder = s.order
	core.ResetNames()
	var err error
	cs := make([]*swCache, 2)
	mk := func(i int) {
		if i == 0 {
			cs[0] = swInt("A", 0, true, false)
		} else {
			cs[1] = swStr("B", 1, true, false)
		}
	}
	fill := func() {
		for i, c := range cs {
			for k, d := range []time.Duration{2 * time.Second, time.Hour} {
				if _, ok := c.swap(k+1, 100*i+k+1, d); !ok {
					c.put(k+1, 100*i+k+1, d)
				}
			}
		}
	}
	if !s.create {
		mk(0)
		mk(1)
		fill()
	}
	type last struct {
		kind      string
		call, ret int64
	}
	lasts := make([][2][]last, len(s.threads))
	stored := make([][2][]last, len(s.threads))
	for i, ops := range s.threads {
		x.Spawn(fmt.Sprintf("T%d", i), func() {
			if s.create {
				core.CallPoint("new")
				mk(i)
			}
			for _, o := range ops {
				core.CallPoint(o.String())
				a := core.Stamp()
				c := cs[o.c]
				switch o.kind {
				case "Start":
					c.start()
				case "Close":
					c.close()
				case "Store":
					c.store(o.k, 100*o.c+10+i, o.d)
				case "LoadOrStore":
					if _, ok := c.swap(o.k, 100*o.c+10+i, o.d); ok {
						a = -1
					}
				}
				core.EndCall()
				b := core.Stamp()
				if o.kind == "Start" || o.kind == "Close" {
					lasts[i][o.c] = append(lasts[i][o.c], last{o.kind, a, b})
				} else if a >= 0 {
					stored[i][o.c] = append(stored[i][o.c], last{o.kind, a, b})
				}
			}
		})
	}
	if s.clock != nil {
		x.Spawn("clock", func() {
			for _, d := range s.clock {
				core.Advance(d)
			}
		})
	}
	x.Spawn("end", func() {
		core.Idle()
		if s.create {
			fill()
		}
		now := core.ClockNow()
		for ci, c := range cs {
			// which of Start and Close may have been last
			may := map[string]bool{}
			var all []last
			for i := range lasts {
				all = append(all, lasts[i][ci]...)
			}
			for _, l := range all {
				later := false
				for _, m := range all {
					later = later || m.call > l.ret
				}
				if !later {
					may[l.kind] = true
				}
			}
			c.open = !may["Close"]
			c.started = now
			unclear := may["Close"] && may["Start"]
			for k := 1; k <= 2; k++ {
				// what the key holds now, per Load: the reference from here on
				if v, ok := c.load(k); ok {
					if e := c.ref[k]; e == nil || e.v != v {
						c.put(k, v, time.Hour)
						c.ref[k].dl = now + int64(time.Hour) - int64(6*time.Second)
					}
				}
			}
			for _, e := range c.ref {
				if c.cbs[e.v] > 0 {
					c.gone[e.v] = true
				}
				if c.cbs[e.v] > 1 {
					err = fmt.Errorf("cache %s: %d callbacks for entry %d", c.name, c.cbs[e.v], e.v)
					return
				}
			}
			if c.cbs[100*ci+2] > 0 || c.cbs[100*ci+10] > 0 || c.cbs[100*ci+11] > 0 {
				err = fmt.Errorf("cache %s: a live entry was removed", c.name)
				return
			}
			wrote := false
			for i := range stored {
				wrote = wrote || len(stored[i][ci]) > 0
			}
			if wrote {
				v, ok := c.load(1)
				if !ok || v < 10 {
					err = fmt.Errorf("cache %s: a live entry was stored under 1 and is gone (Load = %d,%v)", c.name, v, ok)
					return
				}
			}
			if unclear {
				c.open = false
			}
			if unclear { // either way
				c.ref = map[int]*swEnt{2: c.ref[2]}
			}
		}
		// fresh short-lived entries
		for ci, c := range cs {
			c.store(3, 100*ci+3, time.Second)
			if may := c.ref[1] != nil; may {
				c.put(3, 100*ci+3, time.Second)
			}
		}
		if err = swPass(12*time.Second, cs); err != nil {
			return
		}
		for _, c := range cs {
			if err = c.finish(); err != nil {
				return
			}
		}
	})
	return func() error { return err }
}

func swConcJobs(t bool) (r []Job) {
	hr := time.Hour
	al := func(c int) []swOp {
		return []swOp{{"Start", c, 0, 0}, {"Close", c, 0, 0}, {"Store", c, 1, hr}, {"LoadOrStore", c, 1, hr}}
	}
	var progs []*swConc
	bound := int32(pick(t, 2, 3))
	add := func(create bool, clock []time.Duration, ths ...[]swOp) {
		for o := 0; o < 2; o++ {
			b := bound
			if len(ths) > 1 && !create {
				b--
			}
			progs = append(progs, &swConc{threads: ths, create: create, order: o, bound: b, clock: clock})
		}
	}
	five := []time.Duration{6 * time.Second}
	two := []time.Duration{6 * time.Second, 5 * time.Second}
	// creation races: the sweeper starts once
	for _, a := range append(al(0), swOp{}) {
		for _, b := range append(al(1), swOp{}) {
			pr := func(o swOp) []swOp {
				if o.kind == "" {
					return nil
				}
				return []swOp{o}
			}
			add(true, nil, pr(a), pr(b))
			if t {
				add(true, five, pr(a), pr(b))
			}
		}
	}
	// one thread against the sweep
	for _, a := range al(0) {
		add(false, five, []swOp{a})
		for _, b := range append(al(0), al(1)...) {
			add(false, five, []swOp{a, b})
			if t {
				add(false, two, []swOp{a, b})
			}
		}
	}
	// two threads against the sweep
	for i, a := range al(0) {
		for _, b := range al(0)[i:] {
			add(false, five, []swOp{a}, []swOp{b})
		}
		for _, b := range al(1) {
			add(false, five, []swOp{a}, []swOp{b})
		}
	}
	if t {
		for _, a := range al(0) {
			for _, b := range al(0) {
				for _, d := range append(al(0), al(1)...) {
					add(false, five, []swOp{a, b}, []swOp{d})
				}
			}
		}
	}
	shards := pick(t, 16, 32)
	for i := 0; i < shards; i++ {
		r = append(r, Job{Name: fmt.Sprintf("concurrent/%d", i), Conc: true, Run: func(c *Ctx) {
			for n, s := range progs {
				if n%shards == i && !c.Conc(ConcSpec{Name: "sweep", Desc: s.desc, Prog: s.prog, Bound: s.bound}) {
					return
				}
			}
		}})
	}
	return
}

func init() {
	register(&Check{ID: "C09", Bounds: "all sequences of Store, LoadOrStore, AddExpiration, Start, Close and clock advances over two caches up to a length, both orders of the registry, observed every second of virtual time; every subset of up to 6 (9) expiring entries and larger patterns; every open/closed/restarted combination of up to 4 (5) caches and patterns of up to 1025 caches; up to 100003 entries; all schedules (preemption-bounded) of 1-2 goroutines creating, starting, closing and writing caches against the sweeping goroutine",
		Assume: []string{"virtual clock and ticker; goroutines run promptly between clock steps of one second",
			"a sweep under way when Close is called may finish; only later sweeps must leave the cache alone"},
		Jobs: func(t bool) (r []Job) {
			r = append(r, swConcJobs(t)...)
			r = append(r, raceSweep(t)...)
			if !t {
				r = append(r, swSeqJobs(4, swAlpha, 3, 2, 16)...)
				r = append(r, swSeqJobs(5, swAlpha, 1, 1, 16)...)
			} else {
				r = append(r, swSeqJobs(5, swAlpha, 3, 2, 32)...)
				r = append(r, swSeqJobs(6, swAlpha[:11], 1, 1, 64)...)
			}
			r = append(r, Job{Name: "many entries", Conc: true, Run: func(c *Ctx) { swMany(c, t) }})
			r = append(r, Job{Name: "several caches", Conc: true, Run: func(c *Ctx) { swCaches(c, t) }})
			return
		}})
}
