package main

import (
	"fmt"
	"math/bits"
	"strings"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/hashring"
	gheap "github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/vec"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// C33: the work of a call. Steps are loop iterations and function calls of the instrumented code (map iteration counts
// every entry). The constants are far above what any straightforward implementation needs and, at the sizes used, far
// below what a linear one costs.

const (
	workCall = 100 // per constant-time call
	workSize = 50  // per element of a call that may look at all of them
	workCmp  = 200 // per level of a logarithmic call
)

func logWork(n int) int64 { return workCmp * int64(bits.Len(uint(n))+2) }

type workOp struct {
	name string
	do   func(w *workMap)
}

// workMap is an rwmap in use: keys lo..hi-1 were stored and not yet deleted, in that order.
type workMap struct {
	m      rwmap.RWMap[int, int]
	lo, hi int
	most   int
	allow  int64
}

func (w *workMap) all() { // a call that may look at every key the map ever held
	w.allow += workSize * int64(w.most)
}

var workOps = []workOp{
	{"Store(new)", func(w *workMap) { w.m.Store(w.hi, w.hi); w.hi++ }},
	{"LoadOrStore(new)", func(w *workMap) { w.m.LoadOrStore(w.hi, w.hi); w.hi++ }},
	{"Store(newest)", func(w *workMap) { w.m.Store(w.hi-1, 0) }},
	{"Load(newest)", func(w *workMap) { w.m.Load(w.hi - 1) }},
	{"LoadOrStore(newest)", func(w *workMap) { w.m.LoadOrStore(w.hi-1, 0) }},
	{"Load(oldest)", func(w *workMap) { w.m.Load(w.lo) }},
	{"Load(absent)", func(w *workMap) { w.m.Load(-1) }},
	{"CompareAndSwap(newest)", func(w *workMap) {
		v, _ := w.m.Load(w.hi - 1)
		w.m.CompareAndSwap(w.hi-1, v, v+1)
	}},
	{"Delete(newest)", func(w *workMap) {
		if w.hi > w.lo {
			w.m.Delete(w.hi - 1)
			w.hi--
		}
	}},
	{"Delete(oldest)", func(w *workMap) {
		if w.hi > w.lo {
			w.m.Delete(w.lo)
			w.lo++
		}
	}},
	{"CompareAndDelete(newest)", func(w *workMap) {
		if w.hi > w.lo {
			v, _ := w.m.Load(w.hi - 1)
			w.m.CompareAndDelete(w.hi-1, v)
			w.hi--
		}
	}},
	{"Delete(absent)", func(w *workMap) { w.m.Delete(-1) }},
}

var workBulk = []workOp{
	{"Range", func(w *workMap) { w.all(); w.m.Range(func(int, int) bool { return true }) }},
	{"Range stopped at once", func(w *workMap) { w.all(); w.m.Range(func(int, int) bool { return false }) }},
	{"Clear", func(w *workMap) { w.all(); w.m.Clear(); w.lo = w.hi }},
}

// workRW repeats every cycle of up to length calls on a map that starts with size keys, n calls in all. Total work
// stays below a constant per call.
func workRW(c *Ctx, ops, first []workOp, length, size, n int) {
	var run func(cyc []workOp) bool
	run = func(cyc []workOp) bool {
		if len(cyc) > 0 && !c.Case(func() string {
			var s []string
			for _, o := range cyc {
				s = append(s, o.name)
			}
			return fmt.Sprintf("map of %d keys, then over and over %s", size, strings.Join(s, "; "))
		}, func() error {
			for _, promoted := range []bool{false, true} {
				w := &workMap{most: size}
				for i := 0; i < size; i++ {
					w.m.Store(i, i)
				}
				if promoted {
					w.m.Range(func(int, int) bool { return true })
				}
				w.hi = size
				w.allow = 4 * workSize * int64(size)
				core.ResetTicks()
				for i := 0; i < n; i++ {
					cyc[i%len(cyc)].do(w)
					w.allow += workCall
					w.most = max(w.most, w.hi-w.lo)
					if got := core.Steps(); got > w.allow {
						return fmt.Errorf("%d steps after %d calls, more than %d: not constant per call", got, i+1, w.allow)
					}
				}
				c.Trans += int64(n)
			}
			return nil
		}) {
			return false
		}
		if len(cyc) == length {
			return true
		}
		for _, o := range ops {
			if len(cyc) == 0 && len(first) > 0 && o.name != first[0].name {
				continue
			}
			if !run(append(cyc[:len(cyc):len(cyc)], o)) {
				return false
			}
		}
		return true
	}
	run(nil)
}

// quietLoads: after any cycle of calls, a map whose keys stop changing serves loads without locking, at the latest once as
// many loads as it ever held keys have missed.
func quietLoads(c *Ctx, length, size, n int) {
	ops := append(append([]workOp{}, workOps...), workBulk...)
	var run func(cyc []workOp) bool
	run = func(cyc []workOp) bool {
		if len(cyc) > 0 && !c.Case(func() string {
			var s []string
			for _, o := range cyc {
				s = append(s, o.name)
			}
			return fmt.Sprintf("map of %d keys, %d calls out of %s, then only loads", size, n, strings.Join(s, "; "))
		}, func() error {
			w := &workMap{hi: size}
			for i := 0; i < size; i++ {
				w.m.Store(i, i)
			}
			for i := 0; i < n; i++ {
				cyc[i%len(cyc)].do(w)
			}
			loads := func() {
				for k := w.lo - 1; k <= w.hi; k++ {
					w.m.Load(k)
				}
			}
			for i := 0; i <= size+n; i++ {
				loads()
			}
			before := core.Locks
			loads()
			if core.Locks != before {
				return fmt.Errorf("loads still lock after %d rounds of loads of every key", size+n+1)
			}
			c.Trans += int64(n)
			return nil
		}) {
			return false
		}
		for _, o := range ops {
			if len(cyc) < length && !run(append(cyc[:len(cyc):len(cyc)], o)) {
				return false
			}
		}
		return true
	}
	run(nil)
}

// workOf runs f and fails if it takes more than allow steps.
func workOf(what string, allow int64, f func()) error {
	core.ResetTicks()
	f()
	if got := core.Steps(); got > allow {
		return fmt.Errorf("%s takes %d steps, more than %d", what, got, allow)
	}
	return nil
}

func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

var workSizes = []int{1, 2, 3, 10, 100, 1000, 10000, 50000}

func workCases(c *Ctx, what string, f func(n int) error) {
	for _, n := range workSizes {
		if !c.Case(func() string { return fmt.Sprintf("%s with %d elements", what, n) }, func() error { c.Trans += int64(n); return f(n) }) {
			return
		}
	}
}

// seqOrders calls f with the numbers 0..n-1 rising, falling, scrambled and all equal.
func seqOrders(n int, f func(what string, s []int) error) error {
	up, down := make([]int, n), make([]int, n)
	for i := range up {
		up[i], down[i] = i, n-1-i
	}
	return firstErr(f("rising", up), f("falling", down), f("scrambled", scrambled(n)), f("equal", make([]int, n)))
}

func init() {
	register(&Check{ID: "C33", Bounds: "rwmap: every cycle of up to 4 calls (thorough 5) out of 12 kinds, repeated to 4000 calls on maps of 1000 keys (single kinds also to 60000 calls on 20000 keys; with Range and Clear, cycles of 2 to 400 calls on 200 keys), promoted and not; other containers: every kind of call at sizes up to 50000, at both ends, in the middle and in rising, falling, scrambled and equal order; steps are loop iterations and calls of the instrumented code",
		Jobs: func(t bool) (js []Job) {
			for _, o := range append(append([]workOp{}, workOps...), workBulk...) {
				js = append(js, Job{Name: "rwmap " + o.name, Run: func(c *Ctx) {
					workRW(c, workOps, []workOp{o}, pick(t, 4, 5), 1000, 4000)
					workRW(c, workOps, []workOp{o}, 1, 20000, 60000)
					workRW(c, append(append([]workOp{}, workOps...), workBulk...), []workOp{o}, 2, 200, 400)
				}})
			}
			one := func(name string, f func(n int) error) {
				js = append(js, Job{Name: name, Run: func(c *Ctx) { workCases(c, name, f) }})
			}
			js = append(js, Job{Name: "loads without locking", Run: func(c *Ctx) {
				for _, n := range []int{3, 6, 12} {
					quietLoads(c, 3, 0, n)
					quietLoads(c, 3, 5, n)
				}
			}})
			one("dllist", workList)
			one("lhashmap", workLhash)
			one("heap", workHeap)
			one("pqueue", workPQ)
			one("hashring", workRing)
			one("vec search", workVec)
			one("set and genmap", workSet)
			return
		}})
}

func workList(n int) error {
	l, other := dllist.New[int](), dllist.New[int]()
	var es []*dllist.Element[int]
	for i := 0; i < n; i++ {
		es = append(es, l.PushBack(i))
	}
	foreign := other.PushBack(1)
	for _, i := range []int{0, n / 2, n - 1} {
		e := es[i]
		var x *dllist.Element[int]
		for _, s := range []struct {
			what string
			f    func()
		}{
			{"Len", func() { l.Len() }}, {"Front", func() { l.Front() }}, {"Back", func() { l.Back() }},
			{"Next", func() { e.Next() }}, {"Prev", func() { e.Prev() }},
			{"PushFront", func() { x = l.PushFront(-1) }}, {"Remove", func() { l.Remove(x) }},
			{"Remove of a removed element", func() { l.Remove(x) }},
			{"PushBack", func() { x = l.PushBack(-1) }}, {"Remove", func() { l.Remove(x) }},
			{"InsertBefore", func() { x = l.InsertBefore(-1, e) }}, {"Remove", func() { l.Remove(x) }},
			{"InsertAfter", func() { x = l.InsertAfter(-1, e) }},
			{"MoveToFront", func() { l.MoveToFront(x) }}, {"MoveToBack", func() { l.MoveToBack(x) }},
			{"MoveBefore", func() { l.MoveBefore(x, e) }}, {"MoveAfter", func() { l.MoveAfter(x, e) }},
			{"Swap", func() { l.Swap(x, e) }}, {"Swap", func() { l.Swap(es[0], es[n-1]) }}, {"Swap back", func() { l.Swap(es[0], es[n-1]) }},
			{"Remove", func() { l.Remove(x) }},
			{"InsertAfter a foreign element", func() { l.InsertAfter(1, foreign) }}, {"MoveToFront of a foreign element", func() { l.MoveToFront(foreign) }},
		} {
			if err := workOf(s.what, workCall, s.f); err != nil {
				return err
			}
		}
	}
	lin := workCall + workSize*int64(n)
	return firstErr(
		workOf("Get", lin, func() { l.Get(n / 2) }),
		workOf("Slice", lin, func() { l.Slice() }), workOf("Range", lin, func() { l.Range(func(*dllist.Element[int]) bool { return true }) }),
		workOf("PushBackList", lin, func() { other.PushBackList(l) }), workOf("PushFrontList", lin, func() { other.PushFrontList(l) }),
		workOf("Clear", lin, func() { l.Clear() }))
}

func workLhash(n int) error {
	m := lhashmap.New[int, int]()
	for i := 0; i < n; i++ {
		if err := workOf("Store(new)", workCall, func() { m.Store(i, i) }); err != nil {
			return err
		}
	}
	for _, k := range []int{0, n / 2, n - 1, n, -1} {
		if err := firstErr(workOf("Load", workCall, func() { m.Load(k) }), workOf("Store", workCall, func() { m.Store(k, k) }), workOf("Remove", workCall, func() { m.Remove(k) }),
			workOf("Remove again", workCall, func() { m.Remove(k) }), workOf("Store", workCall, func() { m.Store(k, 1) })); err != nil {
			return err
		}
	}
	for i := 0; i < n; i++ {
		if err := workOf("Remove", workCall, func() { m.Remove(i) }); err != nil {
			return err
		}
	}
	return nil
}

func workHeap(n int) error {
	return seqOrders(n, func(order string, s []int) error {
		h := gheap.MinHeap[int](append([]int{}, s...))
		if err := workOf(order+": Init", workCall+workSize*4*int64(n), func() { gheap.Init[int](&h) }); err != nil {
			return err
		}
		g := gheap.MaxHeap[int]{}
		for _, v := range s {
			if err := workOf(order+": Push", logWork(n), func() { gheap.Push[int](&g, v) }); err != nil {
				return err
			}
		}
		for i := 0; i < 3*n && h.Len() > 0; i++ {
			j := []int{0, h.Len() - 1, h.Len() / 2, i % h.Len()}[i%4]
			if err := firstErr(
				workOf(order+": Fix up", logWork(n), func() { h[j] = -i; gheap.Fix[int](&h, j) }),
				workOf(order+": Fix down", logWork(n), func() { h[j] = n + i; gheap.Fix[int](&h, j) }),
				workOf(order+": Remove", logWork(n), func() { gheap.Remove[int](&h, j) })); err != nil {
				return err
			}
		}
		for g.Len() > 0 {
			if err := workOf(order+": Pop", logWork(n), func() { gheap.Pop[int](&g) }); err != nil {
				return err
			}
		}
		return nil
	})
}

func workPQ(n int) error {
	return seqOrders(n, func(order string, s []int) error {
		for _, q := range []*pqueue.PQueue[int]{pqueue.NewMinPriorityQueue[int](), pqueue.NewMaxPriorityQueue[int]()} {
			for _, v := range s {
				if err := workOf(order+": Push", logWork(n), func() { q.Push(v, v) }); err != nil {
					return err
				}
			}
			for q.Len() > 0 {
				if err := firstErr(workOf("Len", workCall, func() { q.Len() }), workOf(order+": Pop", logWork(n), func() { q.Pop() })); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func workRing(n int) error {
	r := hashring.New[int](4)
	var nodes []int
	for i := 0; i < (n+3)/4; i++ {
		nodes = append(nodes, i)
	}
	r.AddNodes(nodes...)
	for k := 0; k < 200; k++ {
		if err := workOf("GetNode", logWork(n), func() { r.GetNode(k * 7919) }); err != nil {
			return err
		}
	}
	return nil
}

func workVec(n int) error {
	p, moved := vec.New[int](), 0
	for i := 0; i < n; i++ {
		before := p.Cap()
		p.Push(i)
		if p.Cap() != before {
			moved++
		}
	}
	if moved > 40*(bits.Len(uint(n))+2) {
		return fmt.Errorf("the vector was reallocated %d times during %d pushes", moved, n)
	}
	v := vec.New[int]()
	for i := 0; i < n; i++ {
		v.Push(2 * i)
	}
	for _, x := range []int{-1, 0, 1, n - 1, n, n + 1, 2*n - 2, 2 * n} {
		if err := workOf("BinarySearch", logWork(n), func() { v.BinarySearch(x) }); err != nil {
			return err
		}
	}
	for _, i := range []int{0, n / 2, n - 1} {
		if err := firstErr(workOf("Get", workCall, func() { v.Get(i) }), workOf("Set", workCall, func() { v.Set(i, 2*i) }), workOf("Swap", workCall, func() { v.Swap(i, n/2) }), workOf("Swap", workCall, func() { v.Swap(i, n/2) }),
			workOf("Len", workCall, func() { v.Len(); v.Cap(); v.IsEmpty(); v.First(); v.Last() })); err != nil {
			return err
		}
	}
	return seqOrders(n, func(order string, s []int) error {
		all := workSize * int64(n+1) * int64(bits.Len(uint(n))+2)
		for stable := 0; stable < 2; stable++ {
			w := vec.New[int]().Push(s...)
			if err := workOf(order+": sorting", all, func() {
				if stable == 1 {
					w.SortStable()
				} else {
					w.Sort()
				}
			}); err != nil {
				return err
			}
		}
		return nil
	})
}

func workSet(n int) error {
	s, m := set.New[int](), genmap.New[int, int]()
	for i := 0; i < n; i++ {
		s.Push(i)
		m.Store(i, i)
	}
	for _, k := range []int{0, n / 2, n - 1, n, -1} {
		if err := firstErr(
			workOf("Contain", workCall, func() { s.Contain(k) }), workOf("Insert", workCall, func() { s.Insert(k) }), workOf("Remove", workCall, func() { s.Remove(k) }),
			workOf("ContainAndRemove", workCall, func() { s.ContainAndRemove(k) }), workOf("Push", workCall, func() { s.Push(k) }), workOf("Len", workCall, func() { s.Len() }),
			workOf("Load", workCall, func() { m.Load(k) }), workOf("Store", workCall, func() { m.Store(k, 1) }), workOf("LoadAndDelete", workCall, func() { m.LoadAndDelete(k) }),
			workOf("LoadOrStore", workCall, func() { m.LoadOrStore(k, 1) }), workOf("Delete", workCall, func() { m.Delete(k) }), workOf("LoadAndStore", workCall, func() { m.LoadAndStore(k, 1) })); err != nil {
			return err
		}
	}
	other := set.New[int]()
	for i := n / 2; i < n+n/2; i++ {
		other.Push(i)
	}
	lin := workCall + workSize*3*int64(n)
	return firstErr(workOf("Union", lin, func() { s.Union(other) }), workOf("Intersection", lin, func() { s.Intersection(other) }), workOf("Difference", lin, func() { s.Difference(other) }),
		workOf("SymmetricDifference", lin, func() { s.SymmetricDifference(other) }), workOf("IsSubSet", lin, func() { s.IsSubSet(other) }), workOf("Equal", lin, func() { s.Equal(other) }))
}
