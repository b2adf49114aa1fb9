package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// Containers of tens of thousands of elements: the sizes around which 16-bit quantities wrap, plus a few beyond the ladders.
// One fixed history per size and container, every call checked against a slice or a map.

var giantSizes = []int{2047, 4096, 10000, 32767, 32769, 65535, 65536, 65537, 100003}

// extraJobs adds jobs to a check registered elsewhere.
var extraJobs = map[string][]func(t bool) []Job{}

func giant(id string, f func(c *Ctx, n int) error) {
	name := "giant"
	if k := len(extraJobs[id]); k > 0 {
		name += fmt.Sprintf(" %d", k)
	}
	extraJobs[id] = append(extraJobs[id], func(t bool) []Job {
		return []Job{{Name: name, Run: func(c *Ctx) {
			for _, n := range giantSizes {
				if !c.Case(func() string { return fmt.Sprintf("%d elements", n) }, func() error {
					c.Trans += int64(n)
					return f(c, n)
				}) {
					return
				}
			}
		}}}
	})
}

// slowSort runs a sort, whose running time no property bounds: where a correct but quadratic one would take too long on n
// elements, it reports false instead of an alarm.
func slowSort(n int, f func()) (done bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, nt := r.(core.NonTermination); nt && n > 4096 {
				done = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func giantIdx(n int) (r []int) {
	for _, i := range []int{0, 1, 127, 128, 255, 256, n/2 - 1, n / 2, n/2 + 1, 32766, 32767, 32768, 65534, 65535, 65536, n - 2, n - 1} {
		if i >= 0 && i < n {
			r = append(r, i)
		}
	}
	return
}

func eqSlice[T comparable](what string, got, want []T) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d elements, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("%s: element %d is %v, want %v", what, i, got[i], want[i])
		}
	}
	return nil
}

// scrambled is a permutation of 0..n-1 (n and the step are coprime for the sizes above).
func scrambled(n int) []int {
	r := make([]int, n)
	step := 7919
	for gcd(step, n) != 1 {
		step++
	}
	for i := range r {
		r[i] = i * step % n
	}
	return r
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func dlIsSeq(what string, l *dllist.Dllist[int], want []int) error {
	if l.Len() != len(want) {
		return fmt.Errorf("%s: Len() = %d, want %d", what, l.Len(), len(want))
	}
	i := 0
	for e := l.Front(); e != nil; e = e.Next() {
		if i >= len(want) || e.Value != want[i] {
			return fmt.Errorf("%s: element %d is wrong", what, i)
		}
		i++
	}
	if i != len(want) {
		return fmt.Errorf("%s: forward traversal gives %d elements, want %d", what, i, len(want))
	}
	for e := l.Back(); e != nil; e = e.Prev() {
		i--
		if i < 0 || e.Value != want[i] {
			return fmt.Errorf("%s: element %d is wrong, backwards", what, i)
		}
	}
	if i != 0 {
		return fmt.Errorf("%s: backward traversal stops %d elements early", what, i)
	}
	if err := eqSlice(what+", Slice", l.Slice(), want); err != nil {
		return err
	}
	k := 0
	if !l.Range(func(e *dllist.Element[int]) bool { k++; return e.Value == want[k-1] }) || k != len(want) {
		return fmt.Errorf("%s: Range went wrong after %d", what, k)
	}
	for _, i := range giantIdx(len(want)) {
		if e := l.Get(i); e == nil || e.Value != want[i] {
			return fmt.Errorf("%s: Get(%d) is wrong", what, i)
		}
	}
	if l.Get(len(want)) != nil || l.Get(-1) != nil {
		return fmt.Errorf("%s: Get out of range gives an element", what)
	}
	return nil
}

func init() {
	giant("C15", func(c *Ctx, n int) error {
		l, w := dllist.New[int](), []int{}
		for i := 0; i < n; i++ {
			l.PushBack(i)
			w = append(w, i)
		}
		if err := dlIsSeq("PushBack", l, w); err != nil {
			return err
		}
		for _, i := range giantIdx(n) {
			e := l.Get(i)
			if i%2 == 0 {
				l.MoveToFront(e)
				w = append([]int{w[i]}, append(append([]int{}, w[:i]...), w[i+1:]...)...)
			} else {
				l.MoveToBack(e)
				w = append(append(append([]int{}, w[:i]...), w[i+1:]...), w[i])
			}
			l.Swap(l.Get(i), l.Get(n-1-i))
			w[i], w[n-1-i] = w[n-1-i], w[i]
		}
		if err := dlIsSeq("moves", l, w); err != nil {
			return err
		}
		x := w[n/2]
		if got := l.Remove(l.Get(n / 2)); got != x {
			return fmt.Errorf("Remove gives %d, want %d", got, x)
		}
		w = append(w[:n/2:n/2], w[n/2+1:]...)
		l.InsertAfter(-5, l.Get(n/3))
		w = append(w[:n/3+1:n/3+1], append([]int{-5}, w[n/3+1:]...)...)
		if err := dlIsSeq("edits", l, w); err != nil {
			return err
		}
		l.Clear()
		if err := dlIsSeq("Clear", l, nil); err != nil {
			return err
		}
		for i := 0; i < n; i++ {
			l.PushFront(i)
		}
		w = w[:0]
		for i := n - 1; i >= 0; i-- {
			w = append(w, i)
		}
		return dlIsSeq("PushFront after Clear", l, w)
	})
	giant("C16", func(c *Ctx, n int) error {
		l, o := dllist.New[int](), dllist.New[int]()
		var es []*dllist.Element[int]
		var w []int
		for i := 0; i < n; i++ {
			es = append(es, l.PushBack(i))
		}
		for i := 0; i < n; i++ {
			if i%3 == 1 {
				l.Remove(es[i])
			} else {
				w = append(w, i)
			}
		}
		f := o.PushBack(-1)
		for i := 1; i < n; i += 3 {
			e := es[i]
			if l.Remove(e) != i || l.InsertAfter(9, e) != nil || l.InsertBefore(9, e) != nil || e.Next() != nil || e.Prev() != nil {
				return fmt.Errorf("removed element %d is still tied to the list", i)
			}
			l.MoveToBack(e)
			l.MoveToFront(f)
			l.MoveAfter(es[0], e)
			l.Swap(e, es[0])
			o.MoveBefore(es[0], f)
		}
		if err := dlIsSeq("operations on foreign elements", l, w); err != nil {
			return err
		}
		if err := dlIsSeq("the other list", o, []int{-1}); err != nil {
			return err
		}
		l.Clear()
		for i, e := range es {
			if e.Next() != nil || e.Prev() != nil || l.InsertAfter(9, e) != nil {
				return fmt.Errorf("element %d is still tied to the cleared list", i)
			}
		}
		return dlIsSeq("cleared", l, nil)
	})
	giant("C17", func(c *Ctx, n int) error {
		l, o := dllist.New[int](), dllist.New[int]()
		var w []int
		for i, x := range scrambled(n) {
			l.PushBack(x)
			w = append(w, x)
			if i%4 == 0 {
				o.PushBack(-i)
			}
		}
		ow := append([]int{}, o.Slice()...)
		l.PushBackList(o)
		w = append(w, ow...)
		l.PushFrontList(o)
		w = append(append([]int{}, ow...), w...)
		at := len(ow) + 5
		for k, f := range []func(*dllist.Dllist[int], *dllist.Element[int]){l.PushBackListTo, l.PushFrontListTo} {
			mark := l.Get(at)
			f(o, mark)
			if mark.Next() != nil && mark.Next().Value == ow[0] { // either side of the mark is next to it
				w = append(append(append([]int{}, w[:at+1]...), ow...), w[at+1:]...)
			} else {
				w = append(append(append([]int{}, w[:at]...), ow...), w[at:]...)
			}
			if err := dlIsSeq(fmt.Sprintf("bulk push %d to a mark", k), l, w); err != nil {
				return err
			}
		}
		if err := dlIsSeq("bulk pushes", l, w); err != nil {
			return err
		}
		if err := dlIsSeq("the source", o, ow); err != nil {
			return err
		}
		o.PushBackList(o)
		if err := dlIsSeq("a list pushed to itself", o, append(append([]int{}, ow...), ow...)); err != nil {
			return err
		}
		// distinct values in a mixed order, so that a quicksort stays shallow
		l, w = dllist.New[int](), nil
		for i := 0; i < n; i++ {
			x := int(uint32(i*2654435769))&^0xff | i&0xff
			l.PushBack(x)
			w = append(w, x)
		}
		if !slowSort(n, func() { l.Sort(func(a, b int) bool { return a < b }) }) {
			return nil
		}
		sort.Ints(w)
		return dlIsSeq("Sort", l, w)
	})
	giant("C18", func(c *Ctx, n int) error {
		m := lhashmap.New[int, int]()
		p := scrambled(n)
		for i, k := range p {
			m.Store(k, i)
		}
		if m.Len() != n {
			return fmt.Errorf("Len() = %d, want %d", m.Len(), n)
		}
		order := make([]int, n)
		for i, k := range p {
			order[n-1-i] = k
		}
		seq := func(what string) error {
			var got []int
			m.Range(func(k, v int) bool { got = append(got, k); return true })
			return eqSlice(what, got, order)
		}
		if err := seq("stored"); err != nil {
			return err
		}
		for _, i := range giantIdx(n) {
			k := order[i]
			if _, ok := m.Load(k); !ok {
				return fmt.Errorf("key %d is missing", k)
			}
			order = append([]int{k}, append(append([]int{}, order[:i]...), order[i+1:]...)...)
			if _, ok := m.Load(n + i); ok {
				return fmt.Errorf("key %d is there", n+i)
			}
		}
		if err := seq("loaded"); err != nil {
			return err
		}
		for i := 0; i < n; i += 2 {
			m.Remove(order[i])
			m.Remove(n + i)
		}
		var rest []int
		for i := 1; i < n; i += 2 {
			rest = append(rest, order[i])
		}
		order = rest
		if err := seq("removed"); err != nil {
			return err
		}
		pos := map[int]int{}
		for i, k := range p {
			pos[k] = i
		}
		for _, k := range order {
			if v, ok := m.Load(k); !ok || v != pos[k] {
				return fmt.Errorf("key %d has %d, %v, want %d", k, v, ok, pos[k])
			}
		}
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
		if err := seq("all loaded"); err != nil {
			return err
		}
		m.Clear()
		order = nil
		if m.Len() != 0 {
			return fmt.Errorf("Len() = %d after Clear", m.Len())
		}
		return seq("cleared")
	})
	giant("C19", func(c *Ctx, n int) error {
		h := heap.MinHeap[int](scrambled(n))
		heap.Init[int](&h)
		g := heap.MaxHeap[int](nil)
		for _, x := range scrambled(n) {
			heap.Push[int](&g, x)
		}
		live := map[int]bool{}
		for i := 0; i < n; i++ {
			live[i] = true
		}
		ok := func(what string) error {
			for i := 1; i < len(h); i++ {
				if h[i] < h[(i-1)/2] {
					return fmt.Errorf("%s: MinHeap order broken at %d", what, i)
				}
			}
			for i := 1; i < len(g); i++ {
				if g[i] > g[(i-1)/2] {
					return fmt.Errorf("%s: MaxHeap order broken at %d", what, i)
				}
			}
			return nil
		}
		if err := ok("Init, Push"); err != nil {
			return err
		}
		for k, i := range giantIdx(n) {
			if i >= len(h) {
				continue
			}
			x := h[i]
			if y := heap.Remove[int](&h, i); y != x {
				return fmt.Errorf("Remove(%d) gives %d, want %d", i, y, x)
			}
			delete(live, x)
			g[i] = n + k
			if k%2 == 0 {
				g[i] = -k
			}
			heap.Fix[int](&g, i)
			if err := ok(fmt.Sprintf("Remove, Fix at %d", i)); err != nil {
				return err
			}
		}
		want := make([]int, 0, len(live))
		for i := 0; i < n; i++ {
			if live[i] {
				want = append(want, i)
			}
		}
		var got []int
		for len(h) > 0 {
			got = append(got, heap.Pop[int](&h))
		}
		if err := eqSlice("Pop", got, want); err != nil {
			return err
		}
		want = append([]int{}, g...)
		sort.Sort(sort.Reverse(sort.IntSlice(want)))
		got = got[:0]
		for len(g) > 0 {
			got = append(got, heap.Pop[int](&g))
		}
		return eqSlice("Pop of MaxHeap", got, want)
	})
	giant("C20", func(c *Ctx, n int) error {
		for _, max := range []bool{false, true} {
			q := pqueue.NewMinPriorityQueue[int]()
			if max {
				q = pqueue.NewMaxPriorityQueue[int]()
			}
			for i, x := range scrambled(n) {
				q.Push(x-n/2, x*3)
				if q.Len() != i+1 {
					return fmt.Errorf("Len() = %d, want %d", q.Len(), i+1)
				}
			}
			for i := 0; i < n; i++ {
				w := i
				if max {
					w = n - 1 - i
				}
				if p, v := q.Pop(); p != w-n/2 || v != w*3 || q.Len() != n-1-i {
					return fmt.Errorf("Pop number %d gives (%d, %d), want (%d, %d)", i, p, v, w-n/2, w*3)
				}
			}
		}
		return nil
	})
	giant("C21", func(c *Ctx, n int) error {
		r := ring.New[int](n)
		for i := 0; i < n; i++ {
			r.Value = i
			r = r.Next()
		}
		seq := func(what string, r *ring.Ring[int], want func(i int) int, n int) error {
			if r.Len() != n {
				return fmt.Errorf("%s: Len() = %d, want %d", what, r.Len(), n)
			}
			i, bad := 0, -1
			r.Do(func(v int) {
				if bad < 0 && v != want(i) {
					bad = i
				}
				i++
			})
			if bad >= 0 || i != n {
				return fmt.Errorf("%s: Do visits %d elements, wrong at %d", what, i, bad)
			}
			p := r
			for i := n - 1; i >= 0; i-- {
				if p = p.Prev(); p.Value != want(i) {
					return fmt.Errorf("%s: wrong element %d backwards", what, i)
				}
			}
			return nil
		}
		id := func(i int) int { return i }
		if err := seq("New", r, id, n); err != nil {
			return err
		}
		for _, k := range giantIdx(n) {
			if v := r.Move(k).Value; v != k%n {
				return fmt.Errorf("Move(%d) reaches %d", k, v)
			}
			if v := r.Move(-k).Value; v != (n-k)%n {
				return fmt.Errorf("Move(%d) reaches %d", -k, v)
			}
			if v := r.Move(n + k).Value; v != k%n {
				return fmt.Errorf("Move(%d) reaches %d", n+k, v)
			}
			if k == 0 || k >= n {
				continue
			}
			s := r.Unlink(k)
			if err := seq(fmt.Sprintf("Unlink(%d)", k), s, func(i int) int { return i + 1 }, k); err != nil {
				return err
			}
			if err := seq(fmt.Sprintf("rest of Unlink(%d)", k), r, func(i int) int {
				if i == 0 {
					return 0
				}
				return i + k
			}, n-k); err != nil {
				return err
			}
			if x := r.Link(s); x.Value != (k+1)%n {
				return fmt.Errorf("Link gives %d, want %d", x.Value, (k+1)%n)
			}
			if err := seq(fmt.Sprintf("Link after Unlink(%d)", k), r, id, n); err != nil {
				return err
			}
		}
		return nil
	})
	giant("C22", func(c *Ctx, n int) error {
		a, b := set.New[int](), set.New[int]()
		for i := 0; i < n; i++ {
			if !a.Insert(i) || a.Insert(i) {
				return fmt.Errorf("Insert(%d) reports the wrong thing", i)
			}
			b.Push(i*2, i*2)
		}
		is := func(what string, s set.Set[int], in func(i int) bool, top int) error {
			cnt := 0
			for i := -1; i <= top; i++ {
				if s.Contain(i) != in(i) {
					return fmt.Errorf("%s: Contain(%d) = %v", what, i, s.Contain(i))
				}
				if in(i) {
					cnt++
				}
			}
			if s.Len() != cnt || len(s.Slice()) != cnt || s.IsEmpty() != (cnt == 0) {
				return fmt.Errorf("%s: Len() = %d, want %d", what, s.Len(), cnt)
			}
			k := 0
			s.Range(func(int) bool { k++; return true })
			if k != cnt {
				return fmt.Errorf("%s: Range visits %d of %d", what, k, cnt)
			}
			return nil
		}
		ina := func(i int) bool { return i >= 0 && i < n }
		inb := func(i int) bool { return i >= 0 && i%2 == 0 && i < 2*n }
		for _, x := range []struct {
			what string
			s    set.Set[int]
			in   func(i int) bool
		}{
			{"a", a, ina}, {"b", b, inb}, {"Union", a.Union(b), func(i int) bool { return ina(i) || inb(i) }},
			{"Intersection", a.Intersection(b), func(i int) bool { return ina(i) && inb(i) }},
			{"Difference", a.Difference(b), func(i int) bool { return ina(i) && !inb(i) }},
			{"SymmetricDifference", a.SymmetricDifference(b), func(i int) bool { return ina(i) != inb(i) }},
			{"Clone", a.Clone(), ina}, {"a", a, ina}, {"b", b, inb},
		} {
			if err := is(x.what, x.s, x.in, 2*n+1); err != nil {
				return err
			}
		}
		u := a.Union(b)
		if !a.IsSubSet(u) || u.IsSubSet(a) || !u.IsSupperSet(b) || b.IsSupperSet(u) || a.Equal(b) || !u.Equal(b.Union(a)) {
			return fmt.Errorf("subset or equality answers are wrong")
		}
		for i := 0; i < n; i++ {
			if i%3 == 0 && (!a.ContainAndRemove(i) || a.ContainAndRemove(i)) {
				return fmt.Errorf("ContainAndRemove(%d) reports the wrong thing", i)
			}
			if i%3 == 1 && (!a.Remove(i) || a.Remove(i)) {
				return fmt.Errorf("Remove(%d) reports the wrong thing", i)
			}
		}
		if err := is("removals", a, func(i int) bool { return ina(i) && i%3 == 2 }, 2*n+1); err != nil {
			return err
		}
		a.CopyFrom(b)
		if err := is("CopyFrom", a, func(i int) bool { return inb(i) || ina(i) && i%3 == 2 }, 2*n+1); err != nil {
			return err
		}
		return is("Clear", a.Clear(), func(int) bool { return false }, n)
	})
	giant("C23", func(c *Ctx, n int) error {
		m := genmap.New[int, int]()
		for i := 0; i < n; i++ {
			if v, ok := m.LoadOrStore(i, i*5); ok || v != i*5 {
				return fmt.Errorf("LoadOrStore(%d) = %d, %v", i, v, ok)
			}
		}
		is := func(what string, m genmap.GenMap[int, int], in func(i int) bool) error {
			cnt := 0
			for i := 0; i < n; i++ {
				if v, ok := m.Load(i); ok != in(i) || (ok && v != i*5) {
					return fmt.Errorf("%s: Load(%d) = %d, %v", what, i, v, ok)
				}
				if in(i) {
					cnt++
				}
			}
			ks, vs := m.Keys(), m.Values()
			sort.Ints(ks)
			sort.Ints(vs)
			if m.Len() != cnt || len(ks) != cnt || len(vs) != cnt {
				return fmt.Errorf("%s: Len() = %d, %d keys, %d values, want %d", what, m.Len(), len(ks), len(vs), cnt)
			}
			for i, k := 0, 0; i < n; i++ {
				if in(i) {
					if ks[k] != i || vs[k] != i*5 {
						return fmt.Errorf("%s: Keys or Values are wrong", what)
					}
					k++
				}
			}
			k := 0
			if !m.Range(func(a, b int) bool { k++; return in(a) && b == a*5 }) || k != cnt {
				return fmt.Errorf("%s: Range is wrong", what)
			}
			return nil
		}
		all := func(int) bool { return true }
		odd := func(i int) bool { return i%2 == 1 }
		cl := m.Clone()
		to := genmap.New[int, int]()
		m.CopyTo(to)
		m.DeleteFunc(func(k, v int) bool { return k%2 == 0 && v == k*5 })
		for _, x := range []struct {
			what string
			m    genmap.GenMap[int, int]
			in   func(int) bool
		}{{"Clone", cl, all}, {"CopyTo", to, all}, {"DeleteFunc", m, odd}} {
			if err := is(x.what, x.m, x.in); err != nil {
				return err
			}
		}
		eq := func(a, b int) bool { return a == b }
		if !cl.EqualFunc(to, eq) || cl.EqualFunc(m, eq) {
			return fmt.Errorf("EqualFunc is wrong")
		}
		m.CopyFrom(cl)
		if err := is("CopyFrom", m, all); err != nil {
			return err
		}
		for i := 0; i < n; i++ {
			if v, ok := m.LoadAndDelete(i); !ok || v != i*5 {
				return fmt.Errorf("LoadAndDelete(%d) = %d, %v", i, v, ok)
			}
		}
		if m.Len() != 0 || cl.Clear().Len() != 0 {
			return fmt.Errorf("not empty")
		}
		return nil
	})
	giant("C24", func(c *Ctx, n int) error {
		v, w := vec.New[int](), []int{}
		for i, x := range scrambled(n) {
			v.Push(x)
			w = append(w, x)
			if v.Len() != i+1 {
				return fmt.Errorf("Len() = %d, want %d", v.Len(), i+1)
			}
		}
		ok := func(what string) error { return eqSlice(what, v.Slice(), w) }
		if err := ok("Push"); err != nil {
			return err
		}
		for _, i := range giantIdx(n) {
			v.Insert(i, -1, -2)
			w = append(append(append([]int{}, w[:i]...), -1, -2), w[i:]...)
			if err := ok(fmt.Sprintf("Insert at %d", i)); err != nil {
				return err
			}
			x := w[i+1]
			if y, k := v.Remove(i + 1); !k || y != x {
				return fmt.Errorf("Remove(%d) gives %d, %v, want %d", i+1, y, k, x)
			}
			w = append(w[:i+1:i+1], w[i+2:]...)
			v.Swap(0, i)
			w[0], w[i] = w[i], w[0]
			if !v.Set(i, 77) {
				return fmt.Errorf("Set(%d) fails", i)
			}
			w[i] = 77
			if err := ok(fmt.Sprintf("Remove, Swap and Set at %d", i)); err != nil {
				return err
			}
		}
		v.Reverse()
		for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
			w[i], w[j] = w[j], w[i]
		}
		if err := ok("Reverse"); err != nil {
			return err
		}
		a, b := n/4, n/2
		if err := eqSlice("Cut", v.Cut(a, b), w[a:b]); err != nil {
			return err
		}
		w = append(w[:a:a], w[b:]...)
		v.Delete(10, 20)
		w = append(w[:10:10], w[20:]...)
		v.Replace(5, 9, 1, 2, 3, 4, 5, 6)
		w = append(append(append([]int{}, w[:5]...), 1, 2, 3, 4, 5, 6), w[9:]...)
		if err := ok("Cut, Delete, Replace"); err != nil {
			return err
		}
		v.Insert(3, v.Slice()...)
		w = append(append(append([]int{}, w[:3]...), w...), w[3:]...)
		if err := ok("Insert of itself"); err != nil {
			return err
		}
		v.Grow(n)
		if v.Cap()-v.Len() < n {
			return fmt.Errorf("Grow(%d) leaves room for %d", n, v.Cap()-v.Len())
		}
		if v.Clip(); v.Cap() != v.Len() {
			return fmt.Errorf("Clip leaves unused capacity")
		}
		h := len(w) / 2
		if err := eqSlice("SplitOff", v.SplitOff(h).Slice(), w[h:]); err != nil {
			return err
		}
		w = w[:h]
		if err := ok("SplitOff"); err != nil {
			return err
		}
		for len(w) > 0 {
			x, k := v.Pop()
			if !k || x != w[len(w)-1] {
				return fmt.Errorf("Pop gives %d, %v, want %d", x, k, w[len(w)-1])
			}
			w = w[:len(w)-1]
		}
		if _, k := v.Pop(); k || v.Len() != 0 {
			return fmt.Errorf("not empty")
		}
		return nil
	})
	giant("C25", func(c *Ctx, n int) error {
		mk := func() *vec.Vec[int] { return vec.New[int]().Push(scrambled(n)...) }
		w := scrambled(n)
		v := mk()
		cl, sl := v.Clone(), v.CloneToSlice()
		for i := 0; i < n; i++ {
			v.Set(i, -1)
		}
		if err := eqSlice("Clone", cl.Slice(), w); err != nil {
			return err
		}
		if err := eqSlice("CloneToSlice", sl, w); err != nil {
			return err
		}
		v = mk()
		cut := v.Cut(n/3, n/2)
		so := v.SplitOff(n / 4)
		keep := v.CloneToSlice()
		v.Push(make([]int, n)...)
		v.Reverse()
		if err := eqSlice("Cut", cut, w[n/3:n/2]); err != nil {
			return err
		}
		if err := eqSlice("SplitOff", so.Slice(), append(append([]int{}, w[n/4:n/3]...), w[n/2:]...)); err != nil {
			return err
		}
		v = mk()
		so = v.SplitOff(n / 4)
		so.Push(1, 2, 3)
		for i := 0; i < so.Len(); i++ {
			so.Set(i, -7)
		}
		if err := eqSlice("the original of SplitOff", v.Slice(), keep); err != nil {
			return err
		}
		arg := scrambled(n)
		v = vec.New[int]().Push(arg...)
		v.Insert(1, arg...)
		v.Replace(0, 1, arg...)
		want := v.CloneToSlice()
		for i := range arg {
			arg[i] = -9
		}
		return eqSlice("after changing the argument", v.Slice(), want)
	})
	giant("C26", func(c *Ctx, n int) error {
		v := vec.New[int]().Push(scrambled(n)...)
		w := scrambled(n)
		for _, t := range []int{0, 1, n / 2, n - 1} {
			at := -1
			for i, x := range w {
				if x == t {
					at = i
				}
			}
			if g := v.Search(t); g != at || !v.Contains(t) {
				return fmt.Errorf("Search(%d) = %d, want %d", t, g, at)
			}
			if g := v.SearchAll(t); len(g) != 1 || g[0] != at {
				return fmt.Errorf("SearchAll(%d) = %v, want %d", t, g, at)
			}
		}
		if v.Contains(n) || v.Search(-1) != -1 || v.IsSorted() || v.Min() != 0 || v.Max() != n-1 {
			return fmt.Errorf("Contains, Search, IsSorted, Min or Max is wrong")
		}
		u := v.Clone()
		if !slowSort(n, func() { v.Sort() }) {
			return nil
		}
		sort.Ints(w)
		if err := eqSlice("Sort", v.Slice(), w); err != nil {
			return err
		}
		if !slowSort(n, func() { u.SortStable() }) {
			return nil
		}
		if err := eqSlice("SortStable", u.Slice(), w); err != nil {
			return err
		}
		if !v.IsSorted() || !v.EqualVec(*u) || v.Compare(*u) != 0 || !v.EqualSlice(w) {
			return fmt.Errorf("IsSorted, EqualVec, Compare or EqualSlice is wrong")
		}
		for i := 0; i < n; i++ {
			if p, ok := v.BinarySearch(i); !ok || p != i {
				return fmt.Errorf("BinarySearch(%d) = %d, %v", i, p, ok)
			}
		}
		if p, ok := v.BinarySearch(n); ok || p != n {
			return fmt.Errorf("BinarySearch beyond the end = %d, %v", p, ok)
		}
		u.Set(n-1, n)
		if v.EqualVec(*u) || v.Compare(*u) >= 0 || u.Compare(*v) <= 0 {
			return fmt.Errorf("EqualVec or Compare misses a difference at the end")
		}
		type pair struct{ k, id int }
		s := vec.New(vec.WithCmpLess(func(a, b pair) bool { return a.k < b.k }), vec.WithCmpEqual(func(a, b pair) bool { return a.k == b.k }))
		for i := 0; i < n; i++ {
			s.Push(pair{i * 31 % 257, i})
		}
		if !slowSort(n, func() { s.SortStable() }) {
			return nil
		}
		for i := 1; i < n; i++ {
			a, _ := s.Get(i - 1)
			b, _ := s.Get(i)
			if a.k > b.k || (a.k == b.k && a.id > b.id) {
				return fmt.Errorf("SortStable: wrong order at %d", i)
			}
		}
		d := s.Clone().Compact()
		if d.Len() != min(n, 257) {
			return fmt.Errorf("Compact leaves %d", d.Len())
		}
		return nil
	})
	for _, id := range []string{"C27", "C28", "C29"} {
		extraJobs[id] = append(extraJobs[id], func(t bool) []Job {
			var js []Job
			for _, m := range [][2]int{{1, 70000}, {2, 33000}, {300, 100}, {3, 4097}, {1000, 2}} {
				js = append(js, Job{Name: fmt.Sprintf("giant %d nodes, %d replicas", m[0], m[1]), Run: func(c *Ctx) { hrGiant(c, id, m[0], m[1]) }})
			}
			return js
		})
	}
	giant("C30", func(c *Ctx, n int) error {
		v := make([]int, n)
		root := tree.BuildTree(v)
		d := 0
		for x := n; x > 1; x /= 2 {
			d++
		}
		if g := root.MaxDepth(); g != d {
			return fmt.Errorf("MaxDepth() = %d, want %d", g, d)
		}
		n = min(n, 50000)
		ch := tree.NewNode(0)
		top := ch
		for i := 1; i < n; i++ {
			x := tree.NewNode(i)
			var old *tree.Node[int]
			if i%3 == 0 {
				old = ch.SetLeft(x)
			} else {
				old = ch.SetRight(x)
			}
			if old != nil || x.Parent != ch {
				return fmt.Errorf("node %d is not attached", i)
			}
			ch = x
		}
		if top.MaxDepth() != n-1 || ch.Layer() != n-1 || top.Layer() != 0 {
			return fmt.Errorf("chain of %d: MaxDepth %d, Layer %d", n, top.MaxDepth(), ch.Layer())
		}
		if !top.IsAncestorRelation(ch) || ch.IsAncestorRelation(top) || !top.IsDescendantRelation(ch) || ch.IsDescendantRelation(top) {
			return fmt.Errorf("chain of %d: ancestor or descendant relation is wrong", n)
		}
		return nil
	})
	giant("C31", func(c *Ctx, n int) error {
		v := make([]int, n)
		for i := range v {
			v[i] = i
		}
		root := tree.BuildTree(v)
		nodes := make([]*tree.Node[int], n)
		nodes[0] = root
		for i := 0; i < n; i++ {
			x := nodes[i]
			if x == nil || x.Val != i {
				return fmt.Errorf("BuildTree: position %d is wrong", i)
			}
			for s, ch := range []*tree.Node[int]{x.Left, x.Right} {
				k := 2*i + 1 + s
				if (ch != nil) != (k < n) || (ch != nil && ch.Parent != x) {
					return fmt.Errorf("BuildTree: child %d of %d is wrong", s, i)
				}
				if k < n {
					nodes[k] = ch
				}
			}
		}
		if err := eqSlice("TraversalBFS", root.TraversalBFS(), nodes); err != nil {
			return err
		}
		var pre []*tree.Node[int]
		var walk func(i int)
		walk = func(i int) {
			if i < n {
				pre = append(pre, nodes[i])
				walk(2*i + 1)
				walk(2*i + 2)
			}
		}
		walk(0)
		if err := eqSlice("TraversalDFS", root.TraversalDFS(), pre); err != nil {
			return err
		}
		if n <= 70000 {
			lines := strings.Split(strings.TrimRight(root.DrawTree(), "\n"), "\n")
			k := 0
			for l, s := range lines {
				for _, f := range strings.Fields(s) {
					if f != fmt.Sprint(k) {
						return fmt.Errorf("DrawTree: %q on line %d, want %d", f, l, k)
					}
					k++
				}
				if k != min(n, 1<<(l+1)-1) {
					return fmt.Errorf("DrawTree: line %d ends after %d values", l, k)
				}
			}
			if k != n {
				return fmt.Errorf("DrawTree: %d values, want %d", k, n)
			}
		}
		return nil
	})
	giantMap := func(c *Ctx, n int) error {
		m := &rwmap.RWMap[int, int]{}
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				m.Store(i, i)
			case 1:
				if v, ok := m.LoadOrStore(i, i); ok || v != i {
					return fmt.Errorf("LoadOrStore(%d) = %d, %v", i, v, ok)
				}
			case 2:
				if v, ok := m.Swap(i, i); ok || v != 0 {
					return fmt.Errorf("Swap(%d) = %d, %v", i, v, ok)
				}
			}
		}
		is := func(what string, in func(i int) bool) error {
			cnt := int64(0)
			for i := 0; i <= n; i++ {
				if v, ok := m.Load(i); ok != in(i) || (ok && v != i) {
					return fmt.Errorf("%s: Load(%d) = %d, %v", what, i, v, ok)
				}
				if in(i) {
					cnt++
				}
			}
			if m.Len() != cnt || m.SlowLen() != cnt {
				return fmt.Errorf("%s: Len() = %d, SlowLen() = %d, want %d", what, m.Len(), m.SlowLen(), cnt)
			}
			seen := map[int]bool{}
			bad := -1
			m.Range(func(k, v int) bool {
				if k != v || seen[k] || !in(k) {
					bad = k
				}
				seen[k] = true
				return true
			})
			if bad >= 0 || int64(len(seen)) != cnt {
				return fmt.Errorf("%s: Range visits %d keys of %d, wrong at %d", what, len(seen), cnt, bad)
			}
			return nil
		}
		all := func(i int) bool { return i < n }
		if err := is("stored", all); err != nil {
			return err
		}
		for i := 0; i < n; i += 2 {
			if i%4 == 0 {
				if v, ok := m.LoadAndDelete(i); !ok || v != i {
					return fmt.Errorf("LoadAndDelete(%d) = %d, %v", i, v, ok)
				}
			} else if m.CompareAndDelete(i, -1) || !m.CompareAndDelete(i, i) {
				return fmt.Errorf("CompareAndDelete(%d) is wrong", i)
			}
		}
		if err := is("deleted", func(i int) bool { return i < n && i%2 == 1 }); err != nil {
			return err
		}
		for i := n - 1; i >= 0; i-- {
			if i%2 == 1 && (!m.CompareAndSwap(i, i, -i) || !m.CompareAndSwap(i, -i, i)) {
				return fmt.Errorf("CompareAndSwap(%d) fails", i)
			}
			if i%2 == 0 {
				m.Store(i, i)
			}
		}
		if err := is("stored again", all); err != nil {
			return err
		}
		m.Clear()
		if err := is("Clear", func(int) bool { return false }); err != nil {
			return err
		}
		for i := 0; i < n; i++ {
			m.Store(i, i)
		}
		return is("after Clear", all)
	}
	for _, id := range []string{"C02", "C03", "C04"} {
		giant(id, giantMap)
	}
	// the function changes the map it ranges over
	giant("C03", func(c *Ctx, n int) error {
		m := &rwmap.RWMap[int, int]{}
		for i := 0; i < n; i++ {
			m.Store(i, i)
		}
		seen := make([]int8, n)
		extra, bad := 0, -1
		m.Range(func(k, v int) bool {
			if k >= n {
				extra++
				return true
			}
			if k != v {
				bad = k
			}
			seen[k]++
			m.Store(n+k, k)
			m.Delete(k)
			return true
		})
		for k, s := range seen {
			if s != 1 || bad >= 0 || extra > n {
				return fmt.Errorf("Range visits key %d %d times (wrong value at %d)", k, s, bad)
			}
		}
		if m.Len() != int64(n) || m.SlowLen() != int64(n) {
			return fmt.Errorf("Len() = %d, want %d", m.Len(), n)
		}
		stop := 0
		m.Range(func(k, v int) bool { stop++; return stop < n/2 })
		if stop != n/2 {
			return fmt.Errorf("Range goes on after false: %d", stop)
		}
		m.Range(func(k, v int) bool { m.Clear(); stop++; return true })
		if m.Len() != 0 {
			return fmt.Errorf("Len() = %d after Clear", m.Len())
		}
		return nil
	})
}

// giantCache: a cache of n entries, some of which expire, single-threaded on the virtual clock. cb: watch the callbacks.
func giantCache(cb bool) func(c *Ctx, n int) error {
	return func(c *Ctx, n int) error {
		cbs := make([]int8, 3*n)
		sc := &synccache.SyncCache[int, int]{}
		if cb {
			synccache.WithDeletedCallback[int, int](func(v int) { cbs[v]++ })(sc)
		}
		fired := func(what string, want func(v int) int8) error {
			if !cb {
				return nil
			}
			for v, g := range cbs {
				if g != want(v) {
					return fmt.Errorf("%s: %d callbacks for entry %d, want %d", what, g, v, want(v))
				}
			}
			return nil
		}
		short := func(i int) bool { return i%3 == 0 }
		for i := 0; i < n; i++ {
			d := time.Hour
			if short(i) {
				d = time.Second
			}
			sc.Store(i, i, d)
		}
		if err := fired("stored", func(int) int8 { return 0 }); err != nil {
			return err
		}
		is := func(what string, in func(i int) bool) error {
			seen := map[int]bool{}
			bad := -1
			sc.Range(func(k int, e *synccache.Entry[int]) bool {
				if seen[k] || !in(k) || e.Value()%n != k {
					bad = k
				}
				seen[k] = true
				return true
			})
			for i := 0; i < n; i++ {
				if bad >= 0 || seen[i] != in(i) {
					return fmt.Errorf("%s: Range visits entry %d: %v (wrong at %d)", what, i, seen[i], bad)
				}
				if e, ok := sc.Load(i); ok != in(i) || (ok && e.Value()%n != i) {
					return fmt.Errorf("%s: Load(%d) gives %v", what, i, ok)
				}
			}
			return nil
		}
		if err := is("stored", func(int) bool { return true }); err != nil {
			return err
		}
		core.AdvanceQuiet(int64(2 * time.Second))
		if err := is("expired", func(i int) bool { return !short(i) }); err != nil {
			return err
		}
		if err := fired("expired", func(v int) int8 {
			if v < n && short(v) {
				return 1
			}
			return 0
		}); err != nil {
			return err
		}
		for i := 0; i < n; i++ {
			switch e, ok := sc.LoadOrStore(i, n+i, time.Minute); {
			case ok == short(i), ok && e.Value() != i, !ok && e.Value() != n+i:
				return fmt.Errorf("LoadOrStore(%d) gives %d, %v", i, e.Value(), ok)
			}
			if i%3 == 1 { // replaced: no callback for the old entry
				sc.Store(i, 2*n+i, time.Hour)
			}
		}
		if err := is("stored again", func(int) bool { return true }); err != nil {
			return err
		}
		for i := 0; i < n; i += 2 {
			switch i / 2 % 3 {
			case 0:
				sc.Delete(i)
			case 1:
				if e, ok := sc.LoadAndDelete(i); !ok || e.Value()%n != i {
					return fmt.Errorf("LoadAndDelete(%d) gives %v", i, ok)
				}
			case 2:
				e, _ := sc.Load(i)
				if sc.CompareValueAndDelete(i, -1) || !sc.CompareAndDelete(i, e) || sc.CompareAndDelete(i, e) {
					return fmt.Errorf("CompareAndDelete(%d) is wrong", i)
				}
			}
		}
		if err := is("deleted", func(i int) bool { return i%2 == 1 }); err != nil {
			return err
		}
		final := func(v int) int8 {
			i := v % n
			switch v / n {
			case 0:
				if short(i) || i%3 == 2 {
					return 1
				}
			case 1:
				if short(i) {
					return 1
				}
			case 2:
				if i%3 == 1 {
					return 1
				}
			}
			return 0
		}
		if err := fired("deleted", func(v int) int8 {
			if v < n && short(v) {
				return 1
			}
			if v%n%2 == 1 {
				return 0
			}
			return final(v)
		}); err != nil {
			return err
		}
		sc.Clear()
		if err := is("Clear", func(int) bool { return false }); err != nil {
			return err
		}
		return fired("Clear", final)
	}
}

func init() {
	giant("C06", giantCache(false))
	giant("C08", giantCache(true))
}

// hrGiant: a ring of many points, its keys 3000 names spread over it.
func hrGiant(c *Ctx, id string, nodes, rep int) {
	var u []string
	for i := 0; i < nodes; i++ {
		u = append(u, fmt.Sprintf("server-%d", i))
	}
	var keys []string
	for i := 0; i < 3000; i++ {
		keys = append(keys, fmt.Sprintf("key%d", i))
	}
	keys = append(keys, u[0], u[len(u)-1])
	ref := newHrRef(rep, u)
	c.Case(func() string { return fmt.Sprintf("%d nodes, %d replicas", nodes, rep) }, func() error {
		hr := hashring.New[string](rep)
		hr.AddNodes(u...)
		o := hashring.New[string](rep)
		for i := len(u) - 1; i >= 0; i -= 1 + len(u)/20 {
			o.AddNodes(u[i])
		}
		o.AddNodes("gone")
		o.AddNodes(u...)
		o.RemoveNodes("gone")
		now := hrOwners(hr, keys)
		c.Trans += int64(len(keys))
		switch id {
		case "C27":
			in := map[string]bool{}
			for _, x := range u {
				in[x] = true
			}
			for i, x := range hrOwners(o, keys) {
				if x != now[i] || !in[x] {
					return fmt.Errorf("key %v goes to %v or %v depending on the history", keys[i], now[i], x)
				}
			}
		case "C28":
			for _, x := range []int{0, len(u) / 2, len(u) - 1} {
				hr.RemoveNodes(u[x])
				mid := hrOwners(hr, keys)
				hr.AddNodes(u[x])
				back := hrOwners(hr, keys)
				for i, k := range keys {
					if len(u) > 1 && (mid[i] == u[x] || (mid[i] != now[i] && now[i] != u[x])) {
						return fmt.Errorf("removing %v moved key %v from %v to %v", u[x], k, now[i], mid[i])
					}
					if back[i] != now[i] {
						return fmt.Errorf("removing and adding back %v moved key %v from %v to %v", u[x], k, now[i], back[i])
					}
				}
			}
		case "C29":
			for i, k := range keys {
				if !contains(ref.owners(k), now[i]) {
					return fmt.Errorf("key %v (hash %#x) goes to %v, its next point is of %v", k, hrPoint(k, 0), now[i], ref.owners(k))
				}
			}
		}
		return nil
	})
}
