package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/pqueue"
	"golang.org/x/exp/constraints"
)

// ---------------------------------------------------------------- heap over a container that tracks identity

type hItem struct {
	id, pri int
}

// hBox is a user container: elements keep their identity and their index.
type hBox struct {
	d    []*hItem
	desc bool
	bad  string
}

func (h *hBox) Len() int { return len(h.d) }
func (h *hBox) Less(i, j int) bool {
	if i < 0 || j < 0 || i >= len(h.d) || j >= len(h.d) {
		panic(fmt.Sprintf("Less(%d, %d) with %d elements", i, j, len(h.d)))
	}
	if h.desc {
		return h.d[i].pri > h.d[j].pri
	}
	return h.d[i].pri < h.d[j].pri
}
func (h *hBox) Swap(i, j int) { h.d[i], h.d[j] = h.d[j], h.d[i] }
func (h *hBox) Push(x *hItem) { h.d = append(h.d, x) }
func (h *hBox) Pop() *hItem {
	n := len(h.d) - 1
	x := h.d[n]
	h.d = h.d[:n:n]
	return x
}

// hSys: the container starts with arbitrary contents, then Init, then calls.
type hSys struct {
	h      *hBox
	m      map[int]int // id -> priority of what must be inside
	next   int
	pris   []int
	maxLen int
	budget int
}

func (s *hSys) Ops() int { return len(s.pris) + 1 + s.maxLen*(1+len(s.pris)) }
func (s *hSys) dec(i int) (kind, idx, p int) {
	if i < len(s.pris) {
		return 0, 0, s.pris[i]
	}
	i -= len(s.pris)
	if i == 0 {
		return 1, 0, 0
	}
	i--
	idx = i / (1 + len(s.pris))
	j := i % (1 + len(s.pris))
	if j == 0 {
		return 2, idx, 0
	}
	return 3, idx, s.pris[j-1]
}
func (s *hSys) OpName(i int) string {
	k, idx, p := s.dec(i)
	switch k {
	case 0:
		return fmt.Sprintf("Push(%d)", p)
	case 1:
		return "Pop()"
	case 2:
		return fmt.Sprintf("Remove(%d)", idx)
	}
	return fmt.Sprintf("set [%d]=%d; Fix(%d)", idx, p, idx)
}
func (s *hSys) Enabled(i int) bool {
	k, idx, _ := s.dec(i)
	switch k {
	case 0:
		return s.h.Len() < s.maxLen
	case 1:
		return s.h.Len() > 0
	}
	return idx < s.h.Len()
}
func (s *hSys) Digest(f *FP) {
	// priorities by position: identities are symmetric
	f.u(uint64(len(s.h.d)))
	for _, x := range s.h.d {
		f.u(uint64(x.pri))
	}
}

func (s *hSys) least(x *hItem) bool {
	for _, p := range s.m {
		if (!s.h.desc && p < x.pri) || (s.h.desc && p > x.pri) {
			return false
		}
	}
	return true
}

func (s *hSys) Do(i int) error {
	k, idx, p := s.dec(i)
	what := s.OpName(i)
	switch k {
	case 0:
		s.next++
		x := &hItem{s.next, p}
		heap.Push[*hItem](s.h, x)
		s.m[x.id] = p
	case 1:
		x := heap.Pop[*hItem](s.h)
		if pr, ok := s.m[x.id]; !ok || pr != x.pri {
			return fmt.Errorf("Pop returned an element that is not in the heap")
		}
		if !s.least(x) {
			return fmt.Errorf("Pop returned %d while something less is inside: %v", x.pri, s.m)
		}
		delete(s.m, x.id)
	case 2:
		w := s.h.d[idx]
		x := heap.Remove[*hItem](s.h, idx)
		if x != w {
			return fmt.Errorf("Remove(%d) returned the element of priority %d, not the one at that index (%d)", idx, x.pri, w.pri)
		}
		delete(s.m, x.id)
	case 3:
		x := s.h.d[idx]
		x.pri = p
		s.m[x.id] = p
		heap.Fix[*hItem](s.h, idx)
	}
	return s.check(what)
}

func (s *hSys) check(what string) error {
	if len(s.h.d) != len(s.m) {
		return fmt.Errorf("after %s the heap has %d elements, want %d", what, len(s.h.d), len(s.m))
	}
	seen := map[int]bool{}
	for i, x := range s.h.d {
		if p, ok := s.m[x.id]; !ok || p != x.pri || seen[x.id] {
			return fmt.Errorf("after %s the heap holds something it should not (or twice) at %d", what, i)
		}
		seen[x.id] = true
		if i > 0 && s.h.Less(i, (i-1)/2) {
			return fmt.Errorf("after %s the heap order is broken at %d: %v", what, i, s.pr())
		}
	}
	return nil
}

func (s *hSys) pr() (r []int) {
	for _, x := range s.h.d {
		r = append(r, x.pri)
	}
	return
}

func hNew(init []int, desc bool, pris []int, maxLen int) (*hSys, error) {
	s := &hSys{h: &hBox{desc: desc}, m: map[int]int{}, pris: pris, maxLen: maxLen}
	for _, p := range init {
		s.next++
		s.h.d = append(s.h.d, &hItem{s.next, p})
		s.m[s.next] = p
	}
	heap.Init[*hItem](s.h)
	return s, s.check(fmt.Sprintf("Init of %v", init))
}

// hDrain: Init, then single calls at every position, then pop everything.
func hOneStep(init []int, desc bool, pris []int) error {
	s, err := hNew(init, desc, pris, len(init)+1)
	if err != nil {
		return err
	}
	for op := 0; op < s.Ops(); op++ {
		if s, err = hNew(init, desc, pris, len(init)+1); err != nil {
			return err
		}
		if !s.Enabled(op) {
			continue
		}
		if err := s.Do(op); err != nil {
			return fmt.Errorf("Init(%v), %v", init, err)
		}
		pop := len(s.pris)
		for s.h.Len() > 0 {
			if err := s.Do(pop); err != nil {
				return fmt.Errorf("Init(%v), %s, Pop...: %v", init, s.OpName(op), err)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- MinHeap, MaxHeap

type ordHeap[T constraints.Ordered] interface {
	heap.Interface[T]
}

func heapTyped[T constraints.Ordered](c *Ctx, name string, vals []T, n int) {
	less := func(max bool, a, b T) bool {
		if max {
			return a > b
		}
		return a < b
	}
	for _, max := range []bool{false, true} {
		mk := func(init []T) heap.Interface[T] {
			d := append([]T{}, init...)
			if max {
				h := heap.MaxHeap[T](d)
				return &h
			}
			h := heap.MinHeap[T](d)
			return &h
		}
		data := func(h heap.Interface[T]) []T {
			switch h := h.(type) {
			case *heap.MinHeap[T]:
				return *h
			case *heap.MaxHeap[T]:
				return *h
			}
			return nil
		}
		seqsUpTo(n, len(vals), func(s []int) bool {
			return c.Case(func() string { return fmt.Sprintf("%s max=%v init %v", name, max, s) }, func() error {
				var init []T
				for _, i := range s {
					init = append(init, vals[i])
				}
				check := func(h heap.Interface[T], want []T, what string) error {
					d := data(h)
					if h.Len() != len(want) || len(d) != len(want) {
						return fmt.Errorf("%s: %d elements, want %d", what, h.Len(), len(want))
					}
					if !sameMultiset(d, want) {
						return fmt.Errorf("%s: holds %v, want %v in some order", what, d, want)
					}
					for i := 1; i < len(d); i++ {
						if less(max, d[i], d[(i-1)/2]) {
							return fmt.Errorf("%s: heap order broken: %v", what, d)
						}
					}
					return nil
				}
				drain := func(h heap.Interface[T], want []T, what string) error {
					want = append([]T{}, want...)
					sort.SliceStable(want, func(i, j int) bool { return less(max, want[i], want[j]) })
					for i := range want {
						if x := heap.Pop(h); x != want[i] {
							return fmt.Errorf("%s: Pop gives %v, want %v", what, x, want[i])
						}
						if err := check(h, want[i+1:], what+" Pop"); err != nil {
							return err
						}
					}
					return nil
				}
				h := mk(init)
				heap.Init(h)
				if err := check(h, init, "Init"); err != nil {
					return err
				}
				if err := drain(h, init, "Init"); err != nil {
					return err
				}
				// built by Push
				h = mk(nil)
				for i, v := range init {
					heap.Push(h, v)
					if err := check(h, init[:i+1], "Push"); err != nil {
						return err
					}
				}
				if err := drain(h, init, "Push"); err != nil {
					return err
				}
				for i := range init {
					h = mk(init)
					heap.Init(h)
					x := data(h)[i]
					if y := heap.Remove(h, i); y != x {
						return fmt.Errorf("Remove(%d) = %v, want %v", i, y, x)
					}
					rest := without(init, x)
					if err := check(h, rest, "Remove"); err != nil {
						return err
					}
					if err := drain(h, rest, "Remove"); err != nil {
						return err
					}
					for _, v := range vals {
						h = mk(init)
						heap.Init(h)
						x := data(h)[i]
						data(h)[i] = v
						heap.Fix(h, i)
						w := append(without(init, x), v)
						if err := check(h, w, "Fix"); err != nil {
							return err
						}
						c.Trans++
					}
				}
				return nil
			})
		})
	}
}

func without[T comparable](s []T, x T) []T {
	r := append([]T{}, s...)
	for i := range r {
		if r[i] == x {
			return append(r[:i], r[i+1:]...)
		}
	}
	return r
}

func sameMultiset[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[T]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		if m[x] == 0 {
			return false
		}
		m[x]--
	}
	return true
}

// heapShapes enumerates every heap-ordered array of exactly n elements over k labels and, on each, Remove and Fix (to every
// label) at every index, Push of every label and Pop, with the order and the contents checked after the call. A label is
// all a comparison sees, so this covers every way the sift paths can run at sizes the call histories do not reach.
func heapShapes(c *Ctx, n, k int, desc bool) {
	lab := make([]int, n)
	items := make([]hItem, n+1)
	h := &hBox{desc: desc}
	load := func() {
		h.d = h.d[:0]
		for i := 0; i < n; i++ {
			items[i] = hItem{i, lab[i]}
			if desc {
				items[i].pri = -lab[i]
			}
			h.d = append(h.d, &items[i])
		}
	}
	seen := make([]bool, n+1)
	check := func(gone *hItem, size int, what string, at, p int) error {
		if len(h.d) != size {
			return fmt.Errorf("after %s(%d, %d) on %v: %d elements, want %d", what, at, p, lab, len(h.d), size)
		}
		for i := range seen {
			seen[i] = false
		}
		if gone != nil {
			seen[gone.id] = true
		}
		for i, x := range h.d {
			if seen[x.id] {
				return fmt.Errorf("after %s(%d, %d) on %v: an element is there twice, or was removed", what, at, p, lab)
			}
			seen[x.id] = true
			if i > 0 && h.Less(i, (i-1)/2) {
				return fmt.Errorf("after %s(%d, %d) on %v: the heap order is broken at %d", what, at, p, lab, i)
			}
		}
		return nil
	}
	pri := func(p int) int {
		if desc {
			return -p
		}
		return p
	}
	one := func() error {
		for i := 0; i < n; i++ {
			load()
			w := h.d[i]
			if r := heap.Remove[*hItem](h, i); r != w {
				return fmt.Errorf("Remove(%d) on %v returned another element", i, lab)
			}
			if err := check(w, n-1, "Remove", i, 0); err != nil {
				return err
			}
			for p := -1; p <= k; p++ {
				load()
				h.d[i].pri = pri(p)
				heap.Fix[*hItem](h, i)
				if err := check(nil, n, "Fix", i, p); err != nil {
					return err
				}
			}
			c.Trans += int64(k) + 3
		}
		for p := -1; p <= k; p++ {
			load()
			items[n] = hItem{n, pri(p)}
			heap.Push[*hItem](h, &items[n])
			if err := check(nil, n+1, "Push", n, p); err != nil {
				return err
			}
		}
		load()
		top := h.d[0].pri
		r := heap.Pop[*hItem](h)
		if r.pri != top {
			return fmt.Errorf("Pop on %v gives %d", lab, r.pri)
		}
		return check(r, n-1, "Pop", 0, 0)
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return c.Case(func() string { return fmt.Sprintf("heap %v desc=%v", lab, desc) }, one)
		}
		lo := 0
		if i > 0 {
			lo = lab[(i-1)/2]
		}
		for v := lo; v < k; v++ {
			lab[i] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// heapInit01: Init of every array of n elements over two labels, then drained; the 0-1 principle for comparison-based code.
func heapInit01(c *Ctx, n int, desc bool) {
	for x := 0; x < 1<<n; x++ {
		if !c.Case(func() string { return fmt.Sprintf("Init of %0*b desc=%v", n, x, desc) }, func() error {
			h := &hBox{desc: desc}
			for i := 0; i < n; i++ {
				h.d = append(h.d, &hItem{i, x >> i & 1})
			}
			heap.Init[*hItem](h)
			var seen uint64
			for i, e := range h.d {
				if i > 0 && h.Less(i, (i-1)/2) {
					return fmt.Errorf("the heap order is broken at %d", i)
				}
				seen |= 1 << e.id
			}
			if len(h.d) != n || seen != 1<<n-1 {
				return fmt.Errorf("an element was lost or duplicated")
			}
			last := 0
			for i := 0; i < n; i++ {
				e := heap.Pop[*hItem](h)
				if i > 0 && ((!desc && e.pri < last) || (desc && e.pri > last)) {
					return fmt.Errorf("Pop number %d gives %d after %d", i, e.pri, last)
				}
				last = e.pri
				if seen>>e.id&1 == 0 {
					return fmt.Errorf("Pop gives an element twice")
				}
				seen &^= 1 << e.id
			}
			return nil
		}) {
			return
		}
	}
}

// pq01: every sequence of n pushes over two priorities, then drained, with a push in the middle of the drain.
func pq01(c *Ctx, n int, max bool) {
	for x := 0; x < 1<<n; x++ {
		if !c.Case(func() string { return fmt.Sprintf("pushes %0*b max=%v", n, x, max) }, func() error {
			s := pqNew(max, nil, 0, func(i int) int { return i })
			for i := 0; i < n; i++ {
				if err := s.push(x>>i&1, i); err != nil {
					return err
				}
			}
			for k := 0; len(s.in) > 0; k++ {
				if err := s.pop(); err != nil {
					return err
				}
				if k == n/2 {
					if err := s.push(x&1, n); err != nil {
						return err
					}
				}
			}
			c.Trans += int64(2*n) + 2
			return nil
		}) {
			return
		}
	}
}

func heapLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		for p, init := range patterns(n) {
			for _, desc := range []bool{false, true} {
				if !c.Case(func() string { return fmt.Sprintf("heap of %d, pattern %d, desc %v", n, p, desc) }, func() error {
					s, err := hNew(init, desc, []int{math.MinInt, -1, 3, math.MaxInt}, n+2)
					if err != nil {
						return err
					}
					for k := 0; k < 4; k++ {
						for _, idx := range []int{0, 1, n / 2, n/2 - 1, n - 2, n - 1} {
							if idx < 0 || idx >= s.h.Len() {
								continue
							}
							c.Trans++
							x := s.h.d[idx]
							x.pri = s.pris[(k+idx)%4]
							s.m[x.id] = x.pri
							heap.Fix[*hItem](s.h, idx)
							if err := s.check(fmt.Sprintf("Fix(%d)", idx)); err != nil {
								return err
							}
							w := s.h.d[idx]
							if r := heap.Remove[*hItem](s.h, idx); r != w {
								return fmt.Errorf("Remove(%d) returned another element", idx)
							}
							delete(s.m, w.id)
							if err := s.check(fmt.Sprintf("Remove(%d)", idx)); err != nil {
								return err
							}
							if err := s.Do(k); err != nil { // push it back with another priority
								return err
							}
						}
					}
					last := 0
					for first := true; s.h.Len() > 0; first = false {
						x := heap.Pop[*hItem](s.h)
						if !first && ((!desc && x.pri < last) || (desc && x.pri > last)) {
							return fmt.Errorf("Pop gives %d after %d", x.pri, last)
						}
						last = x.pri
						if _, ok := s.m[x.id]; !ok {
							return fmt.Errorf("Pop gives an element that is not inside")
						}
						delete(s.m, x.id)
					}
					if len(s.m) != 0 {
						return fmt.Errorf("%d elements were lost", len(s.m))
					}
					return nil
				}) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- pqueue

type pqSys[T comparable] struct {
	q    *pqueue.PQueue[T]
	max  bool
	in   []pqPair[T]
	pris []int
	val  func(n int) T
	n    int
	cap  int
}

type pqPair[T any] struct {
	p int
	v T
}

func (s *pqSys[T]) Ops() int { return len(s.pris) + 1 }
func (s *pqSys[T]) OpName(i int) string {
	if i < len(s.pris) {
		return fmt.Sprintf("Push(%d)", s.pris[i])
	}
	return "Pop()"
}
func (s *pqSys[T]) Enabled(i int) bool {
	if i < len(s.pris) {
		return len(s.in) < s.cap
	}
	return len(s.in) > 0
}
func (s *pqSys[T]) Digest(f *FP) { f.Root(s.q); f.u(uint64(s.n)) }
func (s *pqSys[T]) Do(i int) error {
	if i < len(s.pris) {
		s.n++
		return s.push(s.pris[i], s.val(s.n))
	}
	return s.pop()
}
func (s *pqSys[T]) push(p int, v T) error {
	s.q.Push(p, v)
	s.in = append(s.in, pqPair[T]{p, v})
	return s.len()
}
func (s *pqSys[T]) len() error {
	if s.q.Len() != len(s.in) {
		return fmt.Errorf("Len() = %d, want %d", s.q.Len(), len(s.in))
	}
	return nil
}
func (s *pqSys[T]) pop() error {
	best := s.in[0].p
	for _, x := range s.in {
		if (s.max && x.p > best) || (!s.max && x.p < best) {
			best = x.p
		}
	}
	p, v := s.q.Pop()
	if p != best {
		return fmt.Errorf("Pop gives priority %d, but %d is inside", p, best)
	}
	for i, x := range s.in {
		if x.p == p && x.v == v {
			s.in = append(s.in[:i:i], s.in[i+1:]...)
			return s.len()
		}
	}
	return fmt.Errorf("Pop gives (%d, %v), which is not inside: %v", p, v, s.in)
}

func pqNew[T comparable](max bool, pris []int, cap int, val func(int) T) *pqSys[T] {
	s := &pqSys[T]{max: max, pris: pris, val: val, cap: cap}
	if max {
		s.q = pqueue.NewMaxPriorityQueue[T]()
	} else {
		s.q = pqueue.NewMinPriorityQueue[T]()
	}
	return s
}

func pqLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		for p, pris := range patterns(n) {
			for _, max := range []bool{false, true} {
				if !c.Case(func() string { return fmt.Sprintf("pqueue of %d, pattern %d, max %v", n, p, max) }, func() error {
					s := pqNew(max, nil, 0, func(i int) string { return fmt.Sprint("v", i) })
					for i, x := range pris {
						c.Trans++
						if err := s.push(x, fmt.Sprint("v", i)); err != nil {
							return err
						}
						if p%2 == 1 && i%3 == 2 {
							if err := s.pop(); err != nil {
								return err
							}
						}
					}
					for len(s.in) > 0 {
						if err := s.pop(); err != nil {
							return err
						}
					}
					if err := s.push(1, "again"); err != nil {
						return err
					}
					return s.pop()
				}) {
					return
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C19", Bounds: "closure of Push/Pop/Remove/Fix over a user container with up to 8 (thorough 9) elements of 4 priorities, ascending and descending; Init of all sequences over 4 priorities up to length 7 (8) and all permutations up to 8 (9), followed by every single call and full drain; every heap-ordered array over 2 labels up to size 22 (31) and over 3 labels up to size 14 (17) with every call at every index; Init of every 0-1 array up to length 16 (19), drained; MinHeap and MaxHeap over ints, uint8, floats and strings; patterned heaps up to 1026",
		Jobs: func(t bool) []Job {
			var js []Job
			pris := []int{math.MinInt, -1, 2, math.MaxInt}
			for _, desc := range []bool{false, true} {
				js = append(js, Job{Name: fmt.Sprintf("closure desc=%v", desc), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "heap", Depth: 1000, New: func() Sys {
						s, err := hNew(nil, desc, pris, pick(t, 8, 9))
						if err != nil {
							panic(err)
						}
						return s
					}})
				}})
				js = append(js, Job{Name: fmt.Sprintf("init desc=%v", desc), Run: func(c *Ctx) {
					seqsUpTo(pick(t, 7, 8), 4, func(s []int) bool {
						return c.Case(func() string { return fmt.Sprintf("Init %v", s) }, func() error { return hOneStep(s, desc, []int{-1, 1, 4}) })
					})
				}})
				js = append(js, Job{Name: fmt.Sprintf("init permutations desc=%v", desc), Run: func(c *Ctx) {
					for n := 5; n <= pick(t, 8, 9); n++ {
						permutations(n, func(s []int) bool {
							return c.Case(func() string { return fmt.Sprintf("Init %v", s) }, func() error { return hOneStep(s, desc, []int{-1, 3, 9}) })
						})
					}
				}})
			}
			for _, desc := range []bool{false, true} {
				js = append(js, Job{Name: fmt.Sprintf("two labels desc=%v", desc), Run: func(c *Ctx) {
					for n := 1; n <= pick(t, 22, 31); n++ {
						heapShapes(c, n, 2, desc)
					}
				}}, Job{Name: fmt.Sprintf("three labels desc=%v", desc), Run: func(c *Ctx) {
					for n := 1; n <= pick(t, 14, 17); n++ {
						heapShapes(c, n, 3, desc)
					}
				}}, Job{Name: fmt.Sprintf("0-1 inits desc=%v", desc), Run: func(c *Ctx) {
					for n := 1; n <= pick(t, 16, 19); n++ {
						heapInit01(c, n, desc)
					}
				}})
			}
			js = append(js,
				Job{Name: "ints", Run: func(c *Ctx) { heapTyped(c, "int", []int{math.MinInt, 0, 1, math.MaxInt}, pick(t, 6, 7)) }},
				Job{Name: "uint8", Run: func(c *Ctx) { heapTyped(c, "uint8", []uint8{0, 127, 128, 255}, pick(t, 6, 7)) }},
				Job{Name: "float64", Run: func(c *Ctx) { heapTyped(c, "float64", []float64{math.Inf(-1), -0.5, 0.5, math.Inf(1)}, pick(t, 6, 7)) }},
				Job{Name: "strings", Run: func(c *Ctx) { heapTyped(c, "string", []string{"", "a", "a10", "a9"}, pick(t, 6, 7)) }})
			for i := 0; i < 4; i++ {
				js = append(js, Job{Name: fmt.Sprintf("ladder/%d", i), Run: func(c *Ctx) { heapLadder(c, ladderShard(i, 4, pick(t, 1100, 2100))) }})
			}
			return js
		}})
	register(&Check{ID: "C20", Bounds: "all interleavings of Push (5 priorities incl. extremes) and Pop up to 8-12 (thorough 9-14) calls for min and max queues, ties included; every sequence of pushes over 2 priorities up to length 15 (18), drained; patterned queues of up to 1026 pairs",
		Jobs: func(t bool) []Job {
			var js []Job
			for _, max := range []bool{false, true} {
				js = append(js, Job{Name: fmt.Sprintf("extremes max=%v", max), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "pqueue", Depth: pick(t, 8, 9), New: func() Sys {
						return pqNew(max, []int{math.MinInt, -1, 0, 1, math.MaxInt}, 8, func(n int) int { return n })
					}})
				}}, Job{Name: fmt.Sprintf("ties max=%v", max), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "pqueue", Depth: pick(t, 12, 14), New: func() Sys {
						return pqNew(max, []int{1, 2}, 12, func(n int) string { return fmt.Sprint("v", n) })
					}})
				}}, Job{Name: fmt.Sprintf("equal pairs max=%v", max), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "pqueue", Depth: pick(t, 10, 12), New: func() Sys {
						return pqNew(max, []int{math.MinInt, 0, math.MaxInt}, 8, func(n int) bool { return n%2 == 0 })
					}})
				}}, Job{Name: fmt.Sprintf("0-1 max=%v", max), Run: func(c *Ctx) {
					for n := 1; n <= pick(t, 15, 18); n++ {
						pq01(c, n, max)
					}
				}})
			}
			for i := 0; i < 4; i++ {
				js = append(js, Job{Name: fmt.Sprintf("ladder/%d", i), Run: func(c *Ctx) { pqLadder(c, ladderShard(i, 4, pick(t, 1100, 2100))) }})
			}
			return js
		}})
}
