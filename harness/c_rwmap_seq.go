package main

import (
	"fmt"

	"github.com/zijiren233/gencontainer/rwmap"
)

// rwSeq is the real map next to a plain map, single-threaded, for any key and value types.
type rwSeq[K, V comparable] struct {
	m    *rwmap.RWMap[K, V]
	ref  map[K]V
	ops  []rwOp
	keys []K
	vals []V // vals[0] is the zero value by convention of the caller, or any value
	uniq *uint64
}

func rwSeqSpec(keys, vals, depth, maxStates int, full bool) Spec {
	ks, vs := make([]int, keys), make([]int, vals)
	for i := range ks {
		ks[i] = i + 1
	}
	for i := range vs {
		vs[i] = i + 1
	}
	return rwTypedSpec("int/int", ks, vs, depth, maxStates, true)
}

// rwTypedSpec: merge says whether states may be merged by digest (the digest follows value pointers, so it
// is only used for value types no larger than an interface).
func rwTypedSpec[K, V comparable](name string, keys []K, vals []V, depth, maxStates int, merge bool) Spec {
	var ops []rwOp
	for k := range keys {
		ops = append(ops, rwOp{Kind: rwLoad, K: k}, rwOp{Kind: rwLAD, K: k}, rwOp{Kind: rwDel, K: k})
		for v := range vals {
			ops = append(ops, rwOp{Kind: rwStore, K: k, A: v}, rwOp{Kind: rwLOS, K: k, A: v}, rwOp{Kind: rwSwap, K: k, A: v}, rwOp{Kind: rwCAD, K: k, A: v})
			for w := range vals {
				ops = append(ops, rwOp{Kind: rwCAS, K: k, A: v, B: w})
			}
		}
	}
	ops = append(ops, rwOp{Kind: rwClear}, rwOp{Kind: rwRange}, rwOp{Kind: rwSlowLen}, rwOp{Kind: rwLen})
	return Spec{Name: fmt.Sprintf("rwmap %s keys=%d vals=%d", name, len(keys), len(vals)), Depth: depth, MaxStates: maxStates, New: func() Sys {
		y := &rwSeq[K, V]{m: &rwmap.RWMap[K, V]{}, ref: map[K]V{}, ops: ops, keys: keys, vals: vals}
		if !merge {
			y.uniq = &uniqCounter
		}
		return y
	}}
}

var uniqCounter uint64

func (s *rwSeq[K, V]) Ops() int            { return len(s.ops) }
func (s *rwSeq[K, V]) OpName(i int) string { return s.ops[i].String() + "#" }
func (s *rwSeq[K, V]) Enabled(i int) bool  { return true }
func (s *rwSeq[K, V]) Digest(f *FP) {
	if s.uniq != nil {
		*s.uniq++
		f.u(*s.uniq)
		return
	}
	f.Root(s.m)
	f.Root(&s.ref)
}

func rwCheckOp[K, V comparable](m *rwmap.RWMap[K, V], ref map[K]V, kind int, k K, a, b V) error {
	var zero V
	old, had := ref[k]
	if !had {
		old = zero
	}
	cmp := func(what string, gv V, gok bool, wv V, wok bool) error {
		if gv != wv || gok != wok {
			return fmt.Errorf("%s(%v) returned (%v, %v), a plain map gives (%v, %v)", what, k, gv, gok, wv, wok)
		}
		return nil
	}
	var err error
	switch kind {
	case rwLoad:
		v, ok := m.Load(k)
		err = cmp("Load", v, ok, old, had)
	case rwStore:
		m.Store(k, a)
		ref[k] = a
	case rwLOS:
		v, ok := m.LoadOrStore(k, a)
		if had {
			err = cmp("LoadOrStore", v, ok, old, true)
		} else {
			err = cmp("LoadOrStore", v, ok, a, false)
			ref[k] = a
		}
	case rwLAD:
		v, ok := m.LoadAndDelete(k)
		err = cmp("LoadAndDelete", v, ok, old, had)
		delete(ref, k)
	case rwDel:
		m.Delete(k)
		delete(ref, k)
	case rwSwap:
		v, ok := m.Swap(k, a)
		err = cmp("Swap", v, ok, old, had)
		ref[k] = a
	case rwCAS:
		ok := m.CompareAndSwap(k, a, b)
		w := had && old == a
		err = cmp("CompareAndSwap", zero, ok, zero, w)
		if w {
			ref[k] = b
		}
	case rwCAD:
		ok := m.CompareAndDelete(k, a)
		w := had && old == a
		err = cmp("CompareAndDelete", zero, ok, zero, w)
		if w {
			delete(ref, k)
		}
	case rwClear:
		m.Clear()
		clear(ref)
	case rwRange:
		seen := map[K]V{}
		dup := false
		m.Range(func(k K, v V) bool {
			_, d := seen[k]
			dup = dup || d
			seen[k] = v
			return true
		})
		if dup || len(seen) != len(ref) {
			return fmt.Errorf("Range visited %v (twice: %v), want %v", seen, dup, ref)
		}
		for k, v := range ref {
			if w, ok := seen[k]; !ok || w != v {
				return fmt.Errorf("Range visited %v, want %v", seen, ref)
			}
		}
	case rwSlowLen:
		if n := m.SlowLen(); int(n) != len(ref) {
			return fmt.Errorf("SlowLen() = %d, want %d", n, len(ref))
		}
	}
	if err != nil {
		return err
	}
	if l := int(m.Len()); l != len(ref) {
		return fmt.Errorf("after %s Len() = %d, want %d", rwKind[kind], l, len(ref))
	}
	return nil
}

func (s *rwSeq[K, V]) Do(i int) error {
	o := s.ops[i]
	var k K
	var a, b V
	if o.Kind != rwClear && o.Kind < rwRange {
		k = s.keys[o.K]
		a, b = s.vals[o.A], s.vals[o.B]
	}
	return rwCheckOp(s.m, s.ref, o.Kind, k, a, b)
}

// rwLadder: long single-threaded histories over many keys.
func rwLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		for variant := 0; variant < 4; variant++ {
			if !c.Case(func() string { return fmt.Sprintf("rwmap with %d keys, variant %d", n, variant) }, func() error {
				m, ref := &rwMap{}, map[int]int{}
				do := func(kind, k, a, b int) error { c.Trans++; return rwCheckOp(m, ref, kind, k, a, b) }
				full := func() error {
					for k := 0; k <= n+1; k++ {
						if err := do(rwLoad, k, 0, 0); err != nil {
							return err
						}
					}
					if err := do(rwRange, 0, 0, 0); err != nil {
						return err
					}
					return do(rwSlowLen, 0, 0, 0)
				}
				for k := 1; k <= n; k++ {
					kind := rwStore
					if variant&1 == 1 {
						kind = rwLOS
					}
					if err := do(kind, k, k%3, 0); err != nil {
						return err
					}
					if variant&2 == 2 && k%5 == 0 {
						if err := do(rwRange, 0, 0, 0); err != nil {
							return err
						}
					}
				}
				if err := full(); err != nil {
					return err
				}
				for k := 1; k <= n; k += 2 {
					kind := rwLAD
					if k%3 == 0 {
						kind = rwCAD
					}
					if err := do(kind, k, k%3, 0); err != nil {
						return err
					}
				}
				for k := n; k >= 1; k-- {
					kind := []int{rwSwap, rwLOS, rwCAS, rwLoad}[k%4]
					if err := do(kind, k, k%3, 7); err != nil {
						return err
					}
					if variant == 3 {
						if err := do(rwLoad, n+2, 0, 0); err != nil {
							return err
						}
					}
				}
				if err := full(); err != nil {
					return err
				}
				if err := do(rwClear, 0, 0, 0); err != nil {
					return err
				}
				if err := full(); err != nil {
					return err
				}
				for k := 1; k <= n; k++ {
					if err := do(rwSwap, k, k, 0); err != nil {
						return err
					}
				}
				return full()
			}) {
				return
			}
		}
	}
}

var ladderSizes = func() (r []int) {
	for i := 0; i <= 40; i++ {
		r = append(r, i)
	}
	r = append(r, 47, 48, 49, 50, 51, 60, 63, 64, 65, 66, 95, 96, 97, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 514, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025, 1026, 2048, 2049)
	return
}()

type rwKeyS struct {
	A int
	B string
}

type big struct {
	a, b, c, d int
	s          string
}

func init() {
	register(&Check{ID: "C04", Bounds: "closure of all single-threaded call sequences (all methods) over 4 keys and 2 values, 3 keys and 3 values, and 5 keys and 1 value, all sequences to the stated depth for other key and value types, the conditional methods on every triple of values of 12 types, and long histories over up to 1026 keys",
		Jobs: func(t bool) []Job {
			nilp := (*int)(nil)
			x := 5
			var e1 error = fmt.Errorf("e1")
			js := []Job{
				{Name: "int closure 2 keys", Run: func(c *Ctx) { c.BFS(rwSeqSpec(2, 2, 1000, pick(t, 300000, 3000000), t)) }},
				{Name: "int 3 keys", Run: func(c *Ctx) { c.BFS(rwSeqSpec(3, 2, 1000, 300000, t)) }},
				{Name: "int 4 keys 1 value", Run: func(c *Ctx) { c.BFS(rwSeqSpec(4, 1, 1000, 300000, t)) }},
				{Name: "int 4 keys 2 values", Run: func(c *Ctx) { c.BFS(rwSeqSpec(4, 2, 1000, 1000000, t)) }},
				{Name: "int 5 keys 1 value", Run: func(c *Ctx) { c.BFS(rwSeqSpec(5, 1, 1000, 1000000, t)) }},
				{Name: "int 3 keys 3 values", Run: func(c *Ctx) { c.BFS(rwSeqSpec(3, 3, 1000, 1000000, t)) }},
				{Name: "string/string", Run: func(c *Ctx) {
					c.BFS(rwTypedSpec("string/string", []string{"", "a"}, []string{"x", "yy"}, pick(t, 6, 12), pick(t, 30000, 300000), true))
				}},
				{Name: "zero values", Run: func(c *Ctx) { c.BFS(rwTypedSpec("int/int with 0", []int{0, 1}, []int{0, 7}, 4, 0, false)) }},
				{Name: "struct key, struct{} value", Run: func(c *Ctx) {
					c.BFS(rwTypedSpec("rwKeyS/struct{}", []rwKeyS{{}, {1, "x"}}, []struct{}{{}}, pick(t, 4, 5), 0, false))
				}},
				{Name: "interface keys and values", Run: func(c *Ctx) {
					c.BFS(rwTypedSpec("any/any", []any{nil, 1, int64(1)}[:2], []any{nil, 0, "s", int64(0)}[:3], pick(t, 3, 4), 0, false))
				}},
				{Name: "interface mixed", Run: func(c *Ctx) {
					c.BFS(rwTypedSpec("any/any", []any{1, int64(1)}, []any{int64(0), 0}, 4, 0, false))
				}},
				{Name: "error values", Run: func(c *Ctx) {
					c.BFS(rwTypedSpec("string/error", []string{"k"}, []error{nil, e1}, 5, 0, false))
				}},
				{Name: "pointer values", Run: func(c *Ctx) { c.BFS(rwTypedSpec("int/*int", []int{1, 2}, []*int{nilp, &x}, 4, 0, false)) }},
				{Name: "large values", Run: func(c *Ctx) {
					c.BFS(rwTypedSpec("int/big", []int{1, 2}, []big{{}, {a: 1, d: 9, s: "q"}}, 4, 0, false))
				}},
				{Name: "array values", Run: func(c *Ctx) {
					c.BFS(rwTypedSpec("float64/[3]byte", []float64{0.5, 2}, [][3]byte{{}, {1, 2, 3}}, 4, 0, false))
				}},
			}
			js = append(js, rwValuesJob())
			for i := 0; i < 4; i++ {
				js = append(js, Job{Name: fmt.Sprintf("ladder/%d", i), Run: func(c *Ctx) {
					var s []int
					for j, n := range ladderSizes {
						if j%4 == i && (t || n <= 300) {
							s = append(s, n)
						}
					}
					rwLadder(c, s)
				}})
			}
			return js
		}})
}
