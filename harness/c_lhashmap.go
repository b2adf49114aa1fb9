package main

import (
	"fmt"

	"github.com/zijiren233/gencontainer/lhashmap"
)

// lhSys is the real map next to a slice of pairs, most recent first.
type lhSys[K comparable, V comparable] struct {
	m    *lhashmap.Lhashmap[K, V]
	ref  []lhPair[K, V]
	keys []K
	vals []V
}

type lhPair[K, V any] struct {
	k K
	v V
}

func (s *lhSys[K, V]) Ops() int { return len(s.keys)*(len(s.vals)+2) + 1 }
func (s *lhSys[K, V]) split(i int) (k, j int) {
	return i / (len(s.vals) + 2), i % (len(s.vals) + 2)
}
func (s *lhSys[K, V]) OpName(i int) string {
	k, j := s.split(i)
	switch {
	case k >= len(s.keys):
		return "Clear()"
	case j == 0:
		return fmt.Sprintf("Load(%v)", s.keys[k])
	case j == 1:
		return fmt.Sprintf("Remove(%v)", s.keys[k])
	}
	return fmt.Sprintf("Store(%v, %v)", s.keys[k], s.vals[j-2])
}
func (s *lhSys[K, V]) Enabled(i int) bool { return true }
func (s *lhSys[K, V]) Digest(f *FP)       { f.Root(s.m); f.Root(&s.ref) }

func (s *lhSys[K, V]) find(k K) int {
	for i := range s.ref {
		if s.ref[i].k == k {
			return i
		}
	}
	return -1
}

func (s *lhSys[K, V]) front(p lhPair[K, V], at int) {
	if at >= 0 {
		s.ref = append(s.ref[:at:at], s.ref[at+1:]...)
	}
	s.ref = append([]lhPair[K, V]{p}, s.ref...)
}

func (s *lhSys[K, V]) load(k K) error {
	v, ok := s.m.Load(k)
	at := s.find(k)
	var w V
	if at >= 0 {
		w = s.ref[at].v
		s.front(s.ref[at], at)
	}
	if v != w || ok != (at >= 0) {
		return fmt.Errorf("Load(%v) = (%v, %v), want (%v, %v)", k, v, ok, w, at >= 0)
	}
	return nil
}

func (s *lhSys[K, V]) remove(k K) {
	s.m.Remove(k)
	if at := s.find(k); at >= 0 {
		s.ref = append(s.ref[:at:at], s.ref[at+1:]...)
	}
}

func (s *lhSys[K, V]) store(k K, v V) {
	s.m.Store(k, v)
	s.front(lhPair[K, V]{k, v}, s.find(k))
}

func (s *lhSys[K, V]) clear() { s.m.Clear(); s.ref = nil }

func (s *lhSys[K, V]) Do(i int) error {
	k, j := s.split(i)
	switch {
	case k >= len(s.keys):
		s.clear()
	case j == 0:
		if err := s.load(s.keys[k]); err != nil {
			return err
		}
	case j == 1:
		s.remove(s.keys[k])
	default:
		s.store(s.keys[k], s.vals[j-2])
	}
	return s.check(true)
}

func (s *lhSys[K, V]) check(stops bool) error {
	if s.m.Len() != len(s.ref) {
		return fmt.Errorf("Len() = %d, want %d", s.m.Len(), len(s.ref))
	}
	n := len(s.ref)
	first := n
	if stops {
		first = 0
	}
	for stop := first; stop <= n; stop++ {
		k, bad := 0, false
		s.m.Range(func(key K, v V) bool {
			if k >= n || s.ref[k].k != key || s.ref[k].v != v {
				bad = true
				return false
			}
			k++
			return k <= stop
		})
		if bad || k != min(stop+1, n) {
			return fmt.Errorf("Range told to stop at call %d: %d calls, wrong entry %v; want order %v", stop+1, k, bad, s.ref)
		}
	}
	return nil
}

func lhSpec[K, V comparable](keys []K, vals []V, depth int, conf ...lhashmap.LHashMapConf[K, V]) Spec {
	return Spec{Name: "lhashmap", Depth: depth, New: func() Sys {
		return &lhSys[K, V]{m: lhashmap.New[K, V](conf...), keys: keys, vals: vals}
	}}
}

func lhLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		for variant := 0; variant < 3; variant++ {
			if !c.Case(func() string { return fmt.Sprintf("lhashmap with %d keys, variant %d", n, variant) }, func() error {
				s := &lhSys[int, string]{m: lhashmap.New[int, string]()}
				if variant == 2 {
					s.m = lhashmap.New(lhashmap.WithCap[int, string](n / 2))
				}
				for i := 0; i < n; i++ {
					s.store(i, fmt.Sprint(i))
				}
				if err := s.check(false); err != nil {
					return err
				}
				for i := 0; i < n; i += 1 + variant {
					k := i * 7 % (n + 1)
					switch (i + variant) % 4 {
					case 0:
						s.remove(k)
					case 1:
						s.store(k, "again")
					default:
						if err := s.load(k); err != nil {
							return err
						}
					}
					c.Trans++
					if n <= 130 || i%16 == 0 {
						if err := s.check(false); err != nil {
							return fmt.Errorf("step %d: %v", i, err)
						}
					}
				}
				if err := s.check(n <= 100); err != nil {
					return err
				}
				s.clear()
				if err := s.check(false); err != nil {
					return err
				}
				for i := n; i > 0; i-- {
					if err := s.load(i); err != nil {
						return err
					}
					s.store(i, "x")
				}
				return s.check(false)
			}) {
				return
			}
		}
	}
}

func init() {
	register(&Check{ID: "C18", Bounds: "closure of all histories over 5 keys and 2 values and 6 keys and 1 value (thorough one key more), other key and value types, long histories over up to 1026 keys; Range order and early stop checked after every call",
		Jobs: func(t bool) []Job {
			js := []Job{
				{Name: "ints", Run: func(c *Ctx) { c.BFS(lhSpec([]int{0, 1, 2, 3}[:pick(t, 4, 4)], []int{0, 5}, 1000)) }},
				{Name: "many keys", Run: func(c *Ctx) {
					c.BFS(lhSpec([]int{1, 2, 3, 4, 5, 6, 7}[:pick(t, 6, 7)], []int{1}, 1000))
				}},
				{Name: "with cap", Run: func(c *Ctx) {
					c.BFS(lhSpec([]string{"", "a", "b"}, []string{"", "v"}, 1000, lhashmap.WithCap[string, string](8)))
				}},
				{Name: "cap 0 twice", Run: func(c *Ctx) {
					c.BFS(lhSpec([]string{"", "a"}, []string{"", "v"}, 1000, lhashmap.WithCap[string, string](0), lhashmap.WithCap[string, string](3)))
				}},
				{Name: "structs", Run: func(c *Ctx) {
					c.BFS(lhSpec([]rwKeyS{{}, {1, "x"}, {1, "y"}}, []any{nil, 1}, 1000))
				}},
			}
			js = append(js, Job{Name: "many keys 2 values", Run: func(c *Ctx) { c.BFS(lhSpec([]int{1, 2, 3, 4, 5, 6}[:pick(t, 5, 6)], []int{1, 2}, 1000)) }})
			for i := 0; i < 4; i++ {
				js = append(js, Job{Name: fmt.Sprintf("ladder/%d", i), Run: func(c *Ctx) { lhLadder(c, ladderShard(i, 4, pick(t, 1100, 2100))) }})
			}
			return js
		}})
}
