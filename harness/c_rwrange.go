package main

import (
	"fmt"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// C03: Range against concurrent and re-entrant mutation.
//
// Range is two instants, its call and its return. A history is accepted if the other calls have a
// linearization in which every reported (key, value) held at some moment between the two instants and every
// key not reported was absent at some such moment.

const (
	rrStart = 100
	rrEnd   = 101
)

type rrState struct {
	m    rwState
	open bool
	seen [4]uint32 // per key: values observed in the window (bit 0: absent)
}

func rrBit(v int) uint32 {
	switch {
	case v == 0:
		return 1
	case v == 1:
		return 2
	}
	return 1 << (v/10*4 + v%10) // 10,11,20,21,30,31
}

func (s *rrState) note() {
	if s.open {
		for k := 1; k <= 3; k++ {
			s.seen[k] |= rrBit(s.m[k])
		}
	}
}

type rrScenario struct {
	c       *Ctx
	init    rwInit
	inner   []rwOp // called by the function on its first visit
	nested  bool   // the function also runs a nested Range on its first visit
	stop    int    // the function returns false on this visit (0: never)
	threads [][]rwOp
	order   int
	bound   int32
	intr    *core.Intrusion
}

func (s *rrScenario) desc() []string {
	r := []string{fmt.Sprintf("setup %v", s.init.hist), fmt.Sprintf("T0 Range with inner calls %v nested=%v stop=%d, map order %d", s.inner, s.nested, s.stop, s.order)}
	for i, t := range s.threads {
		r = append(r, fmt.Sprintf("T%d %v", i+1, t))
	}
	if s.intr != nil {
		r = append(r, intrDesc(s.intr))
	}
	return r
}

func (s *rrScenario) prog(x *core.Exec) func() error {
	core.MapOrder = s.order
	x.Intr = s.intr
	m := &rwMap{}
	for _, o := range s.init.hist {
		rwDo(m, o)
	}
	h := NewHist[rwOp, rwRes](len(s.threads)+1, 8)
	visited := make([][2]int, 0, 8)
	nestedVis := make([][2]int, 0, 8)
	late := false
	x.Spawn("T0", func() {
		core.CallPoint("Range")
		t := core.Stamp()
		h.per[0] = append(h.per[0], Event[rwOp, rwRes]{Op: rwOp{Kind: rrStart}, Call: t, Ret: t})
		n := 0
		m.Range(func(k, v int) bool {
			core.EndCall()
			n++
			if s.stop > 0 && n > s.stop {
				late = true
			}
			visited = append(visited, [2]int{k, v})
			if n == 1 {
				for _, o := range s.inner {
					h.Call(0, o, func() rwRes { return rwDo(m, o) })
				}
				if s.nested {
					m.Range(func(k, v int) bool {
						nestedVis = append(nestedVis, [2]int{k, v})
						return true
					})
				}
			}
			return n != s.stop
		})
		core.EndCall()
		t = core.Stamp()
		h.per[0] = append(h.per[0], Event[rwOp, rwRes]{Op: rwOp{Kind: rrEnd}, Call: t, Ret: t})
	})
	for i, ops := range s.threads {
		x.Spawn(fmt.Sprintf("T%d", i+1), func() {
			for _, o := range ops {
				h.Call(i+1, o, func() rwRes { return rwDo(m, o) })
			}
		})
	}
	return func() error {
		if late {
			return fmt.Errorf("Range went on after its function returned false: %v", visited)
		}
		check := func(what string, vis [][2]int) error {
			var got [4]int
			for _, kv := range vis {
				if kv[0] < 1 || kv[0] > 3 || kv[1] == 0 {
					return fmt.Errorf("%s reports (%d,%d), which was never stored", what, kv[0], kv[1])
				}
				if got[kv[0]] != 0 {
					return fmt.Errorf("%s visits key %d twice: %v", what, kv[0], vis)
				}
				got[kv[0]] = kv[1]
			}
			return nil
		}
		if err := check("Range", visited); err != nil {
			return err
		}
		if err := check("nested Range", nestedVis); err != nil {
			return err
		}
		stopped := s.stop > 0 && len(visited) == s.stop
		var fin rwState
		for k := 1; k <= 3; k++ {
			fin[k], _ = m.Load(k)
		}
		ev := h.All()
		g := mix(signature(ev), fin.sig())
		for _, kv := range visited {
			g = mix(g, uint64(kv[0]*100+kv[1]))
		}
		for _, kv := range nestedVis {
			g = mix(g, uint64(kv[0]*100+kv[1]+1000))
		}
		if s.c.Seen(g) {
			return nil
		}
		ok := Linearizable(rrState{m: s.init.state}, ev, func(st rrState, e *Event[rwOp, rwRes], emit func(rrState)) {
			switch e.Op.Kind {
			case rrStart:
				st.open = true
				st.note()
				emit(st)
			case rrEnd:
				var rep [4]bool
				for _, kv := range visited {
					if st.seen[kv[0]]&rrBit(kv[1]) == 0 {
						return
					}
					rep[kv[0]] = true
				}
				for k := 1; k <= 3; k++ {
					if !rep[k] && !stopped && st.seen[k]&1 == 0 {
						return
					}
				}
				for _, kv := range nestedVis {
					if st.seen[kv[0]]&rrBit(kv[1]) == 0 {
						return
					}
				}
				st.open, st.seen = false, [4]uint32{}
				emit(st)
			default:
				if st.m.apply(e.Op) == e.Res {
					st.note()
					emit(st)
				}
			}
		}, func(st rrState) bool { return st.m == fin })
		if !ok {
			return fmt.Errorf("Range reported %v (nested %v): no order of the concurrent calls explains it: %s final %v", visited, nestedVis, histString(ev), fin)
		}
		return nil
	}
}

func rrJobs(pre string, race bool, shards int, fam func(emit func(s *rrScenario) bool)) (r []Job) {
	for i := 0; i < shards; i++ {
		r = append(r, Job{Name: fmt.Sprintf("%s/%d", pre, i), Race: race, Conc: true, Run: func(c *Ctx) {
			n := 0
			fam(func(s *rrScenario) bool {
				n++
				if n%shards != i {
					return true
				}
				s.c = c
				return c.Conc(ConcSpec{Name: "rwmap.Range", Desc: s.desc, Prog: s.prog, Bound: s.bound, MaxSteps: intrSteps(s.intr)})
			})
			core.MapOrder = core.OrderAsc
		}})
	}
	return
}

func init() {
	mut := func(u int) []rwOp {
		return []rwOp{{Kind: rwStore, K: 1, A: u}, {Kind: rwLAD, K: 1}, {Kind: rwStore, K: 2, A: u}, {Kind: rwLAD, K: 2}, {Kind: rwStore, K: 3, A: u},
			{Kind: rwCAD, K: 2, A: 1}, {Kind: rwLOS, K: 1, A: u}, {Kind: rwCAS, K: 2, A: 1, B: u}, {Kind: rwClear}, {Kind: rwLoad, K: 3}, {Kind: rwLAD, K: 3}}
	}
	one := func(keys, depth int, bound int32) func(func(*rrScenario) bool) {
		return func(emit func(*rrScenario) bool) {
			for _, in := range rwInits(keys, depth, false) {
				for _, o := range mut(20) {
					for ord := 0; ord < 2; ord++ {
						if !emit(&rrScenario{init: in, threads: [][]rwOp{{o}}, order: ord, bound: bound}) {
							return
						}
					}
				}
			}
		}
	}
	two := func(keys, depth int, seq bool, bound int32) func(func(*rrScenario) bool) {
		return func(emit func(*rrScenario) bool) {
			for _, in := range rwInits(keys, depth, false) {
				for i, o := range mut(20) {
					for j, p := range mut(30) {
						if seq {
							q := p
							if q.A == 30 {
								q.A = 21
							}
							if q.B == 30 {
								q.B = 21
							}
							if !emit(&rrScenario{init: in, threads: [][]rwOp{{o, q}}, order: (i + j) % 2, bound: bound}) {
								return
							}
						} else if j >= i {
							if !emit(&rrScenario{init: in, threads: [][]rwOp{{o}, {p}}, order: (i + j) % 2, bound: bound}) {
								return
							}
						}
					}
				}
			}
		}
	}
	inner := func(keys, depth int, thr bool, bound int32) func(func(*rrScenario) bool) {
		return func(emit func(*rrScenario) bool) {
			for _, in := range rwInits(keys, depth, false) {
				for i, o := range append(mut(10), rwOp{Kind: rwRange}) {
					if o.Kind == rwRange {
						o = rwOp{Kind: rwLoad, K: 1}
					}
					for v := 0; v < 4; v++ {
						sc := rrScenario{init: in, inner: []rwOp{o}, nested: v&1 == 1, stop: v / 2 * 2, order: i % 2, bound: bound}
						if !thr {
							if !emit(&sc) {
								return
							}
							continue
						}
						for _, p := range mut(20) {
							s2 := sc
							s2.threads = [][]rwOp{{p}}
							if !emit(&s2) {
								return
							}
						}
					}
				}
				for st := 1; st <= 3; st++ {
					for ord := 0; ord < 2; ord++ {
						if !emit(&rrScenario{init: in, stop: st, order: ord, bound: bound}) {
							return
						}
					}
				}
			}
		}
	}
	register(&Check{ID: "C03", Bounds: "every schedule (preemption bound 2-4 quick, up to 6 thorough) of one Range with one mutating call, two mutating calls in one or two threads, and a mutating call inside the function (optionally with a nested Range and early stop), from every configuration reachable by 3-5 setup calls on 3 keys, in ascending and descending map order",
		Assume: []string{"map iteration order: ascending and descending key order are explored, not all permutations, in concurrent scenarios"},
		Jobs: func(t bool) (r []Job) {
			if !t {
				r = append(r, rrJobs("race", true, 8, one(3, 3, 1))...)
				r = append(r, rrJobs("race-inner", true, 8, inner(2, 2, false, 1))...)
				r = append(r, rrJobs("two", false, 32, two(3, 3, false, 3))...)
				r = append(r, rrJobs("seq", false, 32, two(3, 4, true, 3))...)
				r = append(r, rrJobs("inner-conc", false, 32, inner(3, 3, true, 2))...)
				r = append(r, rrJobs("one", false, 16, one(3, 5, 4))...)
				r = append(r, rrJobs("inner", false, 8, inner(3, 5, false, 0))...)
				return
			}
			r = append(r, rrJobs("race", true, 16, one(3, 4, 2))...)
			r = append(r, rrJobs("race-inner", true, 16, inner(3, 3, true, 1))...)
			r = append(r, rrJobs("race-two", true, 16, two(3, 2, false, 1))...)
			r = append(r, rrJobs("two", false, 64, two(3, 4, false, 3))...)
			r = append(r, rrJobs("seq", false, 64, two(3, 4, true, 4))...)
			r = append(r, rrJobs("inner-conc", false, 64, inner(3, 3, true, 3))...)
			r = append(r, rrJobs("one", false, 32, one(3, 6, 6))...)
			r = append(r, rrJobs("inner", false, 16, inner(3, 6, false, 0))...)
			return
		}})
}
