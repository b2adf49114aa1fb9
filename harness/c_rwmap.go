package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- operations

const (
	rwLoad = iota
	rwStore
	rwLOS
	rwLAD
	rwDel
	rwSwap
	rwCAS
	rwCAD
	rwClear
	rwRange
	rwSlowLen
	rwLen
)

var rwKind = []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Clear", "Range", "SlowLen", "Len"}

type rwOp struct{ Kind, K, A, B int }

func (o rwOp) String() string {
	switch o.Kind {
	case rwLoad, rwLAD, rwDel:
		return fmt.Sprintf("%s(%d)", rwKind[o.Kind], o.K)
	case rwCAS:
		return fmt.Sprintf("%s(%d,%d->%d)", rwKind[o.Kind], o.K, o.A, o.B)
	case rwClear, rwRange, rwSlowLen, rwLen:
		return rwKind[o.Kind] + "()"
	}
	return fmt.Sprintf("%s(%d,%d)", rwKind[o.Kind], o.K, o.A)
}

type rwRes struct {
	V  int
	OK bool
}

func (r rwRes) sig() uint64 {
	if r.OK {
		return uint64(r.V)*2 + 1
	}
	return uint64(r.V) * 2
}

func (s rwState) sig() (h uint64) {
	for _, v := range s {
		h = mix(h, uint64(v))
	}
	return
}

type rwMap = rwmap.RWMap[int, int]

func rwDo(m *rwMap, o rwOp) (r rwRes) {
	switch o.Kind {
	case rwLoad:
		r.V, r.OK = m.Load(o.K)
	case rwStore:
		m.Store(o.K, o.A)
	case rwLOS:
		r.V, r.OK = m.LoadOrStore(o.K, o.A)
	case rwLAD:
		r.V, r.OK = m.LoadAndDelete(o.K)
	case rwDel:
		m.Delete(o.K)
	case rwSwap:
		r.V, r.OK = m.Swap(o.K, o.A)
	case rwCAS:
		r.OK = m.CompareAndSwap(o.K, o.A, o.B)
	case rwCAD:
		r.OK = m.CompareAndDelete(o.K, o.A)
	case rwClear:
		m.Clear()
	case rwRange:
		m.Range(func(k, v int) bool { r.V += k * v; return true })
	case rwSlowLen:
		r.V = int(m.SlowLen())
	case rwLen:
		r.V = int(m.Len())
	}
	return
}

// rwState is the model: value per key, 0 is absent (no stored value is 0).
type rwState [5]int

func (s *rwState) apply(o rwOp) (r rwRes) {
	v := s[o.K]
	switch o.Kind {
	case rwLoad:
		return rwRes{v, v != 0}
	case rwStore:
		s[o.K] = o.A
	case rwLOS:
		if v != 0 {
			return rwRes{v, true}
		}
		s[o.K] = o.A
		return rwRes{o.A, false}
	case rwLAD:
		s[o.K] = 0
		return rwRes{v, v != 0}
	case rwDel:
		s[o.K] = 0
	case rwSwap:
		s[o.K] = o.A
		return rwRes{v, v != 0}
	case rwCAS:
		if v != 0 && v == o.A {
			s[o.K] = o.B
			return rwRes{0, true}
		}
	case rwCAD:
		if v != 0 && v == o.A {
			s[o.K] = 0
			return rwRes{0, true}
		}
	case rwClear:
		*s = rwState{}
	case rwRange:
		t := 0
		for k, v := range s {
			t += k * v
		}
		return rwRes{t, false}
	case rwSlowLen, rwLen:
		return rwRes{s.count(), false}
	}
	return
}

func (s *rwState) count() int {
	n := 0
	for _, v := range s {
		if v != 0 {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- initial configurations

type rwInit struct {
	hist  []rwOp
	state rwState
}

// rwInits enumerates the distinct internal configurations reachable by up to depth setup operations.
func rwInits(keys, depth int, rich bool) []rwInit {
	var ops []rwOp
	for k := 1; k <= keys; k++ {
		ops = append(ops, rwOp{Kind: rwStore, K: k, A: 1}, rwOp{Kind: rwLoad, K: k}, rwOp{Kind: rwDel, K: k})
	}
	ops = append(ops, rwOp{Kind: rwRange}, rwOp{Kind: rwClear})
	fp := NewFP()
	seen := map[Digest]bool{}
	res := []rwInit{}
	level := []rwInit{{}}
	for d := 0; d <= depth; d++ {
		var next []rwInit
		for _, in := range level {
			core.ResetGlobals()
			m, st := &rwMap{}, rwState{}
			bad := false
			if safely(func() error {
				for _, o := range in.hist {
					rwDo(m, o)
				}
				return nil
			}) != nil {
				bad = true
			}
			for _, o := range in.hist {
				st.apply(o)
			}
			if bad {
				continue
			}
			fp.Reset()
			fp.Root(m)
			dg := fp.Sum()
			if seen[dg] {
				continue
			}
			seen[dg] = true
			in.state = st
			res = append(res, in)
			for _, o := range ops {
				h := append(append([]rwOp{}, in.hist...), o)
				next = append(next, rwInit{hist: h})
			}
		}
		level = next
	}
	return res
}

// ---------------------------------------------------------------- concurrent scenarios

type rwScenario struct {
	init    rwInit
	threads [][]rwOp
	bound   int32
	c       *Ctx
	what    byte // 'l' linearizability, 'n' Len, 'c' only races, deadlocks and panics
	intr    *core.Intrusion
}

func (s *rwScenario) desc() []string {
	r := []string{fmt.Sprintf("setup %v", s.init.hist)}
	for i, t := range s.threads {
		r = append(r, fmt.Sprintf("T%d %v", i, t))
	}
	if s.intr != nil {
		r = append(r, intrDesc(s.intr))
	}
	return r
}

func (s *rwScenario) prog(x *core.Exec) func() error {
	x.Intr = s.intr
	m := &rwMap{}
	for _, o := range s.init.hist {
		rwDo(m, o)
	}
	h := NewHist[rwOp, rwRes](len(s.threads), 4)
	for i, ops := range s.threads {
		x.Spawn(fmt.Sprintf("T%d", i), func() {
			for _, o := range ops {
				h.Call(i, o, func() rwRes { return rwDo(m, o) })
			}
		})
	}
	return func() error {
		if s.what == 'c' {
			return nil
		}
		var fin rwState
		for k := 1; k <= 3; k++ {
			if v, ok := m.Load(k); ok {
				fin[k] = v
				if v == 0 {
					return fmt.Errorf("Load(%d) reports a zero value that was never stored", k)
				}
			}
		}
		if s.what == 'n' {
			if s.intr == nil {
				s.c.Seen(mix(signature(h.All()), fin.sig()))
			}
			n := fin.count()
			if l := int(m.Len()); l != n {
				return fmt.Errorf("after all calls returned Len() = %d, but %d keys are present %v", l, n, fin)
			}
			if l := int(m.SlowLen()); l != n {
				return fmt.Errorf("after all calls returned SlowLen() = %d, but %d keys are present", l, n)
			}
			r := 0
			m.Range(func(int, int) bool { r++; return true })
			if r != n {
				return fmt.Errorf("Range visits %d keys, but %d keys are present", r, n)
			}
			if l := int(m.Len()); l != n {
				return fmt.Errorf("Len() = %d, but %d keys are present", l, n)
			}
			return nil
		}
		ev := h.All()
		if s.intr == nil && s.c.Seen(mix(signature(ev), fin.sig())) {
			return nil
		}
		ok := Linearizable(s.init.state, ev, func(st rwState, e *Event[rwOp, rwRes], emit func(rwState)) {
			if st.apply(e.Op) == e.Res {
				emit(st)
			}
		}, func(st rwState) bool { return st == fin })
		if !ok {
			return fmt.Errorf("not linearizable: %s final %v", histString(ev), fin)
		}
		// the results must also agree with what the map reports afterwards through Range
		got := rwState{}
		var dup error
		m.Range(func(k, v int) bool {
			if k < 1 || k > 4 || got[k] != 0 {
				dup = fmt.Errorf("Range visits key %d twice or out of nowhere", k)
				return false
			}
			got[k] = v
			return true
		})
		if dup != nil {
			return dup
		}
		if got != fin {
			return fmt.Errorf("Range shows %v where Load shows %v", got, fin)
		}
		return nil
	}
}

func histString[O, R any](ev []Event[O, R]) string {
	type pt struct {
		at int64
		s  string
	}
	var ps []pt
	for _, e := range ev {
		ps = append(ps, pt{e.Call, fmt.Sprintf("[T%d call %v]", e.Thread, e.Op)}, pt{e.Ret, fmt.Sprintf("[T%d returns %v]", e.Thread, e.Res)})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].at < ps[j].at })
	s := ""
	for _, p := range ps {
		s += p.s
	}
	return s
}

// rwAlpha is the menu of operations a thread may issue; u is the value this thread writes.
func rwAlpha(u int, full bool) []rwOp {
	a := []rwOp{
		{Kind: rwLoad, K: 1}, {Kind: rwStore, K: 1, A: u}, {Kind: rwLOS, K: 1, A: u}, {Kind: rwLAD, K: 1},
		{Kind: rwSwap, K: 1, A: u}, {Kind: rwCAS, K: 1, A: 1, B: u}, {Kind: rwCAD, K: 1, A: 1}, {Kind: rwClear},
		{Kind: rwStore, K: 2, A: u}, {Kind: rwLoad, K: 2}, {Kind: rwLAD, K: 2},
	}
	if full {
		a = append(a, rwOp{Kind: rwStore, K: 1, A: 1}, rwOp{Kind: rwDel, K: 1}, rwOp{Kind: rwStore, K: 3, A: u},
			rwOp{Kind: rwLoad, K: 3}, rwOp{Kind: rwLOS, K: 2, A: u}, rwOp{Kind: rwCAS, K: 1, A: 10, B: u},
			rwOp{Kind: rwCAD, K: 1, A: 10}, rwOp{Kind: rwCAS, K: 2, A: 1, B: u}, rwOp{Kind: rwRange})
	}
	return a
}

func noRange(a []rwOp) []rwOp {
	var r []rwOp
	for _, o := range a {
		if o.Kind != rwRange {
			r = append(r, o)
		}
	}
	return r
}

func writes(ops []rwOp) bool {
	for _, o := range ops {
		if o.Kind != rwLoad && o.Kind != rwRange {
			return true
		}
	}
	return false
}

// rwShard explores its share of the scenario family.
func rwShard(shard, shards int, fam func(emit func(s *rwScenario) bool)) func(c *Ctx) {
	return func(c *Ctx) {
		n := 0
		fam(func(s *rwScenario) bool {
			n++
			if n%shards != shard {
				return true
			}
			s.c = c
			return c.Conc(ConcSpec{Name: "rwmap", Desc: s.desc, Prog: s.prog, Bound: s.bound, MaxSteps: intrSteps(s.intr)})
		})
	}
}

// families of scenarios
func rwPairs(what byte, keys, depth int, full bool, bound int32) func(emit func(s *rwScenario) bool) {
	return func(emit func(s *rwScenario) bool) {
		a, b := rwAlpha(10, full), rwAlpha(20, full)
		if what == 'l' {
			a, b = noRange(a), noRange(b)
		}
		for _, in := range rwInits(keys, depth, false) {
			for i, x := range a {
				for j, y := range b {
					if j < i || (!writes([]rwOp{x}) && !writes([]rwOp{y})) {
						continue
					}
					if !emit(&rwScenario{in, [][]rwOp{{x}, {y}}, bound, nil, what, nil}) {
						return
					}
				}
			}
		}
	}
}

func rwTriples(what byte, keys, depth int, full bool, bound int32) func(emit func(s *rwScenario) bool) {
	return func(emit func(s *rwScenario) bool) {
		a, b, d := rwAlpha(10, full), rwAlpha(20, full), rwAlpha(30, full)
		if what == 'l' {
			a, b, d = noRange(a), noRange(b), noRange(d)
		}
		for _, in := range rwInits(keys, depth, false) {
			for i, x := range a {
				for j := i; j < len(b); j++ {
					for k := j; k < len(d); k++ {
						if !writes([]rwOp{x, b[j]}) && !writes([]rwOp{b[j], d[k]}) {
							continue
						}
						if !emit(&rwScenario{in, [][]rwOp{{x}, {b[j]}, {d[k]}}, bound, nil, what, nil}) {
							return
						}
					}
				}
			}
		}
	}
}

// rwSeqs: two threads, the first with two operations, the second with n2.
func rwSeqs(what byte, keys, depth int, full bool, n2 int, bound int32) func(emit func(s *rwScenario) bool) {
	return func(emit func(s *rwScenario) bool) {
		a, a2, b, b2 := rwAlpha(10, full), rwAlpha(11, full), rwAlpha(20, full), rwAlpha(21, full)
		if what == 'l' {
			a, a2, b, b2 = noRange(a), noRange(a2), noRange(b), noRange(b2)
		}
		for _, in := range rwInits(keys, depth, false) {
			for i, x := range a {
				for i2, x2 := range a2 {
					for j, y := range b {
						if n2 == 1 {
							if !writes([]rwOp{x, x2, y}) {
								continue
							}
							if !emit(&rwScenario{in, [][]rwOp{{x, x2}, {y}}, bound, nil, what, nil}) {
								return
							}
							continue
						}
						for j2, y2 := range b2 {
							if i*100+i2 > j*100+j2 || !writes([]rwOp{x, x2, y, y2}) {
								continue
							}
							if !emit(&rwScenario{in, [][]rwOp{{x, x2}, {y, y2}}, bound, nil, what, nil}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func rwJobs(pre string, what byte, race bool, shards int, fam func(emit func(s *rwScenario) bool)) []Job {
	var r []Job
	for i := 0; i < shards; i++ {
		r = append(r, Job{Name: fmt.Sprintf("%s/%d", pre, i), Race: race, Conc: true, Run: rwShard(i, shards, fam)})
	}
	return r
}

func rwConcJobs(what byte, t bool) (r []Job) {
	if !t {
		r = append(r, rwJobs("race-pairs", what, true, 8, rwPairs(what, 2, 3, false, 1))...)
		r = append(r, rwJobs("race-full", what, true, 8, rwPairs(what, 3, 2, true, 1))...)
		r = append(r, rwJobs("seq2x2", what, false, 32, rwSeqs(what, 2, 2, false, 2, 2))...)
		r = append(r, rwJobs("seq2x1", what, false, 32, rwSeqs(what, 2, 3, false, 1, 3))...)
		r = append(r, rwJobs("pairs", what, false, 16, rwPairs(what, 3, 5, true, 4))...)
		r = append(r, rwJobs("triples", what, false, 32, rwTriples(what, 2, 3, false, 3))...)
		return
	}
	r = append(r, rwJobs("race-pairs", what, true, 16, rwPairs(what, 3, 4, true, 2))...)
	r = append(r, rwJobs("race-triples", what, true, 16, rwTriples(what, 2, 2, false, 1))...)
	r = append(r, rwJobs("pairs", what, false, 32, rwPairs(what, 3, 5, true, 8))...)
	r = append(r, rwJobs("triples", what, false, 64, rwTriples(what, 2, 4, false, 3))...)
	r = append(r, rwJobs("triples-full", what, false, 64, rwTriples(what, 3, 2, true, 2))...)
	r = append(r, rwJobs("seq2x1", what, false, 64, rwSeqs(what, 3, 4, true, 1, 3))...)
	r = append(r, rwJobs("seq2x2", what, false, 128, rwSeqs(what, 2, 3, false, 2, 2))...)
	return
}

func init() {
	as := []string{"Go's sequentially consistent atomics; scheduling points at synchronisation operations, unsynchronised accesses caught by the race-detector runs",
		"2-3 goroutines, 1-2 calls each, up to 3 keys, preemption bound as stated"}
	register(&Check{ID: "C01", Bounds: "all schedules (preemption-bounded) of 2 threads x 1-2 calls and 3 threads x 1 call from every internal configuration reachable by up to 2-5 setup calls on 2-3 keys; brute-force linearizability of every history; one call disturbed by 12 to 300 calls of another goroutine at every regular spacing up to 12 (16) steps; the conditional methods on every pair of values of 12 types",
		Assume: as, Jobs: func(t bool) []Job { return append(rwConcJobs('l', t), rwValuesJob()) }})
	register(&Check{ID: "C02", Bounds: "as C01, checking Len = SlowLen = number of present keys after every schedule, and after every single-threaded history",
		Assume: as, Jobs: func(t bool) []Job {
			r := rwConcJobs('n', t)
			r = append(r, Job{Name: "sequential", Run: func(c *Ctx) { c.BFS(rwSeqSpec(pick(t, 3, 4), 2, 1000, 400000, t)) }})
			return r
		}})
}

func pick(t bool, a, b int) int {
	if t {
		return b
	}
	return a
}

var _ = reflect.DeepEqual
