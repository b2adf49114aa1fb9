package main

import (
	"context"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- C10, C13, C14: concurrent histories

const (
	rcGet = iota
	rcRefresh
	rcClear   // no clear function
	rcClearFn // with a clear function
	rcSetR    // SetRefreshFunc
	rcSetC    // SetClearFunc
	rcAccess  // Raw, Last, ...
)

var rcOpNames = []string{"Get", "Refresh", "Clear", "Clear(fn)", "SetRefreshFunc", "SetClearFunc", "accessors"}

type rcOp int

func (o rcOp) String() string { return rcOpNames[o] }

type rcRun struct {
	thread     int
	start, end int64
	v, e       int  // produced value, error index
	panicked   bool // the function panicked
	old        int
	fn         int // which refresh function ran
	arg        int
	ctxThread  int
}

type rcRes struct {
	V, E     int
	Ran      int // index+1 of the run this call executed
	Nruns    int
	Panicked bool
	T0, T1   int64
	run      *rcRun
	clears   []int // old values seen by the clear function
	clearFn  int
}

func (r rcRes) String() string {
	s := fmt.Sprintf("%d,e%d", r.V, r.E)
	if r.Nruns > 0 {
		s += fmt.Sprintf(" (run %d)", r.Ran)
	}
	if r.Panicked {
		s += " panicked"
	}
	return s
}

func (r rcRes) sig() uint64 {
	h := mix(uint64(r.V), uint64(r.E))
	h = mix(h, uint64(r.Ran*8+r.Nruns))
	if r.Panicked {
		h++
	}
	for _, x := range r.clears {
		h = mix(h, uint64(x))
	}
	return mix(mix(h, uint64(r.T0)), uint64(r.T1)) + uint64(r.clearFn)
}

type rcState struct {
	data         int
	fresh, errOn bool
	at, errAt    int64
	err          int
}

type rcScenario struct {
	variant        int
	maxAge, errAge time.Duration
	init           string // setup: o success, e failure, c clear, a advance by 20
	script         string // outcome of the n-th run: o, e, p
	threads        [][]rcOp
	clock          int64
	bound          int32
	what           byte // '0' C10, '3' C13, '4' C14, 'c' crashes and races only
	c              *Ctx
	intr           *core.Intrusion
}

func (s *rcScenario) desc() []string {
	r := []string{fmt.Sprintf("%s maxAge %d errAge %d, setup %q, outcomes of the runs %q", rcVariants[s.variant], s.maxAge, s.errAge, s.init, s.script)}
	for i, t := range s.threads {
		r = append(r, fmt.Sprintf("T%d %v", i, t))
	}
	if s.clock > 0 {
		r = append(r, fmt.Sprintf("clock advances by %d", s.clock))
	}
	if s.intr != nil {
		r = append(r, intrDesc(s.intr))
	}
	return r
}

type rcCtxKey struct{}

func (s *rcScenario) prog(x *core.Exec) func() error {
	x.Intr = s.intr
	var runs []*rcRun
	inside := 0
	overlap := ""
	setup := true
	race := s.what == 'c'
	nthreads := len(s.threads)
	// run i of the execution (after setup) does what the script says
	mkFn := func(id int) rfn {
		return func(ctx context.Context, args ...int) (int, error) {
			if race {
				core.Point("refresh function")
				return 100, nil
			}
			n := len(runs)
			r := &rcRun{thread: core.RunningID(), start: core.Stamp(), fn: id, arg: -1, ctxThread: -1}
			if len(args) > 0 {
				r.arg = args[0]
			}
			if len(args) > 1 {
				r.arg = args[0]*1000 + args[1]
			}
			if t, ok := ctx.Value(rcCtxKey{}).(int); ok {
				r.ctxThread = t
			}
			runs = append(runs, r)
			inside++
			if inside > 1 {
				overlap = fmt.Sprintf("refresh function entered by thread %d while another execution is under way", r.thread)
			}
			core.Point("refresh function")
			inside--
			r.end = core.Stamp()
			k := byte('o')
			if n < len(s.script) {
				k = s.script[n]
			}
			if old, ok := ctx.Value(rcOldKey(s.variant)).(int); ok {
				r.old = old
			} else {
				r.old = -1
			}
			switch k {
			case 'e':
				r.e = n%8 + 1
				return 0, rcErrs[n%8]
			case 'p':
				r.panicked = true
				panic(rcPanic{})
			}
			r.v = 100 + n
			return r.v, nil
		}
	}
	var res *rcRes // setup only
	_ = res
	curRes := make([]*rcRes, nthreads+2)
	var y *rcx
	mkClear := func(id int) cfn {
		return func(ctx context.Context, args ...int) error {
			if race {
				core.Point("clear function")
				return nil
			}
			core.Point("clear function")
			t := core.RunningID()
			if t >= 0 && t < len(curRes) && curRes[t] != nil {
				old, ok := ctx.Value(rcOldKey(s.variant)).(int)
				if !ok {
					old = -1
				}
				curRes[t].clears = append(curRes[t].clears, old)
				curRes[t].clearFn = id
				if ct, ok := ctx.Value(rcCtxKey{}).(int); s.what == '4' && (!ok || ct != t) {
					overlap = "the clear function did not get its caller's context"
				}
			}
			return nil
		}
	}
	y = rcNew(s.variant, s.maxAge, s.errAge, mkFn(0), nil)
	hasClearFn := false
	for _, ops := range s.threads {
		for _, o := range ops {
			if o == rcClearFn {
				hasClearFn = true
			}
		}
	}
	if hasClearFn {
		y.setC(mkClear(1))
	}
	var st rcState
	for i, k := range []byte(s.init) {
		switch k {
		case 'o', 'e':
			y.setR(func(ctx context.Context, a ...int) (int, error) {
				if k == 'e' {
					return 0, rcErrs[7-i]
				}
				return 10 + i, nil
			})
			y.refresh(context.Background(), 0)
			if k == 'o' {
				st.data, st.fresh, st.at, st.errOn = 10+i, true, core.ClockNow(), false
			} else {
				st.fresh, st.errOn, st.err, st.errAt = false, true, 7-i+1, core.ClockNow()
			}
		case 'c':
			y.clear(context.Background(), 0)
			st.fresh = false
		case 'a':
			core.AdvanceQuiet(20)
		}
	}
	y.setR(mkFn(0))
	setup = false
	_ = setup
	h := NewHist[rcOp, rcRes](nthreads, 4)
	for i, ops := range s.threads {
		x.Spawn(fmt.Sprintf("T%d", i), func() {
			ctx := context.WithValue(context.Background(), rcCtxKey{}, i)
			for _, o := range ops {
				h.Call(i, o, func() (r rcRes) {
					r.T0 = core.ClockNow()
					if !race {
						curRes[i] = &r
					}
					r0 := len(runs)
					func() {
						defer func() {
							if p := recover(); p != nil {
								if _, ok := p.(rcPanic); !ok {
									panic(p)
								}
								r.Panicked = true
							}
						}()
						var v int
						var err error
						switch o {
						case rcGet:
							v, err = y.get(ctx, i+1)
						case rcRefresh:
							v, err = y.refresh(ctx, i+1)
						case rcClear, rcClearFn:
							err = y.clear(ctx, i+1)
						case rcSetR:
							y.setR(mkFn(i + 1))
						case rcSetC:
							y.setC(mkClear(i + 2))
						case rcAccess:
							y.raw()
							y.last()
							y.lastErr()
							y.lastTime()
							y.lastErrTime()
							y.maxAge()
							y.errAge()
							y.touch()
						}
						r.V, r.E = v, errIndex(err)
					}()
					if !race {
						for k := r0; k < len(runs); k++ {
							if runs[k].thread == i {
								r.Nruns++
								r.Ran, r.run = k+1, runs[k]
							}
						}
						curRes[i] = nil
					}
					r.T1 = core.ClockNow()
					return r
				})
			}
		})
	}
	if s.clock > 0 {
		x.Spawn("clock", func() { core.Advance(time.Duration(s.clock)) })
	}
	return func() error {
		if race {
			return nil
		}
		ev := h.All()
		sg := signature(ev)
		for _, r := range runs {
			sg = mix(mix(sg, uint64(r.old+2)), uint64(r.fn*64+r.thread))
		}
		if overlap != "" {
			return fmt.Errorf("%s: %s", overlap, histString(ev))
		}
		if s.c.Seen(sg) {
			return nil
		}
		if s.what == '4' {
			return s.judgeArgs(st, ev, runs)
		}
		// how often did the function run
		for i := range ev {
			e := &ev[i]
			if e.Op == rcRefresh && e.Res.Nruns != 1 {
				return fmt.Errorf("Refresh ran the function %d times: %s", e.Res.Nruns, histString(ev))
			}
			if e.Res.Nruns > 1 {
				return fmt.Errorf("%v ran the function %d times: %s", e.Op, e.Res.Nruns, histString(ev))
			}
			if e.Op > rcRefresh && e.Res.Nruns > 0 {
				return fmt.Errorf("%v ran the refresh function", e.Op)
			}
			if e.Res.Panicked && (e.Res.run == nil || !e.Res.run.panicked) {
				return fmt.Errorf("%v panicked although its function did not", e.Op)
			}
		}
		if s.what == '0' {
			// a Get that follows a completed refresh need not and must not run it again
			for n := 1; n < len(runs); n++ {
				p, r := runs[n-1], runs[n]
				byGet := false
				for i := range ev {
					if ev[i].Res.run == r && ev[i].Op == rcGet {
						byGet = true
					}
				}
				if !byGet || p.panicked {
					continue
				}
				if p.e == 0 && s.maxAge < 0 {
					return fmt.Errorf("Get of T%d ran the function although a refresh had just succeeded: %s", r.thread, histString(ev))
				}
				if p.e > 0 && s.errAge > 1000 {
					return fmt.Errorf("Get of T%d ran the function although its error was cached: %s", r.thread, histString(ev))
				}
			}
		}
		ok := Linearizable(st, ev, func(t rcState, e *Event[rcOp, rcRes], emit func(rcState)) { s.step(t, e, ev, emit) }, func(rcState) bool { return true })
		if !ok {
			return fmt.Errorf("no order of the calls explains: %s", histString(ev))
		}
		return nil
	}
}

var rcKeys [6]any

func rcOldKey(variant int) any {
	if rcKeys[variant] == nil {
		for v := range rcKeys {
			rcKeys[v] = rcNew(v, 0, 0, nil, nil).oldKey
		}
	}
	return rcKeys[variant]
}

func (s *rcScenario) step(st rcState, e *Event[rcOp, rcRes], all []Event[rcOp, rcRes], emit func(rcState)) {
	nows := []int64{e.Res.T0}
	if e.Res.T1 != e.Res.T0 {
		nows = append(nows, e.Res.T1)
	}
	fresh := func(now int64) bool {
		return st.fresh && (s.maxAge < 0 || now-st.at < int64(s.maxAge))
	}
	cached := func(now int64) bool {
		return st.errOn && s.errAge > 0 && now-st.errAt < int64(s.errAge)
	}
	r := e.Res
	publish := func() {
		for _, t := range nows {
			n := st
			switch {
			case r.run.panicked:
			case r.run.e > 0:
				n.fresh, n.errOn, n.err, n.errAt = false, true, r.run.e, t
			default:
				n.fresh, n.data, n.at, n.errOn = true, r.run.v, t, false
			}
			emit(n)
			if r.run.panicked {
				break
			}
		}
	}
	switch e.Op {
	case rcGet, rcRefresh:
		if r.Nruns > 0 {
			if !r.run.panicked && (r.E != r.run.e || r.E == 0 && r.V != r.run.v) {
				return
			}
			if e.Op == rcGet {
				may := false
				for _, t := range nows {
					if !fresh(t) && !cached(t) {
						may = true
					}
				}
				if !may {
					return
				}
			}
			publish()
			return
		}
		for _, t := range nows {
			if fresh(t) && r.E == 0 && r.V == st.data || !fresh(t) && cached(t) && r.E == st.err && r.V == 0 {
				emit(st)
				return
			}
		}
	case rcClear, rcClearFn:
		n := st
		n.fresh = false
		emit(n)
		if st.fresh {
			for i := range all {
				if all[i].Res.Nruns > 0 && all[i].Call < e.Ret && e.Call < all[i].Ret {
					emit(st)
					return
				}
			}
		}
	default:
		emit(st)
	}
}

// judgeArgs: what the functions were given.
func (s *rcScenario) judgeArgs(st rcState, ev []Event[rcOp, rcRes], runs []*rcRun) error {
	old := st.data
	for n, r := range runs {
		if r.ctxThread != r.thread {
			return fmt.Errorf("run %d was triggered by T%d but got the context of T%d", n+1, r.thread, r.ctxThread)
		}
		if v := s.variant % 3; v != 1 && r.arg != r.thread+1 {
			return fmt.Errorf("run %d was triggered with argument %d but got %d", n+1, r.thread+1, r.arg)
		}
		if r.old != old {
			return fmt.Errorf("run %d got the old value %d, the last successfully refreshed value is %d", n+1, r.old, old)
		}
		if !r.panicked && r.e == 0 {
			old = r.v
		}
	}
	for i := range ev {
		e := &ev[i]
		if e.Op == rcClearFn || e.Op == rcClear {
			want := 0
			if e.Op == rcClearFn {
				want = 1
			}
			if len(e.Res.clears) != want {
				return fmt.Errorf("%v ran the clear function %d times", e.Op, len(e.Res.clears))
			}
			for _, o := range e.Res.clears {
				// the value of the last success at some instant of the call
				cands := []int{st.data}
				for _, r := range runs {
					if r.panicked || r.e > 0 {
						continue
					}
					if r.start > e.Ret {
						break
					}
					done := false // completed before the Clear began
					for j := range ev {
						if ev[j].Res.run == r && ev[j].Ret < e.Call {
							done = true
						}
					}
					if done {
						cands = cands[:0]
					}
					cands = append(cands, r.v)
				}
				if !contains(cands, o) {
					return fmt.Errorf("the clear function got the old value %d, it should be one of %v: %s", o, cands, histString(ev))
				}
			}
		}
		// the function most recently set
		if r := e.Res.run; r != nil {
			var may []int
			may = append(may, 0)
			for j := range ev {
				f := &ev[j]
				if f.Op != rcSetR || f.Call > e.Ret {
					continue
				}
				if f.Ret < e.Call {
					// set before: only functions set later or concurrently remain
					keep := may[:0]
					for _, id := range may {
						if id != 0 && s.setAfter(ev, id, f.Ret) {
							keep = append(keep, id)
						}
					}
					may = keep
				}
				may = append(may, f.Thread+1)
			}
			if !contains(may, r.fn) {
				return fmt.Errorf("%v used refresh function %d, the ones set at the time are %v: %s", e.Op, r.fn, may, histString(ev))
			}
		}
		if len(e.Res.clears) > 0 {
			may := []int{1}
			for j := range ev {
				f := &ev[j]
				if f.Op != rcSetC || f.Call > e.Ret {
					continue
				}
				if f.Ret < e.Call {
					may = may[:0]
				}
				may = append(may, f.Thread+2)
			}
			if !contains(may, e.Res.clearFn) {
				return fmt.Errorf("Clear used clear function %d, the ones set at the time are %v: %s", e.Res.clearFn, may, histString(ev))
			}
		}
	}
	return nil
}

// setAfter: some SetRefreshFunc of thread id-1 returned after t.
func (s *rcScenario) setAfter(ev []Event[rcOp, rcRes], id int, t int64) bool {
	for i := range ev {
		if ev[i].Op == rcSetR && ev[i].Thread+1 == id && ev[i].Ret > t {
			return true
		}
	}
	return false
}

type rcConf struct {
	maxAge, errAge time.Duration
	inits          []string
	clock          int64
}

var rcConfs = []rcConf{
	{-1, 0, []string{"", "o", "oc", "e", "oe"}, 0},
	{-1, math.MaxInt64, []string{"", "o", "e", "oe", "eo", "oec"}, 0},
	{10, 15, []string{"oa", "ea", "e", "o", "oe", "eo"}, 0},
	{10, 5, []string{"o", "e", "oe"}, 20},
	{0, 0, []string{"", "o"}, 0},
}

func rcScripts(n int, alpha string) []string {
	if n == 0 {
		return []string{""}
	}
	var r []string
	for _, p := range rcScripts(n-1, alpha) {
		for _, a := range alpha {
			r = append(r, p+string(a))
		}
	}
	return r
}

// rcFam enumerates scenarios. shape: number of calls per thread.
func rcFam(what byte, variants []int, confs []rcConf, alpha []rcOp, shape []int, outs string, maxRuns int, bound int32) func(emit func(s *rcScenario) bool) {
	return func(emit func(s *rcScenario) bool) {
		var progs [][][]rcOp
		var gen func(i, j int, ths [][]rcOp)
		gen = func(i, j int, ths [][]rcOp) {
			if i == len(shape) {
				q := make([][]rcOp, len(ths))
				for k := range ths {
					q[k] = append([]rcOp{}, ths[k]...)
				}
				progs = append(progs, q)
				return
			}
			if j == shape[i] {
				if i > 0 && shape[i] == shape[i-1] {
					for k := range ths[i] {
						if ths[i][k] != ths[i-1][k] {
							if ths[i][k] < ths[i-1][k] {
								return
							}
							break
						}
					}
				}
				gen(i+1, 0, ths)
				return
			}
			if j == 0 {
				ths = append(ths, nil)
			}
			for _, o := range alpha {
				ths[i] = append(ths[i][:j:j], o)
				gen(i, j+1, ths)
			}
		}
		gen(0, 0, nil)
		for _, v := range variants {
			for _, cf := range confs {
				for _, in := range cf.inits {
					for _, p := range progs {
						runs, writes, plain, fn := 0, 0, false, false
						for _, t := range p {
							for _, o := range t {
								if o == rcGet || o == rcRefresh {
									runs++
								}
								if o != rcGet && o != rcAccess {
									writes++
								}
								plain = plain || o == rcClear
								fn = fn || o == rcClearFn
							}
						}
						if plain && fn || runs == 0 {
							continue
						}
						if runs > maxRuns {
							runs = maxRuns
						}
						for _, sc := range rcScripts(runs, outs) {
							if what == '0' && writes == 0 && strings.Count(sc, "o") == 0 && cf.errAge == 0 && false {
								continue
							}
							if !emit(&rcScenario{variant: v, maxAge: cf.maxAge, errAge: cf.errAge, init: in, script: sc, threads: p, clock: cf.clock, bound: bound, what: what}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func rcJobs(name string, race bool, shards int, fam func(emit func(s *rcScenario) bool)) []Job {
	var r []Job
	for i := 0; i < shards; i++ {
		r = append(r, Job{Name: fmt.Sprintf("%s/%d", name, i), Race: race, Conc: true, Run: func(c *Ctx) {
			rcOldKey(0)
			n := 0
			fam(func(s *rcScenario) bool {
				n++
				if n%shards != i {
					return true
				}
				s.c = c
				return c.Conc(ConcSpec{Name: "refreshcache", Desc: s.desc, Prog: s.prog, Bound: s.bound, MaxSteps: intrSteps(s.intr)})
			})
		}})
	}
	return r
}

var allVariants = []int{0, 1, 2, 3, 4, 5}
var mainVariants = []int{0, 1, 2}

func init() {
	as := []string{"Go's sequentially consistent atomics; scheduling points at synchronisation operations, clock readings and inside the refresh and clear functions; unsynchronised accesses are C05's subject",
		"2-3 goroutines, 1-2 calls each, preemption bound as stated"}
	gr := []rcOp{rcGet, rcRefresh}
	grc := []rcOp{rcGet, rcRefresh, rcClear, rcClearFn}
	register(&Check{ID: "C10", Bounds: "all schedules (preemption-bounded) of 2-3 goroutines calling Get and Refresh, 1-2 calls each, from 14 states of the cache (empty, fresh, cleared, stale, failed, failure expired), every combination of succeeding, failing and panicking refresh functions; three packages, through RefreshCache and RefreshData",
		Assume: as, Jobs: func(t bool) (r []Job) {
			r = append(r, raceRC(t)...)
			if !t {
				r = append(r, rcJobs("pairs", false, 16, rcFam('0', allVariants, rcConfs, gr, []int{1, 1}, "oep", 2, 8))...)
				r = append(r, rcJobs("triples", false, 16, rcFam('0', mainVariants, rcConfs, gr, []int{1, 1, 1}, "oe", 2, 2))...)
				return append(r, rcJobs("2x1", false, 16, rcFam('0', mainVariants, rcConfs, gr, []int{2, 1}, "oe", 3, 3))...)
			}
			r = append(r, rcJobs("pairs", false, 16, rcFam('0', allVariants, rcConfs, gr, []int{1, 1}, "oep", 2, 100))...)
			r = append(r, rcJobs("triples", false, 32, rcFam('0', allVariants, rcConfs, gr, []int{1, 1, 1}, "oep", 3, 3))...)
			r = append(r, rcJobs("2x1", false, 32, rcFam('0', allVariants, rcConfs, gr, []int{2, 1}, "oep", 3, 5))...)
			return append(r, rcJobs("2x2", false, 32, rcFam('0', allVariants, rcConfs, gr, []int{2, 2}, "oe", 4, 3))...)
		}})
	register(&Check{ID: "C13", Bounds: "as C10 with Clear (with and without a clear function) and a clock that may move during the calls, and one call disturbed by 12 calls of another goroutine at every regular spacing up to 8 (16) steps; brute-force linearizability of every history",
		Assume: as, Jobs: func(t bool) (r []Job) {
			r = append(r, raceRC(t)...)
			if !t {
				r = append(r, rcJobs("pairs", false, 16, rcFam('3', allVariants, rcConfs, grc, []int{1, 1}, "oep", 2, 8))...)
				r = append(r, rcJobs("triples", false, 16, rcFam('3', mainVariants, rcConfs, grc, []int{1, 1, 1}, "oe", 2, 2))...)
				r = append(r, rcJobs("2x1", false, 16, rcFam('3', mainVariants, rcConfs, grc, []int{2, 1}, "oe", 2, 2))...)
				return append(r, rcJobs("2x2", false, 16, rcFam('3', mainVariants, rcConfs, gr, []int{2, 2}, "oe", 3, 2))...)
			}
			r = append(r, rcJobs("pairs", false, 16, rcFam('3', allVariants, rcConfs, grc, []int{1, 1}, "oep", 2, 100))...)
			r = append(r, rcJobs("triples", false, 32, rcFam('3', allVariants, rcConfs, grc, []int{1, 1, 1}, "oep", 3, 3))...)
			r = append(r, rcJobs("2x1", false, 32, rcFam('3', allVariants, rcConfs, grc, []int{2, 1}, "oep", 3, 4))...)
			return append(r, rcJobs("2x2", false, 64, rcFam('3', allVariants, rcConfs, grc, []int{2, 2}, "oe", 4, 2))...)
		}})
}
