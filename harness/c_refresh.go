package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- one interface to the three packages

type rfn func(ctx context.Context, args ...int) (int, error)
type cfn func(ctx context.Context, args ...int) error

// rcx is one cache of one of the packages, used through its RefreshCache or directly as RefreshData.
type rcx struct {
	get, refresh          func(ctx context.Context, args ...int) (int, error)
	clear                 func(ctx context.Context, args ...int) error
	raw                   func() (int, error)
	last, lastErr         func() int64
	lastTime, lastErrTime func() time.Time
	maxAge, errAge        func() int64
	setR                  func(rfn)
	setC                  func(cfn) // nil unsets
	touch                 func()    // reads the configured functions
	oldKey                any
	nargs                 int // how many arguments the package passes on (-1: any)
	root                  any
}

var rcVariants = []string{"refreshcache", "refreshcache0", "refreshcache1", "refreshcache.Data", "refreshcache0.Data", "refreshcache1.Data"}

func rcNew(variant int, maxAge, errAge time.Duration, r rfn, c cfn) *rcx {
	x := &rcx{}
	cr, cc := r, c
	if variant >= 3 {
		x.setR = func(f rfn) { cr = f }
		x.setC = func(f cfn) { cc = f }
		x.touch = func() {}
	}
	switch variant {
	case 0, 3:
		x.oldKey, x.nargs = refreshcache.OldValKey, -1
		w := func(f rfn) refreshcache.RefreshFunc[int, int] {
			return func(ctx context.Context, a ...int) (int, error) { return f(ctx, a...) }
		}
		wc := func(f cfn) refreshcache.ClearFunc[int, int] {
			if f == nil {
				return nil
			}
			return func(ctx context.Context, a ...int) error { return f(ctx, a...) }
		}
		var opts []refreshcache.RefreshDataOption[int, int]
		if errAge != 0 {
			opts = append(opts, refreshcache.WithErrAge[int, int](errAge))
		}
		var d *refreshcache.RefreshData[int, int]
		if variant == 0 {
			k := refreshcache.NewRefreshCache[int, int](w(r), maxAge, opts...)
			if c != nil {
				k.SetClearFunc(wc(c))
			}
			d = k.Data()
			x.root = k
			x.get, x.refresh, x.clear = k.Get, k.Refresh, k.Clear
			x.setR = func(f rfn) { k.SetRefreshFunc(w(f)) }
			x.setC = func(f cfn) { k.SetClearFunc(wc(f)) }
			x.touch = func() { k.GetRefreshFunc(); k.GetClearFunc() }
		} else {
			d = refreshcache.NewRefreshData[int, int](maxAge, opts...)
			x.root = d
			x.get = func(ctx context.Context, a ...int) (int, error) { return d.Get(ctx, w(cr), a...) }
			x.refresh = func(ctx context.Context, a ...int) (int, error) { return d.Refresh(ctx, w(cr), a...) }
			x.clear = func(ctx context.Context, a ...int) error { return d.Clear(ctx, wc(cc), a...) }
		}
		x.raw, x.last, x.lastErr, x.lastTime, x.lastErrTime, x.maxAge, x.errAge = d.Raw, d.Last, d.LastErr, d.LastTime, d.LastErrTime, d.MaxAge, d.MaxErrAge
	case 1, 4:
		x.oldKey, x.nargs = refreshcache0.OldValKey, 0
		w := func(f rfn) refreshcache0.RefreshFunc[int] {
			return func(ctx context.Context) (int, error) { return f(ctx) }
		}
		wc := func(f cfn) refreshcache0.ClearFunc[int] {
			if f == nil {
				return nil
			}
			return func(ctx context.Context) error { return f(ctx) }
		}
		var opts []refreshcache0.RefreshDataOption[int]
		if errAge != 0 {
			opts = append(opts, refreshcache0.WithErrAge[int](errAge))
		}
		var d *refreshcache0.RefreshData[int]
		if variant == 1 {
			k := refreshcache0.NewRefreshCache[int](w(r), maxAge, opts...)
			if c != nil {
				k.SetClearFunc(wc(c))
			}
			d = k.Data()
			x.root = k
			x.get = func(ctx context.Context, a ...int) (int, error) { return k.Get(ctx) }
			x.refresh = func(ctx context.Context, a ...int) (int, error) { return k.Refresh(ctx) }
			x.clear = func(ctx context.Context, a ...int) error { return k.Clear(ctx) }
			x.setR = func(f rfn) { k.SetRefreshFunc(w(f)) }
			x.setC = func(f cfn) { k.SetClearFunc(wc(f)) }
			x.touch = func() { k.GetRefreshFunc(); k.GetClearFunc() }
		} else {
			d = refreshcache0.NewRefreshData[int](maxAge, opts...)
			x.root = d
			x.get = func(ctx context.Context, a ...int) (int, error) { return d.Get(ctx, w(cr)) }
			x.refresh = func(ctx context.Context, a ...int) (int, error) { return d.Refresh(ctx, w(cr)) }
			x.clear = func(ctx context.Context, a ...int) error { return d.Clear(ctx, wc(cc)) }
		}
		x.raw, x.last, x.lastErr, x.lastTime, x.lastErrTime, x.maxAge, x.errAge = d.Raw, d.Last, d.LastErr, d.LastTime, d.LastErrTime, d.MaxAge, d.MaxErrAge
	case 2, 5:
		x.oldKey, x.nargs = refreshcache1.OldValKey, 1
		w := func(f rfn) refreshcache1.RefreshFunc[int, int] {
			return func(ctx context.Context, a int) (int, error) { return f(ctx, a) }
		}
		wc := func(f cfn) refreshcache1.ClearFunc[int, int] {
			if f == nil {
				return nil
			}
			return func(ctx context.Context, a int) error { return f(ctx, a) }
		}
		var opts []refreshcache1.RefreshDataOption[int, int]
		if errAge != 0 {
			opts = append(opts, refreshcache1.WithErrAge[int, int](errAge))
		}
		first := func(a []int) int {
			if len(a) == 0 {
				return 0
			}
			return a[0]
		}
		var d *refreshcache1.RefreshData[int, int]
		if variant == 2 {
			k := refreshcache1.NewRefreshCache[int, int](w(r), maxAge, opts...)
			if c != nil {
				k.SetClearFunc(wc(c))
			}
			d = k.Data()
			x.root = k
			x.get = func(ctx context.Context, a ...int) (int, error) { return k.Get(ctx, first(a)) }
			x.refresh = func(ctx context.Context, a ...int) (int, error) { return k.Refresh(ctx, first(a)) }
			x.clear = func(ctx context.Context, a ...int) error { return k.Clear(ctx, first(a)) }
			x.setR = func(f rfn) { k.SetRefreshFunc(w(f)) }
			x.setC = func(f cfn) { k.SetClearFunc(wc(f)) }
			x.touch = func() { k.GetRefreshFunc(); k.GetClearFunc() }
		} else {
			d = refreshcache1.NewRefreshData[int, int](maxAge, opts...)
			x.root = d
			x.get = func(ctx context.Context, a ...int) (int, error) { return d.Get(ctx, w(cr), first(a)) }
			x.refresh = func(ctx context.Context, a ...int) (int, error) { return d.Refresh(ctx, w(cr), first(a)) }
			x.clear = func(ctx context.Context, a ...int) error { return d.Clear(ctx, wc(cc), first(a)) }
		}
		x.raw, x.last, x.lastErr, x.lastTime, x.lastErrTime, x.maxAge, x.errAge = d.Raw, d.Last, d.LastErr, d.LastTime, d.LastErrTime, d.MaxAge, d.MaxErrAge
	}
	return x
}

var rcErrs = []error{errors.New("e0"), errors.New("e1"), errors.New("e2"), errors.New("e3"), errors.New("e4"), errors.New("e5"), errors.New("e6"), errors.New("e7")}

func errIndex(e error) int {
	for i, x := range rcErrs {
		if e == x {
			return i + 1
		}
	}
	if e == nil {
		return 0
	}
	return -1
}

type rcPanic struct{}

// ---------------------------------------------------------------- C11, C12: single-threaded histories

type rcSeqOp struct {
	kind string // Get, Refresh, Clear, Advance
	out  string // ok, err, both (an error together with a value), panic, exit: what the function does if it runs
	d    int64  // Advance: the step; otherwise how long the function takes
}

func (o rcSeqOp) String() string {
	switch o.kind {
	case "Advance":
		return fmt.Sprintf("Advance(%v)", time.Duration(o.d))
	case "Clear":
		return "Clear(" + o.out + ")"
	}
	if o.d > 0 {
		return fmt.Sprintf("%s[%s after %v]", o.kind, o.out, time.Duration(o.d))
	}
	return o.kind + "[" + o.out + "]"
}

type rcSys struct {
	x       *rcx
	what    byte // 'f' freshness (C11), 'e' failures (C12)
	ops     []rcSeqOp
	variant int
	maxAge  int64
	ageErr  int64
	horizon int64
	// reference
	val        int
	fresh      bool
	at         int64
	errOn      bool
	err        error
	errVal     int
	errAt      int64
	nerr       int
	cur        rcSeqOp
	ran, cls   int
	produced   int
	produceErr error
}

func newRcSys(what byte, variant int, maxAge, errAge time.Duration, ops []rcSeqOp) *rcSys {
	y := &rcSys{what: what, ops: ops, variant: variant, maxAge: int64(maxAge), ageErr: int64(errAge), horizon: 60}
	y.x = rcNew(variant, maxAge, errAge, y.refresh, nil)
	return y
}

func (y *rcSys) refresh(ctx context.Context, a ...int) (int, error) {
	y.ran++
	if y.ran > 3 {
		return 0, nil
	}
	core.AdvanceQuiet(y.cur.d)
	y.produced, y.produceErr = y.val%3+1, nil
	switch y.cur.out {
	case "err":
		y.nerr++
		y.produced, y.produceErr = 0, rcErrs[y.nerr%2]
	case "both":
		y.nerr++
		y.produced, y.produceErr = 77, rcErrs[y.nerr%2]
	case "panic":
		panic(rcPanic{})
	}
	return y.produced, y.produceErr
}

func (y *rcSys) Ops() int            { return len(y.ops) }
func (y *rcSys) OpName(i int) string { return y.ops[i].String() }
func (y *rcSys) Enabled(i int) bool  { return true }
func (y *rcSys) Digest(f *FP) {
	f.Now, f.Horizon = core.ClockNow(), y.horizon
	f.Root(y.x.root)
	f.u(uint64(y.val))
	f.u(uint64(y.nerr % 2))
	f.u(uint64(errIndex(y.err)))
	f.u(uint64(y.errVal))
	if y.fresh {
		f.Rel(y.at)
	} else {
		f.u(0)
	}
	if y.errOn {
		f.Rel(y.errAt)
	} else {
		f.u(0)
	}
}

func (y *rcSys) isFresh() bool {
	return y.fresh && (y.maxAge < 0 || core.ClockNow()-y.at < y.maxAge)
}

func (y *rcSys) errCached() bool {
	return y.errOn && y.ageErr > 0 && core.ClockNow()-y.errAt < y.ageErr
}

func (y *rcSys) Do(i int) error {
	o := y.ops[i]
	y.cur, y.ran, y.cls = o, 0, 0
	ctx := context.Background()
	switch o.kind {
	case "Advance":
		core.AdvanceQuiet(o.d)
		return y.peek()
	case "Clear":
		var f cfn
		if o.out != "nil" {
			f = func(ctx context.Context, a ...int) error {
				y.cls++
				if o.out == "err" {
					return rcErrs[7]
				}
				return nil
			}
		}
		y.x.setC(f)
		y.x.clear(ctx, 0)
		y.fresh = false
		return y.peek()
	}
	fresh, cached := y.isFresh(), y.errCached()
	var v int
	var err error
	panicked := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(rcPanic); !ok {
					panic(r)
				}
				panicked = true
			}
		}()
		if o.kind == "Get" {
			v, err = y.x.get(ctx, 0)
		} else {
			v, err = y.x.refresh(ctx, 0)
		}
	}()
	// what should have happened
	if o.kind == "Get" {
		if y.what == 'f' {
			if fresh && (y.ran != 0 || err != nil || v != y.val) {
				return fmt.Errorf("%v: the value %d is fresh (age %v of %v) but Get ran the function %d times and returned %d, %v", o, y.val, time.Duration(core.ClockNow()-y.at), time.Duration(y.maxAge), y.ran, v, err)
			}
			if !fresh && !cached && y.ran != 1 {
				return fmt.Errorf("%v: no fresh value and no cached error, but Get ran the function %d times and returned %d, %v", o, y.ran, v, err)
			}
			if y.ran == 1 && !panicked && (err != y.produceErr || err == nil && v != y.produced) {
				return fmt.Errorf("%v: the function produced %d, %v but Get returned %d, %v", o, y.produced, y.produceErr, v, err)
			}
		} else {
			if !fresh && cached {
				if y.ran != 0 || err != y.err {
					return fmt.Errorf("%v: error %v is cached (age %v of %v) but Get ran the function %d times and returned %d, %v", o, y.err, time.Duration(core.ClockNow()-y.errAt), time.Duration(y.ageErr), y.ran, v, err)
				}
				if v != 0 && v != y.errVal {
					return fmt.Errorf("%v: the cached error came with the value %d", o, v)
				}
			}
			if !fresh && !cached && y.ran == 0 {
				return fmt.Errorf("%v: nothing is fresh or cached but Get did not call the function and returned %d, %v", o, v, err)
			}
		}
	}
	if y.ran > 1 || o.kind == "Refresh" && y.ran != 1 {
		return fmt.Errorf("%v ran the function %d times", o, y.ran)
	}
	if y.ran == 1 {
		switch {
		case o.out == "panic":
			if !panicked {
				if y.what == 'e' {
					return fmt.Errorf("%v: the panic did not reach the caller", o)
				}
			}
			// state as before
		case y.produceErr != nil:
			if err != y.produceErr && y.what == 'e' {
				return fmt.Errorf("%v: the function failed with %v but %s returned %d, %v", o, y.produceErr, o.kind, v, err)
			}
			y.fresh, y.errOn, y.err, y.errVal, y.errAt = false, true, y.produceErr, y.produced, core.ClockNow()
		default:
			if err != nil || v != y.produced {
				return fmt.Errorf("%v: the function produced %d but %s returned %d, %v", o, y.produced, o.kind, v, err)
			}
			y.fresh, y.val, y.at, y.errOn = true, y.produced, core.ClockNow(), false
		}
	}
	return y.peek()
}

// peek compares the accessors with the reference.
func (y *rcSys) peek() error {
	y.ran = 0
	if y.what == 'f' {
		want := int64(0)
		if y.fresh {
			want = y.at
		}
		if l := y.x.last(); l != want {
			return fmt.Errorf("Last() = %d, the last valid refresh completed at %d", l, want)
		}
		if l := y.x.lastTime(); l.UnixNano() != y.x.last() {
			return fmt.Errorf("LastTime() = %v does not match Last()", l)
		}
		if y.x.maxAge() != y.maxAge {
			return fmt.Errorf("MaxAge() = %d", y.x.maxAge())
		}
		if y.isFresh() {
			if v, err := y.x.raw(); v != y.val || err != nil {
				return fmt.Errorf("Raw() = %d, %v while %d is fresh", v, err, y.val)
			}
		} else if !y.errCached() {
			// nothing applies: the last value, and no error that did not happen
			v, err := y.x.raw()
			if v != y.val {
				return fmt.Errorf("Raw() = %d, %v; the last successful refresh produced %d", v, err, y.val)
			}
			if err != nil && y.err == nil || y.errOn && err != y.err {
				return fmt.Errorf("Raw() = %d, %v; the last failure was %v", v, err, y.err)
			}
		}
	} else {
		want := int64(0)
		if y.errOn {
			want = y.errAt
		}
		if l := y.x.lastErr(); l != want {
			return fmt.Errorf("LastErr() = %d, the last failure was at %d", l, want)
		}
		if l := y.x.lastErrTime(); l.UnixNano() != y.x.lastErr() {
			return fmt.Errorf("LastErrTime() = %v does not match LastErr()", l)
		}
		if y.x.errAge() != y.ageErr {
			return fmt.Errorf("MaxErrAge() = %d", y.x.errAge())
		}
		if !y.isFresh() && y.errCached() {
			if v, err := y.x.raw(); err != y.err || v != 0 && v != y.errVal {
				return fmt.Errorf("Raw() = %d, %v while the error %v is cached", v, err, y.err)
			}
		}
	}
	if y.ran != 0 {
		return fmt.Errorf("an accessor ran the refresh function")
	}
	return nil
}

func rcSeqOps(outs []string, takes []int64, advs []int64, clears []string) []rcSeqOp {
	var ops []rcSeqOp
	for _, d := range advs {
		ops = append(ops, rcSeqOp{kind: "Advance", d: d})
	}
	for _, o := range outs {
		for _, d := range takes {
			ops = append(ops, rcSeqOp{"Get", o, d}, rcSeqOp{"Refresh", o, d})
		}
	}
	for _, o := range clears {
		ops = append(ops, rcSeqOp{kind: "Clear", out: o})
	}
	return ops
}

func rcSeqJobs(what byte, t bool) (r []Job) {
	outs := []string{"ok", "err"}
	if what == 'e' {
		outs = []string{"ok", "err", "both", "panic"}
	}
	mx := pick(t, 30000, 500000)
	for variant := range rcVariants {
		for _, ma := range []time.Duration{10, 0, -1, math.MaxInt64, math.MinInt64} {
			for _, ea := range []time.Duration{0, 5, -1, math.MaxInt64, 15} {
				if ma == math.MinInt64 && ea != 5 {
					continue
				}
				name := fmt.Sprintf("%s maxAge %d errAge %d", rcVariants[variant], ma, ea)
				takes, advs := []int64{0, 3}, []int64{1, 4}
				ops := rcSeqOps(outs, takes, advs, []string{"nil", "ok", "err"})
				r = append(r, Job{Name: name, Run: func(c *Ctx) {
					c.BFS(Spec{Name: name, Depth: 60, MaxStates: mx, New: func() Sys { return newRcSys(what, variant, ma, ea, ops) }})
				}})
			}
		}
		r = append(r, Job{Name: rcVariants[variant] + " boundaries", Run: func(c *Ctx) { rcBoundaries(c, what, variant) }})
	}
	return
}

// rcBoundaries looks just before, at and after the end of ages of every order of magnitude.
func rcBoundaries(c *Ctx, what byte, variant int) {
	day := 24 * time.Hour
	ages := []time.Duration{math.MinInt64, -time.Hour, -1, 0, 1, 2, 999, time.Microsecond, time.Millisecond - 1, time.Millisecond, time.Second, 1500 * time.Millisecond, time.Minute, time.Hour, 30 * day, 365 * day, 100 * 365 * day, math.MaxInt64 - 1, math.MaxInt64}
	base := []int64{0, 1, 999_999, 999_999_999}
	for _, off := range base {
		for _, ma := range ages {
			for _, ea := range ages {
				for _, sub := range []string{"ok", "err"} {
					age := ma
					if sub == "err" {
						age = ea
					}
					steps := []int64{0, 1, int64(time.Millisecond), int64(time.Hour), int64(200 * 365 * day)}
					if age > 0 && age < 200*365*day {
						steps = append(steps, int64(age)-1, int64(age), int64(age)+1, 2*int64(age))
					}
					for _, st := range steps {
						if st < 0 {
							continue
						}
						for _, take := range []int64{0, 7, int64(time.Second)} {
							ops := []rcSeqOp{{"Refresh", "ok", 0}, {"Advance", "", 1}, {"Refresh", sub, take}, {"Advance", "", st}, {"Get", "ok", 0}, {"Get", "err", 0}, {"Get", "ok", 0}}
							if !c.Case(func() string {
								return fmt.Sprintf("%s maxAge %v errAge %v: %v", rcVariants[variant], ma, ea, ops)
							}, func() error {
								core.AdvanceQuiet(off)
								y := newRcSys(what, variant, ma, ea, ops)
								for i := range ops {
									c.Trans++
									if err := y.Do(i); err != nil {
										return err
									}
								}
								return nil
							}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	as := []string{"virtual clock in place of time.Now; the code under test depends on differences between times only (states are compared relative to the clock)"}
	register(&Check{ID: "C11", Bounds: "for each of the three packages, through RefreshCache and RefreshData: all sequences of Get, Refresh (succeeding or failing, taking 0 or 3 ns), Clear and clock steps of 1 and 4 ns, closed under reachable states, for 5 maximum ages x 5 error ages (negative, 0, short, MaxInt64); plus a grid of ages from 1 ns to MaxInt64 looked at just before, at and after their end",
		Assume: as, Jobs: func(t bool) []Job { return append(append(rcSeqJobs('f', t), rcBrief(t)...), raceRC(t)...) }})
	register(&Check{ID: "C12", Bounds: "as C11, with functions that succeed, fail, fail with a value, and panic",
		Assume: as, Jobs: func(t bool) []Job { return append(append(rcSeqJobs('e', t), rcBrief(t)...), raceRC(t)...) }})
}
