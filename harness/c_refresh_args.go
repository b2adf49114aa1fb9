package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- C14: what the functions are given

type raOp struct {
	kind string // Get, Refresh, Clear, SetR, SetC, UnsetC, Advance
	out  string
	args int // number of arguments (variadic package)
}

func (o raOp) String() string {
	switch o.kind {
	case "Get", "Refresh":
		return fmt.Sprintf("%s[%s, %d args]", o.kind, o.out, o.args)
	case "Clear":
		return fmt.Sprintf("Clear[%s]", o.out)
	}
	return o.kind + "()"
}

type raSys struct {
	x        *rcx
	variant  int
	ops      []raOp
	data     int
	fid, cid int // functions in force (cid 0: none)
	cur      raOp
	ctx      context.Context
	args     []int
	err      error
	bad      error
	ran, cls int
	val      int
}

type raKey struct{}

func newRaSys(variant int, ops []raOp) *raSys {
	y := &raSys{variant: variant, ops: ops, fid: 1}
	y.x = rcNew(variant, 10, 5, y.fn(1), nil)
	return y
}

func (y *raSys) seen(what string, ctx context.Context, args []int) {
	fail := func(f string, a ...any) {
		if y.bad == nil {
			y.bad = fmt.Errorf("%s: "+f, append([]any{what}, a...)...)
		}
	}
	if ctx == nil {
		fail("no context")
		return
	}
	if v := ctx.Value(raKey{}); v != y.ctx.Value(raKey{}) || v == nil {
		fail("the context does not carry the caller's values")
	}
	if ctx.Done() != y.ctx.Done() {
		fail("the context is not cancelled with the caller's")
	}
	if ctx.Err() != y.ctx.Err() {
		fail("context error %v, the caller's has %v", ctx.Err(), y.ctx.Err())
	}
	d1, ok1 := ctx.Deadline()
	d2, ok2 := y.ctx.Deadline()
	if ok1 != ok2 || !d1.Equal(d2) {
		fail("the context does not have the caller's deadline")
	}
	if old, ok := ctx.Value(y.x.oldKey).(int); !ok || old != y.data {
		fail("old value %v, the last successfully refreshed value is %d", ctx.Value(y.x.oldKey), y.data)
	}
	want := y.args
	switch y.x.nargs {
	case 0:
		want = nil
	case 1:
		want = []int{0}
		if len(y.args) > 0 {
			want = y.args[:1]
		}
	}
	if len(args) != len(want) || len(want) > 0 && !reflect.DeepEqual(args, want) {
		fail("arguments %v instead of %v", args, want)
	}
}

func (y *raSys) fn(id int) rfn {
	return func(ctx context.Context, args ...int) (int, error) {
		y.ran++
		y.seen(y.cur.kind, ctx, args)
		if id != y.fid && y.bad == nil {
			y.bad = fmt.Errorf("%v: refresh function %d ran, %d was set last", y.cur, id, y.fid)
		}
		switch y.cur.out {
		case "err":
			return 55, rcErrs[0]
		case "panic":
			panic(rcPanic{})
		}
		y.val = y.data%3 + 1
		return y.val, nil
	}
}

func (y *raSys) clearFn(id int) cfn {
	return func(ctx context.Context, args ...int) error {
		y.cls++
		y.seen("Clear", ctx, args)
		if id != y.cid && y.bad == nil {
			y.bad = fmt.Errorf("clear function %d ran, %d was set last", id, y.cid)
		}
		if l := y.x.last(); l != 0 && y.bad == nil {
			y.bad = fmt.Errorf("the clear function still sees the data as valid (Last() = %d)", l)
		}
		if y.cur.out == "get" {
			// the data must look invalid to everybody: this Get refreshes
			k, r := y.cur, y.ran
			y.cur = raOp{kind: "Get", out: "ok"}
			_, err := y.x.get(y.ctx, y.args...)
			if y.ran == r && err == nil && y.bad == nil {
				y.bad = fmt.Errorf("a Get inside the clear function is served the invalidated data")
			}
			if y.ran != r {
				y.data = y.val
			}
			y.cur = k
		}
		if y.cur.out == "err" {
			return y.err
		}
		return nil
	}
}

func (y *raSys) Ops() int            { return len(y.ops) }
func (y *raSys) OpName(i int) string { return y.ops[i].String() }
func (y *raSys) Enabled(i int) bool  { return true }
func (y *raSys) Digest(f *FP) {
	f.Now, f.Horizon = core.ClockNow(), 60
	f.Root(y.x.root)
	f.u(uint64(y.data))
	f.u(uint64(y.fid*4 + y.cid))
}

func (y *raSys) Do(i int) error {
	o := y.ops[i]
	y.cur, y.ran, y.cls, y.bad = o, 0, 0, nil
	base, cancel := context.WithCancel(context.WithValue(context.Background(), raKey{}, fmt.Sprint("caller ", i)))
	defer cancel()
	if i%2 == 1 {
		cancel() // a context that is already cancelled is passed on all the same
	}
	y.ctx = base
	y.args = nil
	for k := 0; k < o.args; k++ {
		y.args = append(y.args, 40+k)
	}
	switch o.kind {
	case "Advance":
		core.AdvanceQuiet(12)
	case "SetR":
		y.fid = 3 - y.fid
		y.x.setR(y.fn(y.fid))
	case "SetC":
		y.cid = y.cid%2 + 1
		y.x.setC(y.clearFn(y.cid))
	case "UnsetC":
		y.cid = 0
		y.x.setC(nil)
	case "Clear":
		y.err = errors.New("clear failed")
		err := y.x.clear(y.ctx, y.args...)
		want := 0
		if y.cid != 0 {
			want = 1
		}
		if y.cls != want {
			return fmt.Errorf("Clear ran the clear function %d times, %d expected", y.cls, want)
		}
		if o.out == "err" && y.cid != 0 {
			if err != y.err {
				return fmt.Errorf("Clear returned %v instead of the clear function's error", err)
			}
		} else if err != nil {
			return fmt.Errorf("Clear returned %v", err)
		}
		if o.out != "get" || y.cid == 0 {
			if l := y.x.last(); l != 0 {
				return fmt.Errorf("Last() = %d after Clear", l)
			}
		}
	case "Get", "Refresh":
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(rcPanic); !ok {
						panic(r)
					}
				}
			}()
			if o.kind == "Get" {
				y.x.get(y.ctx, y.args...)
			} else {
				y.x.refresh(y.ctx, y.args...)
			}
		}()
		if y.ran > 0 && o.out == "ok" {
			y.data = y.val
		}
	}
	return y.bad
}

// raTypes: old values of other types than int, including interfaces holding nil and pointers.
func raTypes(c *Ctx) {
	type big struct{ A, B, C [4]int }
	try := func(name string, f func() error) {
		c.Case(func() string { return name }, func() error { c.Trans++; return f() })
	}
	try("refreshcache[string]", func() error {
		var olds []any
		n := 0
		k := refreshcache.NewRefreshCache[string, string](func(ctx context.Context, a ...string) (string, error) {
			olds = append(olds, ctx.Value(refreshcache.OldValKey))
			n++
			return fmt.Sprint("v", n, a), nil
		}, -1)
		k.Refresh(context.Background(), "x", "y")
		k.Refresh(context.Background())
		k.Refresh(context.Background(), "z")
		if !reflect.DeepEqual(olds, []any{"", "v1 [x y]", "v2 []"}) {
			return fmt.Errorf("old values %q", olds)
		}
		v, _ := k.Get(context.Background())
		if v != "v3 [z]" {
			return fmt.Errorf("Get returned %q", v)
		}
		return nil
	})
	try("refreshcache0[*big]", func() error {
		var olds []any
		b := &big{}
		k := refreshcache0.NewRefreshCache[*big](func(ctx context.Context) (*big, error) {
			olds = append(olds, ctx.Value(refreshcache0.OldValKey))
			return b, nil
		}, -1)
		k.Get(context.Background())
		k.Refresh(context.Background())
		if len(olds) != 2 || olds[0] != any((*big)(nil)) || olds[1] != any(b) {
			return fmt.Errorf("old values %v", olds)
		}
		k.SetClearFunc(func(ctx context.Context) error {
			if ctx.Value(refreshcache0.OldValKey) != any(b) {
				return errors.New("clear function got another old value")
			}
			return nil
		})
		return k.Clear(context.Background())
	})
	try("refreshcache1[big]", func() error {
		var olds []any
		k := refreshcache1.NewRefreshCache[big, *int](func(ctx context.Context, p *int) (big, error) {
			olds = append(olds, ctx.Value(refreshcache1.OldValKey))
			*p++
			return big{A: [4]int{*p}}, nil
		}, -1)
		q := 0
		k.Refresh(context.Background(), &q)
		k.Refresh(context.Background(), &q)
		if len(olds) != 2 || olds[0] != any(big{}) || olds[1] != any(big{A: [4]int{1}}) || q != 2 {
			return fmt.Errorf("old values %v, counter %d", olds, q)
		}
		return nil
	})
	try("deadline", func() error {
		dl := time.Unix(5e9, 0)
		ctx, cancel := context.WithDeadline(context.Background(), dl)
		defer cancel()
		var got [3]time.Time
		refreshcache.NewRefreshData[int, int](1).Get(ctx, func(ctx context.Context, a ...int) (int, error) { got[0], _ = ctx.Deadline(); return 1, nil })
		refreshcache0.NewRefreshData[int](1).Get(ctx, func(ctx context.Context) (int, error) { got[1], _ = ctx.Deadline(); return 1, nil })
		refreshcache1.NewRefreshData[int, int](1).Get(ctx, func(ctx context.Context, a int) (int, error) { got[2], _ = ctx.Deadline(); return 1, nil }, 1)
		for i, g := range got {
			if !g.Equal(dl) {
				return fmt.Errorf("package %d: deadline %v", i, g)
			}
		}
		return nil
	})
}

func init() {
	register(&Check{ID: "C14", Bounds: "single-threaded: all sequences of Get, Refresh (succeeding, failing, panicking; 0-3 arguments), Clear (with, without, failing, re-entrant clear function), SetRefreshFunc, SetClearFunc and clock steps, closed under reachable states; concurrent: all schedules (preemption-bounded) of 2-3 goroutines; three packages, through RefreshCache and RefreshData",
		Assume: []string{"virtual clock; scheduling points at synchronisation operations and inside the functions", "2-3 goroutines, 1-2 calls each"},
		Jobs: func(t bool) (r []Job) {
			r = append(r, raceRC(t)...)
			var ops []raOp
			for _, o := range []string{"ok", "err", "panic"} {
				for a := 0; a <= 3; a++ {
					ops = append(ops, raOp{"Get", o, a}, raOp{"Refresh", o, a})
				}
			}
			for _, o := range []string{"ok", "err", "get"} {
				ops = append(ops, raOp{"Clear", o, 1}, raOp{"Clear", o, 2})
			}
			ops = append(ops, raOp{kind: "SetR"}, raOp{kind: "SetC"}, raOp{kind: "UnsetC"}, raOp{kind: "Advance"})
			for v := range rcVariants {
				r = append(r, Job{Name: rcVariants[v] + " sequential", Run: func(c *Ctx) {
					c.BFS(Spec{Name: rcVariants[v], Depth: 60, MaxStates: pick(t, 30000, 500000), New: func() Sys { return newRaSys(v, ops) }})
				}})
			}
			r = append(r, Job{Name: "types", Run: raTypes})
			conf := []rcConf{{-1, 0, []string{"", "o", "oe"}, 0}, {10, 5, []string{"oa", "oec"}, 0}}
			all := []rcOp{rcGet, rcRefresh, rcClear, rcClearFn}
			set := []rcOp{rcGet, rcRefresh, rcSetR}
			setc := []rcOp{rcRefresh, rcClearFn, rcSetC}
			r = append(r, rcJobs("pairs", false, 16, rcFam('4', allVariants, conf, all, []int{1, 1}, "oep", 2, int32(pick(t, 8, 100))))...)
			r = append(r, rcJobs("triples", false, 16, rcFam('4', mainVariants, conf, all, []int{1, 1, 1}, "oep", 2, int32(pick(t, 2, 3))))...)
			r = append(r, rcJobs("2x1", false, 16, rcFam('4', mainVariants, conf, all, []int{2, 1}, "oep", 2, int32(pick(t, 3, 4))))...)
			r = append(r, rcJobs("setters", false, 16, rcFam('4', mainVariants, conf[:1], set, []int{2, 1}, "oe", 1, int32(pick(t, 4, 6))))...)
			r = append(r, rcJobs("clear setters", false, 8, rcFam('4', mainVariants, conf[:1], setc, []int{2, 1}, "o", 1, int32(pick(t, 3, 6))))...)
			r = append(r, rcJobs("setters3", false, 8, rcFam('4', mainVariants, conf[:1], set, []int{1, 1, 1}, "oe", 1, int32(pick(t, 2, 3))))...)
			r = append(r, rcJobs("setters data", false, 8, rcFam('4', mainVariants, conf, []rcOp{rcGet, rcRefresh, rcClearFn, rcSetR, rcSetC}, []int{1, 1}, "oep", 1, int32(pick(t, 6, 100))))...)
			if t {
				r = append(r, rcJobs("2x2", false, 32, rcFam('4', mainVariants, conf, all, []int{2, 2}, "oe", 2, 2))...)
			}
			return
		}})
}
