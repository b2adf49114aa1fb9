package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// C32: what was removed is let go. Values are distinct heap objects; after every call, the objects reachable from the
// container (through pointers, interfaces, maps, arrays and slices up to their capacity) are among those it should hold.

type token struct{ n, pad int64 }

var tokenType = reflect.TypeOf(token{})

type reachWalk struct {
	seen map[fpKey]bool
	toks map[*token]bool
	// onMap, if set, is told every map.
	onMap func(reflect.Value)
}

func reachable(roots ...any) map[*token]bool {
	w := &reachWalk{seen: map[fpKey]bool{}, toks: map[*token]bool{}}
	for _, r := range roots {
		w.val(reflect.ValueOf(r))
	}
	return w.toks
}

func (w *reachWalk) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Type().Elem() == tokenType {
			w.toks[(*token)(v.UnsafePointer())] = true
			return
		}
		k := fpKey{v.UnsafePointer(), v.Type().Elem()}
		if !w.seen[k] {
			w.seen[k] = true
			w.val(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.val(v.Elem())
		}
	case reflect.Slice:
		if v.Cap() > v.Len() {
			v = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			w.val(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.val(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := fpKey{v.UnsafePointer(), v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		if w.onMap != nil {
			w.onMap(v)
		}
		for it := v.MapRange(); it.Next(); {
			w.val(it.Key())
			w.val(it.Value())
		}
	case reflect.Struct:
		if v.CanAddr() {
			k := fpKey{unsafe.Pointer(v.UnsafeAddr()), v.Type()}
			if v.NumField() > 0 && v.Type() != tokenType {
				w.seen[k] = true
			}
		}
		for i := 0; i < v.NumField(); i++ {
			w.val(v.Field(i))
		}
	}
}

type relOp struct {
	name string
	do   func() error
}

// relSys is a container, what it may hold, and the calls.
type relSys struct {
	ops   []relOp
	roots []any
	model any                                               // pointer to the model, for state matching
	holds func() map[*token]bool                            // what the container may still reference
	extra func() (string, map[*token]bool, map[*token]bool) // handles outside: name, reached, allowed
	now   func() int64
}

func (y *relSys) Ops() int            { return len(y.ops) }
func (y *relSys) OpName(i int) string { return y.ops[i].name }
func (y *relSys) Enabled(int) bool    { return true }
func (y *relSys) Digest(f *FP) {
	if y.now != nil {
		f.Now, f.Horizon = y.now(), 1e9
	}
	for _, r := range y.roots {
		f.Root(r)
	}
	f.Root(y.model)
}
func (y *relSys) Do(i int) error {
	if err := y.ops[i].do(); err != nil {
		return err
	}
	ok := y.holds()
	n := 0
	for p := range reachable(y.roots...) {
		if !ok[p] {
			n++
		}
	}
	if n > 0 {
		return fmt.Errorf("%d removed value(s) still referenced by the container", n)
	}
	if y.extra != nil {
		name, got, allowed := y.extra()
		for p := range got {
			if !allowed[p] {
				return fmt.Errorf("a removed value is still referenced by %s", name)
			}
		}
	}
	return nil
}
func (y *relSys) op(name string, do func()) {
	y.ops = append(y.ops, relOp{name, func() error { do(); return nil }})
}

func relRWMap(keys int) Sys {
	type model struct{ m map[int]*token }
	w := &model{map[int]*token{}}
	y := &relSys{model: w}
	y.holds = func() map[*token]bool {
		r := map[*token]bool{}
		for _, p := range w.m {
			r[p] = true
		}
		return r
	}
	m := &rwmap.RWMap[int, *token]{}
	y.roots = []any{m}
	fresh := func() *token { return &token{} }
	for k := 0; k < keys; k++ {
		y.op(fmt.Sprintf("Store(%d, new)", k), func() { w.m[k] = fresh(); m.Store(k, w.m[k]) })
		y.op(fmt.Sprintf("Swap(%d, new)", k), func() { w.m[k] = fresh(); m.Swap(k, w.m[k]) })
		y.op(fmt.Sprintf("LoadOrStore(%d, new)", k), func() {
			p := fresh()
			if _, in := w.m[k]; !in {
				w.m[k] = p
			}
			m.LoadOrStore(k, p)
		})
		y.op(fmt.Sprintf("Load(%d)", k), func() { m.Load(k) })
		y.op(fmt.Sprintf("Delete(%d)", k), func() { delete(w.m, k); m.Delete(k) })
		y.op(fmt.Sprintf("LoadAndDelete(%d)", k), func() { delete(w.m, k); m.LoadAndDelete(k) })
		y.op(fmt.Sprintf("CompareAndDelete(%d, current)", k), func() {
			if p, in := w.m[k]; in {
				delete(w.m, k)
				m.CompareAndDelete(k, p)
			}
		})
		y.op(fmt.Sprintf("CompareAndSwap(%d, current, new)", k), func() {
			if p, in := w.m[k]; in {
				w.m[k] = fresh()
				m.CompareAndSwap(k, p, w.m[k])
			}
		})
		y.op(fmt.Sprintf("CompareAndSwap(%d, other, new)", k), func() { m.CompareAndSwap(k, fresh(), fresh()) })
	}
	y.op("Clear", func() { clear(w.m); m.Clear() })
	y.op("Range", func() { m.Range(func(int, *token) bool { return true }) })
	return y
}

func relCache(keys int, callback bool) Sys {
	type ent struct {
		p       *token
		expired bool
	}
	type model struct{ m map[int]ent }
	w := &model{map[int]ent{}}
	y := &relSys{model: w, now: core.ClockNow}
	y.holds = func() map[*token]bool {
		r := map[*token]bool{}
		for _, e := range w.m {
			r[e.p] = true
		}
		return r
	}
	sc := &synccache.SyncCache[int, *token]{}
	if callback {
		synccache.WithDeletedCallback[int, *token](func(*token) {})(sc)
	}
	y.roots = []any{sc}
	for k := 0; k < keys; k++ {
		for _, exp := range []bool{false, true} {
			d := time.Hour
			if exp {
				d = -time.Hour
			}
			y.op(fmt.Sprintf("Store(%d, new, %v)", k, d), func() { w.m[k] = ent{&token{}, exp}; sc.Store(k, w.m[k].p, d) })
		}
		touch := func() {
			if w.m[k].expired {
				delete(w.m, k)
			}
		}
		y.op(fmt.Sprintf("Load(%d)", k), func() { touch(); sc.Load(k) })
		y.op(fmt.Sprintf("LoadOrStore(%d, new)", k), func() {
			touch()
			p := &token{}
			if _, in := w.m[k]; !in {
				w.m[k] = ent{p, false}
			}
			sc.LoadOrStore(k, p, time.Hour)
		})
		y.op(fmt.Sprintf("Delete(%d)", k), func() { delete(w.m, k); sc.Delete(k) })
		y.op(fmt.Sprintf("LoadAndDelete(%d)", k), func() { delete(w.m, k); sc.LoadAndDelete(k) })
		y.op(fmt.Sprintf("CompareValueAndDelete(%d, current)", k), func() {
			if e, in := w.m[k]; in {
				delete(w.m, k)
				sc.CompareValueAndDelete(k, e.p)
			}
		})
		y.op(fmt.Sprintf("CompareAndDelete(%d, current)", k), func() {
			touch()
			if e, in := sc.Load(k); in {
				delete(w.m, k)
				sc.CompareAndDelete(k, e)
			}
		})
	}
	y.op("Clear", func() { clear(w.m); sc.Clear() })
	y.op("Range", func() {
		for k, e := range w.m {
			if e.expired {
				delete(w.m, k)
			}
		}
		sc.Range(func(int, *synccache.Entry[*token]) bool { return true })
	})
	return y
}

func relLhash(keys int) Sys {
	type model struct{ m map[int]*token }
	w := &model{map[int]*token{}}
	y := &relSys{model: w}
	y.holds = func() map[*token]bool {
		r := map[*token]bool{}
		for _, p := range w.m {
			r[p] = true
		}
		return r
	}
	m := lhashmap.New[int, *token]()
	y.roots = []any{m}
	for k := 0; k < keys; k++ {
		y.op(fmt.Sprintf("Store(%d, new)", k), func() { w.m[k] = &token{}; m.Store(k, w.m[k]) })
		y.op(fmt.Sprintf("Load(%d)", k), func() { m.Load(k) })
		y.op(fmt.Sprintf("Remove(%d)", k), func() { delete(w.m, k); m.Remove(k) })
	}
	y.op("Clear", func() { clear(w.m); m.Clear() })
	return y
}

func relList(most int) Sys {
	type model struct {
		in, out []*dllist.Element[*token]
	}
	w := &model{}
	y := &relSys{model: w}
	l := dllist.New[*token]()
	y.roots = []any{l}
	y.holds = func() map[*token]bool {
		r := map[*token]bool{}
		for _, e := range w.in {
			r[e.Value] = true
		}
		return r
	}
	y.extra = func() (string, map[*token]bool, map[*token]bool) {
		for _, e := range w.out {
			if got := reachable(e); len(got) > 1 {
				return "an element that is no longer in the list", got, map[*token]bool{e.Value: true}
			}
		}
		return "", nil, nil
	}
	drop := func(e *dllist.Element[*token]) {
		w.out = append(w.out, e)
		if len(w.out) > 2 {
			w.out = w.out[1:]
		}
	}
	y.op("PushFront", func() {
		if len(w.in) < most {
			w.in = append([]*dllist.Element[*token]{l.PushFront(&token{})}, w.in...)
		}
	})
	y.op("PushBack", func() {
		if len(w.in) < most {
			w.in = append(w.in, l.PushBack(&token{}))
		}
	})
	y.op("InsertAfter(front)", func() {
		if len(w.in) > 0 && len(w.in) < most {
			e := l.InsertAfter(&token{}, w.in[0])
			w.in = append(w.in[:1:1], append([]*dllist.Element[*token]{e}, w.in[1:]...)...)
		}
	})
	for i := 0; i < most; i++ {
		y.op(fmt.Sprintf("Remove(%d)", i), func() {
			if i < len(w.in) {
				e := w.in[i]
				w.in = append(w.in[:i:i], w.in[i+1:]...)
				drop(e)
				l.Remove(e)
			}
		})
		y.op(fmt.Sprintf("element %d Remove()", i), func() {
			if i < len(w.in) {
				e := w.in[i]
				w.in = append(w.in[:i:i], w.in[i+1:]...)
				drop(e)
				e.Remove()
			}
		})
		y.op(fmt.Sprintf("MoveToFront(%d)", i), func() {
			if i < len(w.in) {
				e := w.in[i]
				w.in = append([]*dllist.Element[*token]{e}, append(w.in[:i:i], w.in[i+1:]...)...)
				l.MoveToFront(e)
			}
		})
		y.op(fmt.Sprintf("Swap(0, %d)", i), func() {
			if i < len(w.in) {
				l.Swap(w.in[0], w.in[i])
				w.in[0], w.in[i] = w.in[i], w.in[0]
			}
		})
	}
	y.op("Clear", func() {
		for _, e := range w.in {
			drop(e)
		}
		w.in = nil
		l.Clear()
	})
	return y
}

// relRefresh drives one of the three refresh caches: only the last value successfully refreshed stays.
func relRefresh(kind int) Sys {
	type model struct {
		last, next *token
		fail       bool
	}
	w := &model{}
	y := &relSys{model: w, now: core.ClockNow}
	produce := func() (*token, error) {
		if w.fail {
			return &token{}, errors.New("no")
		}
		w.last = w.next
		return w.next, nil
	}
	var get, refresh, clr func()
	ctx := context.Background()
	switch kind {
	case 0:
		c := refreshcache0.NewRefreshCache(func(context.Context) (*token, error) { return produce() }, time.Hour)
		y.roots = []any{c}
		get, refresh, clr = func() { c.Get(ctx) }, func() { c.Refresh(ctx) }, func() { c.Clear(ctx) }
	case 1:
		c := refreshcache1.NewRefreshCache(func(context.Context, int) (*token, error) { return produce() }, time.Hour)
		y.roots = []any{c}
		get, refresh, clr = func() { c.Get(ctx, 1) }, func() { c.Refresh(ctx, 1) }, func() { c.Clear(ctx, 1) }
	default:
		c := refreshcache.NewRefreshCache(func(context.Context, ...int) (*token, error) { return produce() }, time.Hour)
		y.roots = []any{c}
		get, refresh, clr = func() { c.Get(ctx, 1) }, func() { c.Refresh(ctx, 1) }, func() { c.Clear(ctx, 1) }
	}
	y.holds = func() map[*token]bool { return map[*token]bool{w.last: true} }
	for _, fail := range []bool{false, true} {
		s := map[bool]string{false: "succeeding", true: "failing"}[fail]
		y.op("Get, "+s, func() { w.next, w.fail = &token{}, fail; get(); w.next = nil })
		y.op("Refresh, "+s, func() { w.next, w.fail = &token{}, fail; refresh(); w.next = nil })
	}
	y.op("Clear", func() { clr() })
	y.op("an hour passes", func() { core.AdvanceQuiet(int64(time.Hour)) })
	return y
}

func init() {
	register(&Check{ID: "C32", Bounds: "every reachable state of rwmap over 3 keys (thorough 4), synccache over 3 keys with and without callback (thorough 4), lhashmap over 5 keys (6), dllist up to 5 elements (7), the three refresh caches; fresh heap objects as values, exact reachability after every call; every cycle of up to 4 rwmap (thorough 5) or 3 synccache (thorough 4) calls with ever new keys, repeated to 600 calls on 0, 1 and 5 other keys, map entries counted at the end",
		Jobs: func(t bool) []Job {
			js := []Job{
				{Name: "rwmap", Run: func(c *Ctx) {
					c.BFS(Spec{Name: "rwmap", New: func() Sys { return relRWMap(pick(t, 3, 4)) }, Depth: 1000, MaxStates: pick(t, 20000, 200000)})
				}},
				{Name: "synccache", Run: func(c *Ctx) {
					c.BFS(Spec{Name: "synccache", New: func() Sys { return relCache(pick(t, 3, 4), false) }, Depth: 1000, MaxStates: pick(t, 20000, 100000)})
				}},
				{Name: "synccache with callback", Run: func(c *Ctx) {
					c.BFS(Spec{Name: "synccache", New: func() Sys { return relCache(pick(t, 3, 4), true) }, Depth: 1000, MaxStates: pick(t, 20000, 100000)})
				}},
				{Name: "lhashmap", Run: func(c *Ctx) {
					c.BFS(Spec{Name: "lhashmap", New: func() Sys { return relLhash(pick(t, 5, 6)) }, Depth: 1000})
				}},
				{Name: "dllist", Run: func(c *Ctx) {
					c.BFS(Spec{Name: "dllist", New: func() Sys { return relList(pick(t, 5, 7)) }, Depth: 1000, MaxStates: 20000})
				}},
			}
			for k, n := range []string{"refreshcache0", "refreshcache1", "refreshcache"} {
				js = append(js, Job{Name: n, Run: func(c *Ctx) { c.BFS(Spec{Name: n, New: func() Sys { return relRefresh(k) }, Depth: 12}) }})
			}
			return js
		}})
}
