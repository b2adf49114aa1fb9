package main

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
)

// Part of C32: a map in which few keys live at any time stays small, however many keys have come and gone.

// mapEntries counts the entries of all maps reachable from root.
func mapEntries(root any) (n int) {
	w := &reachWalk{seen: map[fpKey]bool{}, toks: map[*token]bool{}, onMap: func(v reflect.Value) { n += v.Len() }}
	w.val(reflect.ValueOf(root))
	return n
}

type churnMap struct {
	m    rwmap.RWMap[int, int]
	c    *synccache.SyncCache[int, int]
	live []int // oldest first; every key is its own value
	next int
}

func (w *churnMap) take(newest bool) int {
	if len(w.live) == 0 {
		return -1
	}
	i := 0
	if newest {
		i = len(w.live) - 1
	}
	k := w.live[i]
	w.live = slices.Delete(w.live, i, i+1)
	return k
}

func (w *churnMap) newest() int {
	if len(w.live) == 0 {
		return -1
	}
	return w.live[len(w.live)-1]
}

func (w *churnMap) fresh() int {
	w.next++
	w.live = append(w.live, w.next)
	return w.next
}

type churnOp struct {
	name  string
	delta int
	do    func(w *churnMap)
}

var churnCache = []churnOp{
	{"Store(new)", 1, func(w *churnMap) { k := w.fresh(); w.c.Store(k, k, time.Hour) }},
	{"LoadOrStore(new)", 1, func(w *churnMap) { k := w.fresh(); w.c.LoadOrStore(k, k, time.Hour) }},
	{"Store(new, expired)", 1, func(w *churnMap) { k := w.fresh(); w.c.Store(k, k, -time.Hour) }},
	{"Load(newest) expired", -1, func(w *churnMap) { w.expire(w.take(true), func(k int) { w.c.Load(k) }) }},
	{"LoadOrStore(oldest) expired, then Delete", -1, func(w *churnMap) {
		w.expire(w.take(false), func(k int) { w.c.LoadOrStore(k, k, time.Hour); w.c.Delete(k) })
	}},
	{"Delete(newest)", -1, func(w *churnMap) { w.c.Delete(w.take(true)) }},
	{"LoadAndDelete(oldest)", -1, func(w *churnMap) { w.c.LoadAndDelete(w.take(false)) }},
	{"CompareValueAndDelete(newest)", -1, func(w *churnMap) { k := w.take(true); w.c.CompareValueAndDelete(k, k) }},
	{"CompareAndDelete(oldest)", -1, func(w *churnMap) {
		k := w.take(false)
		if e, ok := w.c.Load(k); ok {
			w.c.CompareAndDelete(k, e)
		}
	}},
	{"Load(newest)", 0, func(w *churnMap) { w.c.Load(w.newest()) }},
	{"Clear", -100, func(w *churnMap) { w.live = nil; w.c.Clear() }},
}

// expire puts the entry's deadline into the past before f.
func (w *churnMap) expire(k int, f func(k int)) {
	if e, ok := w.c.Load(k); ok {
		e.AddExpiration(-2 * time.Hour)
	}
	f(k)
}

var churnOps = []churnOp{
	{"Store(new)", 1, func(w *churnMap) { k := w.fresh(); w.m.Store(k, k) }},
	{"LoadOrStore(new)", 1, func(w *churnMap) { k := w.fresh(); w.m.LoadOrStore(k, k) }},
	{"Delete(newest)", -1, func(w *churnMap) { w.m.Delete(w.take(true)) }},
	{"Delete(oldest)", -1, func(w *churnMap) { w.m.Delete(w.take(false)) }},
	{"CompareAndDelete(newest)", -1, func(w *churnMap) { k := w.take(true); w.m.CompareAndDelete(k, k) }},
	{"CompareAndDelete(oldest)", -1, func(w *churnMap) { k := w.take(false); w.m.CompareAndDelete(k, k) }},
	{"Load(newest)", 0, func(w *churnMap) { w.m.Load(w.newest()) }},
	{"Load(absent)", 0, func(w *churnMap) { w.m.Load(-1) }},
	{"Swap(newest)", 0, func(w *churnMap) {
		if k := w.newest(); k >= 0 {
			w.m.Swap(k, k)
		}
	}},
	{"CompareAndSwap(newest)", 0, func(w *churnMap) { w.m.CompareAndSwap(w.newest(), w.newest(), w.newest()) }},
	{"Range", 0, func(w *churnMap) { w.m.Range(func(int, int) bool { return true }) }},
	{"Clear", -100, func(w *churnMap) { w.live = nil; w.m.Clear() }},
}

// churn repeats every cycle of up to length calls that stores and keeps the number of live keys bounded.
func churn(c *Ctx, churnOps []churnOp, first, length int, sizes []int, n int) {
	var cyc []int
	var run func() bool
	run = func() bool {
		delta, stores := 0, false
		for _, o := range cyc {
			delta += churnOps[o].delta
			stores = stores || churnOps[o].delta > 0
		}
		if delta <= 0 && stores {
			for _, size := range sizes {
				if !c.Case(func() string {
					var s []string
					for _, o := range cyc {
						s = append(s, churnOps[o].name)
					}
					return fmt.Sprintf("map of %d keys, then %d calls repeating %s", size, n, strings.Join(s, "; "))
				}, func() error {
					w := &churnMap{c: &synccache.SyncCache[int, int]{}}
					if size == 5 {
						synccache.WithDeletedCallback[int, int](func(int) {})(w.c)
					}
					for i := 0; i < size; i++ {
						churnOps[0].do(w)
					}
					most := size
					for i := 0; i < n; i++ {
						churnOps[cyc[i%len(cyc)]].do(w)
						most = max(most, len(w.live))
					}
					c.Trans += int64(n)
					if got := mapEntries(&w.m) + mapEntries(w.c); got > 8*most+40 {
						return fmt.Errorf("%d map entries kept, with never more than %d keys alive", got, most)
					}
					return nil
				}) {
					return false
				}
			}
		}
		if len(cyc) == length {
			return true
		}
		for i := range churnOps {
			if len(cyc) == 0 && i != first {
				continue
			}
			cyc = append(cyc, i)
			ok := run()
			cyc = cyc[:len(cyc)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	run()
}

func init() {
	extraJobs["C32"] = append(extraJobs["C32"], func(t bool) (js []Job) {
		for i, o := range churnOps {
			js = append(js, Job{Name: "churn " + o.name, Run: func(c *Ctx) { churn(c, churnOps, i, pick(t, 4, 5), []int{0, 1, 5}, 600) }})
		}
		for i, o := range churnCache {
			js = append(js, Job{Name: "synccache churn " + o.name, Run: func(c *Ctx) { churn(c, churnCache, i, pick(t, 3, 4), []int{0, 1, 5}, 600) }})
		}
		return
	})
}
