package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ConcSpec is one concurrent scenario: Prog sets up objects and threads and returns the final check.
type ConcSpec struct {
	Name     string
	Desc     func() []string
	Prog     core.Program
	Bound    int32
	MaxSteps int
}

// Conc explores every schedule of the scenario within the preemption bound. It returns false when the job
// should end.
func (c *Ctx) Conc(s ConcSpec) bool {
	if c.Violation != nil || c.Broken != "" || c.late {
		return false
	}
	sub := int(c.Scenarios)
	c.Scenarios++
	steps := s.MaxSteps
	if steps == 0 {
		steps = 4000
	}
	if c.witness != nil {
		if c.witness.Sub != sub {
			return true
		}
		o := core.RunOnce(s.Prog, c.witness.Picks, steps, true)
		if o.Fail != "" || o.Races > 0 {
			v := *c.witness
			v.Msg, v.Log = o.Fail, o.Log
			if o.Fail == "" {
				v.Msg = "data race"
			}
			if s.Desc != nil {
				v.Ops = s.Desc()
			}
			c.Violation = &v
		}
		return false
	}
	clear(c.outcomes)
	e := core.Explorer{Bound: s.Bound, MaxSteps: steps, Stop: c.Stop}
	f, complete := e.Explore(s.Prog)
	c.Execs += e.Stats.Execs
	c.States += e.Stats.Nodes + 1
	c.Trans += e.Stats.Steps
	c.Outcomes += int64(len(c.outcomes))
	if f != nil {
		if f.Broken {
			c.Complete = false
			c.Capped = s.Name + ": " + f.Msg
			fmt.Fprintln(os.Stderr, c.Capped)
			return true
		}
		v := &Violation{Kind: "conc", Msg: s.Name + ": " + f.Msg, Picks: f.Picks, Sub: sub}
		if s.Desc != nil {
			v.Ops = s.Desc()
		}
		c.Fail(v)
		return false
	}
	if !complete {
		c.Complete = false
		return false
	}
	if sub == 1 || sub == 40 {
		d := ""
		if s.Desc != nil {
			d = strings.Join(s.Desc(), " || ")
		}
		c.Sample("%s %s: %d schedules, at most %d preemptions", s.Name, d, e.Stats.Execs, s.Bound)
	}
	return true
}

// ---------------------------------------------------------------- histories

type Event[O any, R any] struct {
	Op        O
	Res       R
	Call, Ret int64
	Thread    int
}

// Hist records the calls of one execution; every thread appends only to its own list.
type Hist[O any, R any] struct {
	per [][]Event[O, R]
}

func NewHist[O, R any](threads, ops int) *Hist[O, R] {
	h := &Hist[O, R]{per: make([][]Event[O, R], threads)}
	for i := range h.per {
		h.per[i] = make([]Event[O, R], 0, ops)
	}
	return h
}

func (h *Hist[O, R]) Call(t int, op O, f func() R) {
	core.CallPoint("call")
	c := core.Stamp()
	r := f()
	core.EndCall()
	h.per[t] = append(h.per[t], Event[O, R]{Op: op, Res: r, Call: c, Ret: core.Stamp(), Thread: t})
}

func (h *Hist[O, R]) All() []Event[O, R] {
	var r []Event[O, R]
	for _, p := range h.per {
		r = append(r, p...)
	}
	return r
}

// Linearizable reports whether the events can be ordered consistently with real time so that step accepts
// each of them; step returns the possible successor states (none if the result is impossible).
func Linearizable[S comparable, O, R any](init S, ev []Event[O, R], step func(S, *Event[O, R], func(S)), final func(S) bool) bool {
	n := len(ev)
	if n > 30 {
		return linearizableLong(init, ev, step, final)
	}
	type node struct {
		mask uint32
		s    S
	}
	seen := map[node]struct{}{}
	var rec func(mask uint32, s S) bool
	rec = func(mask uint32, s S) bool {
		if mask == 1<<n-1 {
			return final(s)
		}
		k := node{mask, s}
		if _, ok := seen[k]; ok {
			return false
		}
		seen[k] = struct{}{}
		minRet := int64(1) << 62
		for i := range ev {
			if mask&(1<<i) == 0 && ev[i].Ret < minRet {
				minRet = ev[i].Ret
			}
		}
		for i := range ev {
			if mask&(1<<i) != 0 || ev[i].Call > minRet {
				continue
			}
			ok := false
			step(s, &ev[i], func(t S) {
				if !ok {
					ok = rec(mask|1<<i, t)
				}
			})
			if ok {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// linearizableLong does the same for long histories of a few threads whose own calls do not overlap.
func linearizableLong[S comparable, O, R any](init S, ev []Event[O, R], step func(S, *Event[O, R], func(S)), final func(S) bool) bool {
	const top = 4
	var chains [top][]*Event[O, R]
	for i := range ev {
		t := ev[i].Thread
		chains[t] = append(chains[t], &ev[i])
	}
	type node struct {
		at [top]int16
		s  S
	}
	seen := map[node]struct{}{}
	var rec func(at [top]int16, s S) bool
	rec = func(at [top]int16, s S) bool {
		k := node{at, s}
		if _, ok := seen[k]; ok {
			return false
		}
		seen[k] = struct{}{}
		minRet, end := int64(1)<<62, true
		for t, c := range chains {
			if int(at[t]) < len(c) {
				end = false
				minRet = min(minRet, c[at[t]].Ret)
			}
		}
		if end {
			return final(s)
		}
		for t, c := range chains {
			if int(at[t]) == len(c) || c[at[t]].Call > minRet {
				continue
			}
			to := at
			to[t]++
			ok := false
			step(s, c[at[t]], func(u S) {
				if !ok {
					ok = rec(to, u)
				}
			})
			if ok {
				return true
			}
		}
		return false
	}
	return rec([top]int16{}, init)
}

type sigger interface{ sig() uint64 }

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>32
}

// signature identifies a history: every result and the real-time order of calls and returns.
func signature[O any, R sigger](ev []Event[O, R]) uint64 {
	h := uint64(len(ev))
	for i := range ev {
		h = mix(h, ev[i].Res.sig())
		for j := range ev {
			if ev[i].Ret < ev[j].Call {
				h = mix(h, uint64(i*16+j+1))
			}
		}
	}
	return h
}

// Seen records an outcome of the current scenario and reports whether it occurred before.
func (c *Ctx) Seen(sig uint64) bool {
	if _, ok := c.outcomes[sig]; ok {
		return true
	}
	if c.outcomes == nil {
		c.outcomes = map[uint64]struct{}{}
	}
	c.outcomes[sig] = struct{}{}
	return false
}
