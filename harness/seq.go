package main

import (
	"fmt"
	"strings"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// Sys is a real object next to its reference model. Do applies operation i to both and compares everything
// observable; an error is a violation.
type Sys interface {
	Ops() int
	OpName(i int) string
	Enabled(i int) bool
	Do(i int) error
	Digest(f *FP)
}

// Spec is one bounded sequential exploration.
type Spec struct {
	Name      string
	New       func() Sys
	Depth     int
	MaxStates int // cap (reported when hit)
}

// safely turns panics of the code under test into violations.
func safely(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, stack())
		}
	}()
	core.ResetTicks()
	return f()
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(core.NonTermination); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

type seqNode struct {
	parent int32
	op     int16
	depth  int16
}

// BFS enumerates every reachable state of the object within the depth bound, applying every operation of
// the alphabet in every state; then one long history.
func (c *Ctx) BFS(s Spec) {
	if c.witness != nil {
		c.replaySeq(s)
		return
	}
	c.Scenarios++
	c.bfs(s)
	if c.Violation == nil && c.Broken == "" && !c.late {
		c.long(s)
	}
}

// long runs one history of several thousand calls in which every operation directly follows every other (the Lyndon
// words of length one and two in order), over and over: behaviour that depends on how often something was done shows here.
func (c *Ctx) long(s Spec) {
	const least, most = 3000, 12000
	core.ResetGlobals()
	core.ResetClock()
	var y Sys
	var h []int32
	err := safely(func() error { y = s.New(); return nil })
	if err == nil {
		c.Execs++
		n := y.Ops()
		do := func(o int) bool {
			if len(h) >= most || !y.Enabled(o) {
				return len(h) < most
			}
			h = append(h, int32(o))
			c.Trans++
			err = safely(func() error { return y.Do(o) })
			return err == nil
		}
		round := func() {
			for i := 0; i < n; i++ {
				if !do(i) {
					return
				}
				for j := i + 1; j < n; j++ {
					if !do(i) || !do(j) {
						return
					}
				}
			}
		}
		for k := 0; err == nil && len(h) < least && k < least && !c.Stop(); k++ {
			round()
		}
	}
	if err != nil {
		c.Fail(&Violation{Kind: "seq", Msg: err.Error(), Hist: h, Ops: opNames(s, h), Sub: int(c.Scenarios - 1)})
	}
}

func (c *Ctx) bfs(s Spec) {
	fp := NewFP()
	nodes := []seqNode{{-1, -1, 0}}
	seen := map[Digest]struct{}{}
	digest := func(y Sys) Digest { fp.Reset(); y.Digest(fp); return fp.Sum() }
	var hist []int32
	path := func(n int32) []int32 {
		hist = hist[:0]
		for n > 0 {
			hist = append(hist, int32(nodes[n].op))
			n = nodes[n].parent
		}
		for i, j := 0, len(hist)-1; i < j; i, j = i+1, j-1 {
			hist[i], hist[j] = hist[j], hist[i]
		}
		return hist
	}
	fail := func(h []int32, op int, err error) {
		full := append(append([]int32{}, h...))
		if op >= 0 {
			full = append(full, int32(op))
		}
		c.Fail(&Violation{Kind: "seq", Msg: err.Error(), Hist: full, Ops: opNames(s, full), Sub: int(c.Scenarios - 1)})
	}
	build := func(h []int32) (Sys, error) {
		core.ResetGlobals()
		core.ResetClock()
		var y Sys
		err := safely(func() error { y = s.New(); return nil })
		if err != nil {
			return nil, err
		}
		for _, o := range h {
			if err := safely(func() error { return y.Do(int(o)) }); err != nil {
				return nil, err
			}
		}
		c.Execs++
		return y, nil
	}
	y, err := build(nil)
	if err != nil {
		fail(nil, -1, err)
		return
	}
	nops := y.Ops()
	seen[digest(y)] = struct{}{}
	c.States++
	for n := int32(0); int(n) < len(nodes); n++ {
		if int(nodes[n].depth) >= s.Depth {
			break
		}
		h := path(n)
		y, err := build(h)
		if err != nil {
			fail(h, -1, err)
			return
		}
		base := digest(y)
		for op := 0; op < nops; op++ {
			if y == nil {
				if y, err = build(h); err != nil {
					fail(h, -1, err)
					return
				}
			}
			if !y.Enabled(op) {
				continue
			}
			c.Trans++
			if err := safely(func() error { return y.Do(op) }); err != nil {
				fail(h, op, err)
				return
			}
			d := digest(y)
			if d == base {
				continue // the object is as before: go on with it
			}
			y = nil
			if _, ok := seen[d]; ok {
				continue
			}
			seen[d] = struct{}{}
			c.States++
			if s.MaxStates > 0 && len(nodes) >= s.MaxStates {
				c.Complete = false
				c.Capped = fmt.Sprintf("%s: stopped at %d states, depth %d", s.Name, len(nodes), nodes[n].depth)
				return
			}
			nodes = append(nodes, seqNode{n, int16(op), nodes[n].depth + 1})
			if len(nodes) == 50 || len(nodes) == 5000 {
				c.Sample("%s", strings.Join(opNames(s, path(int32(len(nodes)-1))), "; "))
				h = path(n)
			}
		}
		if c.Stop() {
			return
		}
	}
	c.Outcomes += int64(len(seen))
}

func opNames(s Spec, h []int32) []string {
	var r []string
	core.ResetGlobals()
	core.ResetClock()
	y := s.New()
	for _, o := range h {
		r = append(r, y.OpName(int(o)))
	}
	return r
}

func (c *Ctx) replaySeq(s Spec) {
	if int(c.Scenarios) != c.witness.Sub {
		c.Scenarios++
		return
	}
	c.Scenarios++
	core.ResetGlobals()
	core.ResetClock()
	var y Sys
	err := safely(func() error { y = s.New(); return nil })
	for i := 0; err == nil && i < len(c.witness.Hist); i++ {
		o := int(c.witness.Hist[i])
		err = safely(func() error { return y.Do(o) })
	}
	if err != nil {
		v := *c.witness
		v.Msg = err.Error()
		c.Violation = &v
	}
}

// Case runs one directed case of an enumeration (an input, a configuration, a size): an error is a violation.
func (c *Ctx) Case(name func() string, f func() error) bool {
	if c.Violation != nil || c.Broken != "" || c.late {
		return false
	}
	if c.witness != nil && int(c.Scenarios) != c.witness.Sub {
		c.Scenarios++
		return true
	}
	sub := int(c.Scenarios)
	c.Scenarios++
	core.ResetGlobals()
	core.ResetClock()
	c.Execs++
	c.States++
	if err := safely(f); err != nil {
		c.Fail(&Violation{Kind: "case", Msg: err.Error(), Ops: []string{name()}, Sub: sub})
		return false
	}
	if sub == 3 || sub == 1000 {
		c.Sample("%s", name())
	}
	return !c.Stop()
}

// Named is Case for one specific input that KNOWN_FINDINGS.txt may list.
func (c *Ctx) Named(name string, f func() error) {
	failed := ""
	if !c.Case(func() string { return name }, func() error {
		err := f()
		if err != nil && c.witness == nil {
			failed = err.Error()
			return nil
		}
		return err
	}) {
		return
	}
	if failed != "" {
		c.Findings = append(c.Findings, Finding{Case: name, Msg: failed, Sub: int(c.Scenarios) - 1})
	}
}
