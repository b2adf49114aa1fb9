// Package core is the runtime under the instrumented code: a controlled scheduler with a virtual clock,
// explicit nondeterminism, step budgets and global-state reset.
//
// Exactly one controlled thread runs at a time. Every synchronisation operation of the code under test
// reaches Point (or a blocking variant) before it executes; there the running thread decides, by the next
// choice of the exploration, which enabled thread performs its pending operation next.
//
// All functions that touch scheduler state are marked norace and hide their own hand-offs from the race
// detector, so that in -race builds the detector sees only the happens-before edges of the code under test.
package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- step budgets

const (
	loopLimit = 100_000_000
	callLimit = 100_000_000
	callCheck = 100_000 // how often Call looks at the depth of the stack
	maxDepth  = 60_000
)

var loopTicks, callTicks int64

// NonTermination is the panic value raised when one operation exceeds its step budget.
type NonTermination struct{ What string }

func (n NonTermination) Error() string { return "operation does not terminate: " + n.What }

//go:norace
func Loop() {
	loopTicks++
	if loopTicks > loopLimit {
		loopTicks = 0
		panic(NonTermination{"more than 100 million loop iterations"})
	}
}

//go:norace
func Call() {
	callTicks++
	if callTicks%callCheck == 0 {
		checkDepth()
	}
}

//go:norace
func checkDepth() {
	if callTicks > callLimit {
		callTicks = 0
		panic(NonTermination{"more than 100 million calls"})
	}
	var pc [1]uintptr
	if runtime.Callers(maxDepth, pc[:]) > 0 {
		callTicks = 0
		panic(NonTermination{"calls nested more than 60000 deep"})
	}
}

// ResetTicks starts a new operation's step budget.
//
//go:norace
func ResetTicks() { loopTicks, callTicks = 0, 0 }

// ---------------------------------------------------------------- global state reset

type resetEntry struct {
	idx int
	f   func()
}

var (
	resetPkgs  []string
	resetFuncs = map[string][]resetEntry{}
)

// RegisterReset is called by the instrumented packages for each package-level variable.
func RegisterReset(pkg string, idx int, f func()) {
	if _, ok := resetFuncs[pkg]; !ok {
		resetPkgs = append(resetPkgs, pkg)
	}
	l := append(resetFuncs[pkg], resetEntry{idx, f})
	sort.SliceStable(l, func(i, j int) bool { return l[i].idx < l[j].idx })
	resetFuncs[pkg] = l
}

// ResetGlobals re-initialises the package-level variables of the code under test.
func ResetGlobals() {
	for _, p := range resetPkgs {
		for _, e := range resetFuncs[p] {
			e.f()
		}
	}
}

// ---------------------------------------------------------------- executions

// Waiter is a blocking condition: the pending operation is enabled when Ready reports true.
type Waiter interface{ Ready() bool }

type Thread struct {
	ID     int
	Name   string
	daemon bool
	wake   chan struct{}
	wait   Waiter
	fresh  bool // has not reached a scheduling point yet
	idle   bool // enabled only when no other thread is
	what   string
	done   bool
	x      *Exec
	fn     func()
}

type Choice struct {
	N      int32
	Pick   int32
	Before int32 // deviations spent before this choice
	Paid   bool  // picking an alternative here costs one deviation
	Kind   byte  // 't' thread, 'c' explicit choice
}

type Exec struct {
	Threads   []*Thread
	running   *Thread
	Trace     []Choice
	prefix    []int32
	spent     int32
	steps     int
	maxSteps  int
	run       bool // scheduling active
	aborting  bool
	skip      bool // the next point of the running thread was already offered
	fail      string
	diverged  string
	doneCh    chan struct{}
	ackCh     chan struct{}
	streak    int
	join      int64
	enabled   []*Thread
	Log       []string
	logging   bool
	AutoClock bool
	DropGo    bool // goroutines started by the code under test never run
	Intr      *Intrusion
	atCall    bool // the running thread is between two calls
	vsteps    int
}

var cur *Exec // nil outside an execution

// Seq-mode deadlock.
type SeqDeadlock struct{ What string }

func (s SeqDeadlock) Error() string { return "blocks forever: " + s.What }

//go:norace
func active() *Exec {
	if x := cur; x != nil && x.run && !x.aborting {
		return x
	}
	return nil
}

// Active reports whether the controlled scheduler is running.
//
//go:norace
func Active() bool { return active() != nil }

//go:norace
func Aborting() bool { return cur != nil && cur.aborting }

// Point is a scheduling point before a non-blocking operation.
//
//go:norace
func Point(what string) {
	x := active()
	if x == nil {
		return
	}
	if x.skip {
		x.skip = false
		return
	}
	x.schedule(nil, false, what)
}

// CallPoint is a scheduling point at the start of a harness-level call; the first point inside the call is
// merged with it, so call stamps are as late as possible.
//
//go:norace
func CallPoint(what string) {
	x := active()
	if x == nil {
		return
	}
	x.skip = false
	if t := x.running; t.fresh {
		t.fresh = false // just started: starting it was the choice
	} else {
		x.atCall = true
		x.schedule(nil, false, what)
		x.atCall = false
	}
	x.skip = true
}

// EndCall closes the window opened by CallPoint.
//
//go:norace
func EndCall() {
	if x := active(); x != nil {
		x.skip = false
	}
}

// Block is a scheduling point before an operation that is enabled only when w is ready.
//
//go:norace
func Block(w Waiter, what string) {
	x := active()
	if x == nil {
		if cur != nil && cur.aborting {
			return
		}
		if !w.Ready() {
			panic(SeqDeadlock{what})
		}
		return
	}
	if x.skip {
		x.skip = false
		if w.Ready() {
			return
		}
	}
	x.schedule(w, false, what)
}

// Idle blocks the calling thread until no other thread is enabled.
//
//go:norace
func Idle() {
	x := active()
	if x == nil {
		return
	}
	x.skip = false
	x.schedule(nil, true, "idle")
}

// Yield gives the other enabled threads a chance (runtime.Gosched): the switch is free.
//
//go:norace
func Yield() {
	x := active()
	if x == nil {
		return
	}
	x.skip = false
	t := x.running
	x.streak = 1 << 30
	x.schedule(nil, false, "yield")
	_ = t
}

const streakLimit = 400

//go:norace
func (x *Exec) isEnabled(t *Thread) bool {
	return !t.done && !t.idle && (t.wait == nil || t.wait.Ready())
}

// collect fills x.enabled: the running thread first if enabled, then ascending ids.
//
//go:norace
func (x *Exec) collect(me *Thread) (meEnabled bool) {
	x.enabled = x.enabled[:0]
	if me != nil && x.isEnabled(me) {
		meEnabled = true
		x.enabled = append(x.enabled, me)
	}
	for _, t := range x.Threads {
		if t != me && x.isEnabled(t) {
			x.enabled = append(x.enabled, t)
		}
	}
	if len(x.enabled) == 0 {
		for _, t := range x.Threads {
			if !t.done && t.idle {
				x.enabled = append(x.enabled, t)
			}
		}
	}
	return
}

//go:norace
func (x *Exec) pick(n int, paid bool, kind byte) int {
	if n <= 1 {
		return 0
	}
	i := len(x.Trace)
	p := int32(0)
	if i < len(x.prefix) {
		p = x.prefix[i]
		if p >= int32(n) {
			x.diverged = fmt.Sprintf("choice %d: recorded pick %d of %d options", i, p, n)
			p = 0
		}
	}
	x.Trace = append(x.Trace, Choice{N: int32(n), Pick: p, Before: x.spent, Paid: paid, Kind: kind})
	if paid && p > 0 {
		x.spent++
	}
	return int(p)
}

// schedule is called by the running thread with its pending operation; it returns when the operation may run.
//
//go:norace
func (x *Exec) schedule(w Waiter, idle bool, what string) {
	me := x.running
	me.fresh = false
	me.wait, me.idle, me.what = w, idle, what
	next := x.decide(me)
	if next == me {
		me.wait, me.idle = nil, false
		return
	}
	x.handoff(me, next)
	me.wait, me.idle = nil, false
}

// Intrusion is a schedule without choices: thread 0 runs, and before each of its steps First, First+Period, ...
// (Max times) thread 1 makes one whole call, or as much of it as it can.
type Intrusion struct{ First, Period, Max int }

//go:norace
func (x *Exec) intrude(me *Thread, meEn bool) *Thread {
	v, w := x.Threads[0], x.Threads[min(1, len(x.Threads)-1)]
	switch {
	case me == v && meEn:
		n := x.vsteps - x.Intr.First
		x.vsteps++
		if n >= 0 && n%x.Intr.Period == 0 && n/x.Intr.Period < x.Intr.Max && x.isEnabled(w) {
			return w
		}
		return v
	case me == w && meEn && !x.atCall:
		return w
	}
	if x.isEnabled(v) {
		return v
	}
	return x.enabled[0]
}

// decide picks the next thread; nil means the execution is over.
//
//go:norace
func (x *Exec) decide(me *Thread) *Thread {
	x.steps++
	if x.steps > x.maxSteps {
		x.failf("execution does not terminate: more than %d steps (livelock)", x.maxSteps)
		return nil
	}
	for {
		if me == nil || me.done {
			over := true
			for _, t := range x.Threads {
				if !t.done && !t.daemon {
					over = false
					break
				}
			}
			if over {
				return nil
			}
		}
		meEn := x.collect(me)
		if len(x.enabled) == 0 {
			if x.AutoClock && advanceToNextTimer() {
				continue
			}
			x.failDeadlock()
			return nil
		}
		var t *Thread
		if x.Intr != nil {
			t = x.intrude(me, meEn)
		} else if meEn && x.streak >= streakLimit && len(x.enabled) > 1 {
			// fairness: a thread that keeps spinning is switched out for free
			t = x.enabled[1+x.pick(len(x.enabled)-1, false, 't')]
		} else {
			t = x.enabled[x.pick(len(x.enabled), meEn, 't')]
		}
		if t == me {
			x.streak++
		} else {
			x.streak = 0
		}
		if x.logging {
			x.Log = append(x.Log, fmt.Sprintf("%s: %s", t.Name, t.what))
		}
		return t
	}
}

//go:norace
func (x *Exec) failf(f string, a ...any) {
	if x.fail == "" {
		x.fail = fmt.Sprintf(f, a...)
	}
}

//go:norace
func (x *Exec) failDeadlock() {
	var b strings.Builder
	for _, t := range x.Threads {
		if !t.done && !t.daemon {
			fmt.Fprintf(&b, " %s waits at %s;", t.Name, t.what)
		}
	}
	x.failf("deadlock:%s", b.String())
}

//go:norace
func (x *Exec) handoff(me, next *Thread) {
	raceDisable()
	x.running = next
	if next == nil {
		x.doneCh <- struct{}{}
	} else {
		next.wake <- struct{}{}
	}
	<-me.wake
	raceEnable()
	if x.aborting {
		runtime.Goexit()
	}
}

//go:norace
func (x *Exec) finish(t *Thread) {
	t.done = true
	RaceReleaseMerge(unsafe.Pointer(&x.join))
	raceDisable()
	if x.aborting {
		x.ackCh <- struct{}{}
		raceEnable()
		return
	}
	x.skip = false
	next := x.decide(t)
	x.running = next
	if next == nil {
		x.doneCh <- struct{}{}
	} else {
		next.wake <- struct{}{}
	}
	raceEnable()
}

//go:norace
func (t *Thread) start() {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func (t *Thread) abortedEarly() bool { return t.x.aborting }

func (t *Thread) main() {
	t.start()
	defer t.x.finish(t)
	if t.abortedEarly() {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			t.x.threadPanic(t, r)
		}
	}()
	t.fn()
}

//go:norace
func (x *Exec) threadPanic(t *Thread, r any) {
	if x.aborting {
		return
	}
	x.failf("panic in %s: %v\n%s", t.Name, r, trimStack())
}

func trimStack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

//go:norace
func (x *Exec) add(name string, daemon bool, fn func()) *Thread {
	t := &Thread{ID: len(x.Threads), Name: name, daemon: daemon, wake: make(chan struct{}, 1), x: x, fn: fn, what: "start", fresh: true}
	x.Threads = append(x.Threads, t)
	return t
}

// Spawn adds a harness thread to an execution being set up.
func (x *Exec) Spawn(name string, fn func()) {
	t := x.add(name, false, fn)
	go t.main()
}

// Go is the go statement of the code under test: outside an execution it is refused quietly (the goroutine
// never runs), inside it becomes a daemon thread of the execution.
func Go(fn func()) {
	x := cur
	if x == nil {
		if SeqGo != nil {
			SeqGo(fn)
		}
		return
	}
	if Aborting() || x.DropGo {
		return
	}
	t := x.add(fmt.Sprintf("go%d", len(x.Threads)), true, fn)
	go t.main()
}

// SeqGo, if set, receives goroutines started outside executions.
var SeqGo func(func())

// Choose resolves explicit nondeterminism: 0..n-1. Alternatives cost a deviation if paid.
//
//go:norace
func Choose(n int, paid bool) int {
	x := cur
	if x == nil || x.aborting {
		return 0
	}
	return x.pick(n, paid, 'c')
}

// Failf records a violation of the running execution.
//
//go:norace
func Failf(f string, a ...any) {
	if x := cur; x != nil && !x.aborting {
		x.failf(f, a...)
	}
}

// ---------------------------------------------------------------- running one execution

// Program sets up one execution: it builds the objects, spawns threads on x, and returns the final check.
type Program func(x *Exec) (post func() error)

type Outcome struct {
	Fail     string
	Diverged string
	Trace    []Choice
	Steps    int
	Races    int
	Log      []string
}

type protect struct{ err string }

func (p *protect) do(f func()) {
	defer func() {
		if r := recover(); r != nil {
			p.err = fmt.Sprintf("panic: %v\n%s", r, trimStack())
		}
	}()
	f()
}

var traceBuf []Choice

// RunOnce executes prog under the given choice prefix (then default choices).
//
//go:norace
func RunOnce(prog Program, prefix []int32, maxSteps int, logging bool) Outcome {
	ResetGlobals()
	ResetClock()
	ResetTicks()
	x := &Exec{prefix: prefix, maxSteps: maxSteps, doneCh: make(chan struct{}, 1), ackCh: make(chan struct{}, 1),
		Trace: traceBuf[:0], logging: logging, AutoClock: true}
	races := RaceErrors()
	cur = x
	var post func() error
	var pr protect
	pr.do(func() { post = prog(x) })
	if pr.err != "" {
		x.failf("setup: %s", pr.err)
	} else if len(x.Threads) > 0 {
		first := x.decideFirst()
		if first != nil {
			x.run = true
			x.kick(first)
			RaceAcquire(unsafe.Pointer(&x.join))
			x.run = false
		}
	}
	// sequential final check; daemons stay where they are
	if x.fail == "" && post != nil {
		ResetTicks()
		var perr error
		pr.do(func() { perr = post() })
		if pr.err != "" {
			x.failf("after the execution: %s", pr.err)
		} else if perr != nil {
			x.failf("%s", perr.Error())
		}
	}
	x.abortAll()
	cur = nil
	traceBuf = x.Trace
	return Outcome{Fail: x.fail, Diverged: x.diverged, Trace: x.Trace, Steps: x.steps, Races: RaceErrors() - races, Log: x.Log}
}

//go:norace
func (x *Exec) decideFirst() *Thread { return x.decide(nil) }

//go:norace
func (x *Exec) kick(first *Thread) {
	raceDisable()
	x.running = first
	first.wake <- struct{}{}
	<-x.doneCh
	raceEnable()
}

//go:norace
func (x *Exec) abortAll() {
	x.aborting = true
	raceDisable()
	for i := 0; i < len(x.Threads); i++ {
		t := x.Threads[i]
		if !t.done {
			t.wake <- struct{}{}
			<-x.ackCh
		}
	}
	raceEnable()
}

// ---------------------------------------------------------------- exploration

type Stats struct {
	Execs   int64 // complete executions (schedules)
	Nodes   int64 // distinct choice points (nodes of the schedule tree with more than one option)
	Steps   int64 // operations executed
	MaxDev  int32
	Horizon int // longest choice sequence
}

func (s *Stats) Add(o Stats) {
	s.Execs += o.Execs
	s.Nodes += o.Nodes
	s.Steps += o.Steps
	if o.MaxDev > s.MaxDev {
		s.MaxDev = o.MaxDev
	}
	if o.Horizon > s.Horizon {
		s.Horizon = o.Horizon
	}
}

type Explorer struct {
	Bound    int32
	MaxSteps int
	MaxExecs int64       // 0: unlimited
	Stop     func() bool // polled between executions
	Stats    Stats
}

type Failure struct {
	Msg    string
	Picks  []int32
	Race   bool
	Broken bool // the explorer's own determinism was violated
}

// Explore enumerates every execution of prog with at most Bound deviations. complete is false if a cap or
// Stop ended the enumeration early.
func (e *Explorer) Explore(prog Program) (f *Failure, complete bool) {
	if e.MaxSteps == 0 {
		e.MaxSteps = 20000
	}
	var prefix []int32
	var n int64
	for {
		o := RunOnce(prog, prefix, e.MaxSteps, false)
		n++
		e.Stats.Execs++
		e.Stats.Steps += int64(o.Steps)
		if d := len(o.Trace) - len(prefix); d > 0 {
			e.Stats.Nodes += int64(d)
		}
		if len(o.Trace) > e.Stats.Horizon {
			e.Stats.Horizon = len(o.Trace)
		}
		if k := len(o.Trace); k > 0 {
			c := o.Trace[k-1]
			dev := c.Before
			if c.Paid && c.Pick > 0 {
				dev++
			}
			if dev > e.Stats.MaxDev {
				e.Stats.MaxDev = dev
			}
		}
		picks := func() []int32 {
			r := make([]int32, len(o.Trace))
			for i, c := range o.Trace {
				r[i] = c.Pick
			}
			return r
		}
		if o.Diverged != "" || len(o.Trace) < len(prefix) {
			return &Failure{Msg: "replay diverged: " + o.Diverged, Picks: picks(), Broken: true}, false
		}
		if o.Fail != "" {
			return &Failure{Msg: o.Fail, Picks: picks()}, false
		}
		if o.Races > 0 {
			return &Failure{Msg: "data race", Picks: picks(), Race: true}, false
		}
		i := len(o.Trace) - 1
		for ; i >= 0; i-- {
			c := o.Trace[i]
			if c.Pick+1 >= c.N {
				continue
			}
			cost := c.Before
			if c.Paid {
				cost++
			}
			if cost <= e.Bound {
				break
			}
		}
		if i < 0 {
			return nil, true
		}
		prefix = prefix[:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, o.Trace[j].Pick)
		}
		prefix = append(prefix, o.Trace[i].Pick+1)
		if e.MaxExecs > 0 && n >= e.MaxExecs {
			return nil, false
		}
		if e.Stop != nil && e.Stop() {
			return nil, false
		}
	}
}

var stamp int64

// Stamp is a global event counter for recording histories.
//
//go:norace
func Stamp() int64 { stamp++; return stamp }

// RunningID is the id of the running thread.
//
//go:norace
func RunningID() int {
	if cur != nil && cur.running != nil {
		return cur.running.ID
	}
	return -1
}

// Steps is the number of loop iterations and calls since ResetTicks.
//
//go:norace
func Steps() int64 { return loopTicks + callTicks }

// Locks counts the locking calls (mutexes, and read locks) of the instrumented code. Meaningful in single-threaded runs.
var Locks int64

//go:norace
func CountLock() { Locks++ }

//go:norace
func addSteps(n int) { loopTicks += int64(n) }
