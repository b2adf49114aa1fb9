package core

import (
	"time"
	"unsafe"
)

// The virtual clock. Epoch is an ordinary wall-clock date on a millisecond boundary.
const Epoch int64 = 1_700_000_000_000_000_000

var (
	now    int64 = Epoch
	timers []*Timer
	tseq   int64
)

type Timer struct {
	When   int64
	Period int64
	Fire   func(at int64)
	seq    int64
	active bool
}

//go:norace
func ResetClock() {
	now = Epoch
	timers = timers[:0]
	tseq = 0
}

// Now reads the clock (a scheduling point of its own when other threads may move the clock).
//
//go:norace
func Now() int64 {
	Point("time.Now")
	return now
}

// ClockNow reads the clock without a scheduling point.
//
//go:norace
func ClockNow() int64 { return now }

//go:norace
func Time() time.Time { return time.Unix(0, Now()) }

//go:norace
func (t *Timer) StartAt(when, period int64) {
	RaceReleaseMerge(unsafe.Pointer(t)) // starting a timer happens before it fires
	tseq++
	t.seq = tseq
	t.When, t.Period = when, period
	if !t.active {
		t.active = true
		timers = append(timers, t)
	}
}

//go:norace
func (t *Timer) StopTimer() bool {
	was := t.active
	t.active = false
	for i, u := range timers {
		if u == t {
			copy(timers[i:], timers[i+1:])
			timers = timers[:len(timers)-1]
			break
		}
	}
	return was
}

//go:norace
func earliest() *Timer {
	var b *Timer
	for _, t := range timers {
		if b == nil || t.When < b.When || (t.When == b.When && t.seq < b.seq) {
			b = t
		}
	}
	return b
}

//go:norace
func fireOne(t *Timer) {
	if t.When > now {
		now = t.When
	}
	if t.Period > 0 {
		t.When += t.Period
	} else {
		t.StopTimer()
	}
	RaceAcquire(unsafe.Pointer(t))
	t.Fire(now)
}

//go:norace
func advanceToNextTimer() bool {
	t := earliest()
	if t == nil {
		return false
	}
	fireOne(t)
	return true
}

// Advance moves the clock by d, firing due timers in order. It is one scheduling step.
//
//go:norace
func Advance(d time.Duration) {
	Point("advance clock")
	AdvanceQuiet(int64(d))
}

//go:norace
func AdvanceQuiet(d int64) {
	target := now + d
	for {
		t := earliest()
		if t == nil || t.When > target {
			break
		}
		fireOne(t)
	}
	if target > now {
		now = target
	}
}

type sleeper struct{ until int64 }

//go:norace
func (s *sleeper) Ready() bool { return now >= s.until }

//go:norace
func nop(int64) {}

//go:norace
func Sleep(d time.Duration) {
	if d <= 0 {
		Yield()
		return
	}
	if active() == nil {
		if !Aborting() {
			AdvanceQuiet(int64(d))
		}
		return
	}
	until := now + int64(d)
	t := &Timer{Fire: nop}
	t.StartAt(until, 0)
	Block(&sleeper{until}, "time.Sleep")
}
