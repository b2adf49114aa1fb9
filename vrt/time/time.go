// Package time stands in for the clock-dependent part of the standard package, on the virtual clock.
package time

import (
	"time"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

func Now() time.Time                              { return core.Time() }
func Since(t time.Time) time.Duration             { return core.Time().Sub(t) }
func Until(t time.Time) time.Duration             { return t.Sub(core.Time()) }
func Sleep(d time.Duration)                       { core.Sleep(d) }
func After(d time.Duration) *core.Chan[time.Time] { return NewTimer(d).C }
func Tick(d time.Duration) *core.Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C *core.Chan[time.Time]
	t core.Timer
}

func when(d time.Duration) int64 {
	if d < 0 {
		d = 0
	}
	w := core.ClockNow() + int64(d)
	if w < core.ClockNow() {
		w = 1<<63 - 1
	}
	return w
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: core.NewChan[time.Time](1)}
	t.t.Fire = func(at int64) { t.C.TrySend(time.Unix(0, at)) }
	core.Point("time.NewTimer")
	t.t.StartAt(when(d), 0)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	t.t.Fire = func(int64) { core.Go(f) }
	core.Point("time.AfterFunc")
	t.t.StartAt(when(d), 0)
	return t
}

func (t *Timer) Stop() bool { core.Point("Timer.Stop"); return t.t.StopTimer() }
func (t *Timer) Reset(d time.Duration) bool {
	core.Point("Timer.Reset")
	was := t.t.StopTimer()
	if t.C != nil {
		t.C.Drain()
	}
	t.t.StartAt(when(d), 0)
	return was
}

type Ticker struct {
	C *core.Chan[time.Time]
	t core.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: core.NewChan[time.Time](1)}
	t.t.Fire = func(at int64) { t.C.TrySend(time.Unix(0, at)) }
	core.Point("time.NewTicker")
	t.t.StartAt(when(d), int64(d))
	return t
}

func (t *Ticker) Stop() { core.Point("Ticker.Stop"); t.t.StopTimer() }
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	core.Point("Ticker.Reset")
	t.t.StopTimer()
	t.C.Drain()
	t.t.StartAt(when(d), int64(d))
}
