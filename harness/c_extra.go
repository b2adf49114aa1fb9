package main

import (
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// ---------------------------------------------------------------- C06: concurrent changes of one entry's deadline

type exOp struct {
	set bool // SetExpiration(start + d), else AddExpiration(d)
	d   time.Duration
}

func (o exOp) String() string {
	if o.set {
		return fmt.Sprintf("SetExpiration(start+%v)", o.d)
	}
	return fmt.Sprintf("AddExpiration(%v)", o.d)
}

// the deadlines every order of the operations can lead to (program order within a thread kept)
func exOutcomes(dl time.Duration, threads [][]exOp, into map[time.Duration]bool) {
	end := true
	for i, t := range threads {
		if len(t) == 0 {
			continue
		}
		end = false
		rest := append([][]exOp{}, threads...)
		rest[i] = t[1:]
		if t[0].set {
			exOutcomes(t[0].d, rest, into)
		} else {
			exOutcomes(dl+t[0].d, rest, into)
		}
	}
	if end {
		into[dl] = true
	}
}

func exJob(t bool) Job {
	return Job{Name: "concurrent deadlines", Conc: true, Run: func(c *Ctx) {
		ops := []exOp{{false, 700 * ms}, {false, 3 * time.Second}, {false, -400 * ms}, {true, 2 * time.Second}, {true, 1300 * ms}}
		run := func(stored bool, threads [][]exOp, look bool) bool {
			out := map[time.Duration]bool{}
			exOutcomes(time.Second, threads, out)
			return c.Conc(ConcSpec{Name: "synccache entry", Bound: int32(pick(t, 4, 8)), Desc: func() []string {
				r := []string{fmt.Sprintf("entry with a lifetime of 1s, stored %v, other goroutine looks it up %v", stored, look)}
				for i, th := range threads {
					r = append(r, fmt.Sprintf("T%d %v", i, th))
				}
				return r
			}, Prog: func(x *core.Exec) func() error {
				x.DropGo = true
				start := core.ClockNow()
				var e *scEntry
				sc := synccache.NewSyncCache[int, int](time.Second)
				if stored {
					e, _ = sc.LoadOrStore(1, 1, time.Second)
				} else {
					e = synccache.NewEntry(1, time.Second)
				}
				var err error
				for i, th := range threads {
					x.Spawn(fmt.Sprintf("T%d", i), func() {
						for _, o := range th {
							core.CallPoint("call")
							if o.set {
								e.SetExpiration(time.Unix(0, start+int64(o.d)))
							} else {
								e.AddExpiration(o.d)
							}
							core.EndCall()
						}
					})
				}
				if look {
					// every reachable deadline is in the future: the entry is live throughout
					x.Spawn("look", func() {
						for range 2 {
							core.CallPoint("look")
							if e.IsExpired() {
								err = fmt.Errorf("IsExpired although every deadline is in the future")
							}
							if stored {
								if g, ok := sc.Load(1); !ok || g != e {
									err = fmt.Errorf("Load does not return the live entry")
								}
							}
							core.EndCall()
						}
					})
				}
				return func() error {
					if err != nil {
						return err
					}
					// find the deadline: the first instant the entry is expired, in steps of a millisecond
					got := time.Duration(-1)
					for at := time.Duration(0); at <= 10*time.Second; at += 100 * ms {
						for _, off := range []time.Duration{0, ms} {
							if w := start + int64(at+off) - core.ClockNow(); w > 0 {
								core.AdvanceQuiet(w)
							}
							if got < 0 && e.IsExpired() {
								got = at
							}
						}
						if got >= 0 {
							break
						}
					}
					if !out[got] {
						return fmt.Errorf("the deadline became start+%v; the calls in some order give %v", got, out)
					}
					if stored {
						if _, ok := sc.Load(1); ok {
							return fmt.Errorf("Load returns the entry after its deadline")
						}
					}
					return nil
				}
			}})
		}
		for i, a := range ops {
			for _, b := range ops[i:] {
				for _, stored := range []bool{false, true} {
					if !run(stored, [][]exOp{{a}, {b}}, true) || !run(stored, [][]exOp{{a}, {b}, {ops[0]}}, false) || !run(stored, [][]exOp{{a, ops[1]}, {b}}, false) {
						return
					}
				}
			}
		}
	}}
}

// ---------------------------------------------------------------- race detector jobs of the cache properties

// the conclusions of these properties presuppose executions without data races: the pairs of calls they are
// about also run under the race detector
func raceSC(t bool) []Job {
	fm := c5SC([]int{0, 1}, false)
	if t {
		return fm.jobs("race", true, 16, []int{1, 1}, 2)
	}
	return fm.jobs("race", true, 8, []int{1, 1}, 1)
}

func raceSweep(t bool) []Job {
	fm := c5SC([]int{0, 1}, true)
	if t {
		return fm.jobs("race sweep", true, 16, []int{1}, 2)
	}
	return fm.jobs("race sweep", true, 8, []int{1}, 1)
}

func raceRC(t bool) (r []Job) {
	for _, v := range [][]int{{0, 1, 2}, {3, 4, 5}} {
		if t {
			r = append(r, c5RC(v).jobs(fmt.Sprintf("race%d", v[0]), true, 16, []int{1, 1}, 2)...)
		} else {
			r = append(r, c5RC(v).jobs(fmt.Sprintf("race%d", v[0]), true, 8, []int{1, 1}, 1)...)
		}
	}
	return
}

// a small concurrent part for the properties that are mainly about single-threaded histories
func rcBrief(t bool) []Job {
	grc := []rcOp{rcGet, rcRefresh, rcClear, rcClearFn}
	r := rcJobs("concurrent pairs", false, 16, rcFam('3', mainVariants, rcConfs, grc, []int{1, 1}, "oep", 2, int32(pick(t, 4, 6))))
	return append(r, rcJobs("concurrent 2x1", false, 16, rcFam('3', mainVariants, rcConfs, grc, []int{2, 1}, "oe", 2, 2))...)
}

func scBrief(t bool) []Job {
	all := []string{"live", "expired", "expiring"}
	return scJobs("concurrent pairs", false, 16, scFam(false, all, []int{1, 1}, true, 8, int32(pick(t, 2, 3))))
}
