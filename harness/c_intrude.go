package main

import (
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// One call disturbed again and again: another goroutine makes whole calls at regular places of it, so that every retry
// loop goes round many times (a preemption bound cannot reach that).

const (
	intrCalls = 12
	intrLong  = 300 // with one call again and again
)

func rwIntrusions(what byte, t bool) func(emit func(s *rwScenario) bool) {
	return func(emit func(s *rwScenario) bool) {
		first, period := 12, 12
		if t {
			first, period = 16, 16
		}
		victims := []rwOp{{Kind: rwLoad, K: 1}, {Kind: rwStore, K: 1, A: 10}, {Kind: rwLOS, K: 1, A: 10}, {Kind: rwLAD, K: 1}, {Kind: rwDel, K: 1},
			{Kind: rwSwap, K: 1, A: 10}, {Kind: rwCAS, K: 1, A: 1, B: 10}, {Kind: rwCAD, K: 1, A: 1}, {Kind: rwClear}}
		al := []rwOp{{Kind: rwSwap, K: 1, A: 1}, {Kind: rwSwap, K: 1, A: 20}, {Kind: rwLAD, K: 1}, {Kind: rwClear}, {Kind: rwCAS, K: 1, A: 1, B: 20},
			{Kind: rwStore, K: 1, A: 1}, {Kind: rwCAD, K: 1, A: 1}, {Kind: rwLOS, K: 1, A: 20}, {Kind: rwStore, K: 2, A: 20}, {Kind: rwDel, K: 2}, {Kind: rwRange}}
		var cycles [][]rwOp
		for i, a := range al {
			if writes([]rwOp{a}) {
				cycles = append(cycles, []rwOp{a})
			}
			for j, b := range al {
				if i != j && (t || i < 5 || j < 5) {
					cycles = append(cycles, []rwOp{a, b})
				}
			}
		}
		for ii, in := range rwInits(2, pick(t, 3, 4), false) {
			for _, v := range victims {
				for _, cy := range cycles {
					var ops []rwOp
					calls := intrCalls
					if len(cy) == 1 && ii < 8 && v.Kind != rwClear {
						calls = intrLong
					}
					for len(ops) < calls {
						ops = append(ops, cy[len(ops)%len(cy)])
					}
					for f := 0; f < first; f++ {
						for p := 1; p <= period; p++ {
							s := &rwScenario{init: in, threads: [][]rwOp{{v}, ops}, what: what, intr: &core.Intrusion{First: f, Period: p, Max: calls}}
							if !emit(s) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func rrIntrusions(t bool) func(emit func(s *rrScenario) bool) {
	return func(emit func(s *rrScenario) bool) {
		first, period := 8, 8
		if t {
			first, period = 16, 16
		}
		al := []rwOp{{Kind: rwStore, K: 1, A: 20}, {Kind: rwStore, K: 2, A: 20}, {Kind: rwStore, K: 3, A: 20}, {Kind: rwDel, K: 1}, {Kind: rwDel, K: 2},
			{Kind: rwDel, K: 3}, {Kind: rwClear}, {Kind: rwLoad, K: 3}}
		var cycles [][]rwOp
		for i, a := range al {
			for j, b := range al {
				if i != j {
					cycles = append(cycles, []rwOp{a, b})
				}
			}
		}
		for _, in := range rwInits(3, pick(t, 3, 4), false) {
			for v := 0; v < 3; v++ {
				for n, cy := range cycles {
					var ops []rwOp
					for len(ops) < intrCalls {
						ops = append(ops, cy[len(ops)%len(cy)])
					}
					for f := 0; f < first; f++ {
						for p := 1; p <= period; p++ {
							s := &rrScenario{init: in, threads: [][]rwOp{ops}, order: n % 2, intr: &core.Intrusion{First: f, Period: p, Max: intrCalls}}
							if v == 1 {
								s.nested = true
							} else if v == 2 {
								s.inner = []rwOp{{Kind: rwStore, K: 3, A: 10}}
							}
							if !emit(s) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func scIntrusions(cb, t bool) func(emit func(s *scScenario) bool) {
	return func(emit func(s *scScenario) bool) {
		first, period := 16, 16
		if t {
			first, period = 32, 32
		}
		victims := []scOp{{Kind: scLoad, K: 1}, {Kind: scStore, K: 1, A: 3, D: scLong}, {Kind: scLOS, K: 1, A: 3, D: scLong}, {Kind: scLOS, K: 1, A: 3, D: -time.Hour},
			{Kind: scLAD, K: 1}, {Kind: scDel, K: 1}, {Kind: scCAD, K: 1}, {Kind: scCVAD, K: 1, A: 1}}
		if cb {
			victims = append(victims, scOp{Kind: scClear})
		}
		al := []scOp{{Kind: scStore, K: 1, A: 1, D: scLong}, {Kind: scStore, K: 1, A: 4, D: -time.Hour}, {Kind: scStore, K: 1, A: 1, D: -time.Hour},
			{Kind: scStore, K: 1, A: 4, D: scLong}, {Kind: scLAD, K: 1}, {Kind: scLOS, K: 1, A: 4, D: scLong}, {Kind: scDel, K: 1},
			{Kind: scStore, K: 2, A: 5, D: scLong}, {Kind: scLoad, K: 1}}
		var cycles [][]scOp
		for i, a := range al {
			cycles = append(cycles, []scOp{a})
			for j, b := range al {
				if i != j && (t || i < 6 && j < 6) {
					cycles = append(cycles, []scOp{a, b})
				}
			}
		}
		for _, life := range []time.Duration{scLong, scShort} {
			inits := append([][]scOp{nil}, scInits(life)...)
			if !t {
				inits = inits[:5]
			}
			for ii, in := range inits {
				if life == scShort {
					in = append(append([]scOp{}, in...), scOp{Kind: scAdvance, D: 10 * ms})
				}
				for _, v := range victims {
					for _, cy := range cycles {
						var ops []scOp
						calls := intrCalls
						if len(cy) == 1 && ii < 3 && v.Kind != scClear {
							calls = intrLong
							if cb {
								calls = 40 // an expired entry may go at any time: the orders multiply
							}
						}
						for len(ops) < calls {
							ops = append(ops, cy[len(ops)%len(cy)])
						}
						for f := 0; f < first; f++ {
							for p := 1; p <= period; p++ {
								s := &scScenario{init: in, threads: [][]scOp{{v}, ops}, cb: cb, intr: &core.Intrusion{First: f, Period: p, Max: calls}}
								if !emit(s) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

func rcIntrusions(what byte, t bool) func(emit func(s *rcScenario) bool) {
	return func(emit func(s *rcScenario) bool) {
		first, period, variants := 8, 8, mainVariants
		if t {
			first, period, variants = 16, 16, allVariants
		}
		al := []rcOp{rcGet, rcRefresh, rcClear}
		victims := []rcOp{rcGet, rcRefresh, rcClear}
		if what == '0' {
			al, victims = al[:2], victims[:2]
		}
		var cycles [][]rcOp
		for i, a := range al {
			cycles = append(cycles, []rcOp{a})
			for j, b := range al {
				if i != j {
					cycles = append(cycles, []rcOp{a, b})
				}
			}
		}
		for _, sv := range variants {
			for _, cf := range rcConfs {
				if cf.clock > 0 {
					continue
				}
				for _, in := range cf.inits {
					for _, v := range victims {
						for _, cy := range cycles {
							var ops []rcOp
							for len(ops) < intrCalls {
								ops = append(ops, cy[len(ops)%len(cy)])
							}
							for _, sc := range []string{"oooooooooooooooo", "eeeeeeeeeeeeeeee", "oeoeoeoeoeoeoeoe", "eooeooeooeooeooe", "popepopepopepope"} {
								for f := 0; f < first; f++ {
									for p := 1; p <= period; p++ {
										s := &rcScenario{variant: sv, maxAge: cf.maxAge, errAge: cf.errAge, init: in, script: sc, threads: [][]rcOp{{v}, ops}, what: what,
											intr: &core.Intrusion{First: f, Period: p, Max: intrCalls}}
										if !emit(s) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func intrSteps(i *core.Intrusion) int {
	if i == nil {
		return 0
	}
	return 200000
}

func intrDesc(i *core.Intrusion) string {
	return fmt.Sprintf("one call of T1 before steps %d, %d, %d, ... of T0", i.First, i.First+i.Period, i.First+2*i.Period)
}

func init() {
	for _, w := range []struct {
		id   string
		what byte
	}{{"C01", 'l'}, {"C02", 'n'}, {"C05", 'c'}} {
		extraJobs[w.id] = append(extraJobs[w.id], func(t bool) []Job { return rwJobs("intrusions", w.what, false, 16, rwIntrusions(w.what, t)) })
	}
	extraJobs["C03"] = append(extraJobs["C03"], func(t bool) []Job { return rrJobs("intrusions", false, 16, rrIntrusions(t)) })
	for id, what := range map[string]byte{"C10": '0', "C13": '3'} {
		extraJobs[id] = append(extraJobs[id], func(t bool) []Job { return rcJobs("intrusions", false, 16, rcIntrusions(what, t)) })
	}
	extraJobs["C07"] = append(extraJobs["C07"], func(t bool) []Job { return scJobs("intrusions", false, 16, scIntrusions(false, t)) })
	extraJobs["C08"] = append(extraJobs["C08"], func(t bool) []Job { return scJobs("intrusions", false, 16, scIntrusions(true, t)) })
}
