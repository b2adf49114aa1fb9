// The harness: every check is a list of jobs, each an exhaustive exploration of a bounded space of
// executions of the real code. The parent process hands jobs to worker processes and merges the results.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type Check struct {
	ID      string
	Bounds  string                    // what is enumerated, in words
	Assume  []string                  // assumptions recorded in the evidence
	Jobs    func(thorough bool) []Job // explored in the plain build
	RaceToo bool                      // also explore the race jobs under the race detector
}

type Job struct {
	Name string
	Race bool // run in the -race build
	Conc bool // needs the instrumented build
	Run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	id := flag.String("check", "", "property id")
	thorough := flag.Bool("thorough", false, "")
	worker := flag.Bool("worker", false, "")
	raceBin := flag.String("racebin", "", "")
	replay := flag.String("replay", "", "replay file")
	verif := flag.String("verif", "/verif", "")
	deadline := flag.Float64("deadline", 600, "soft deadline in seconds")
	nw := flag.Int("j", 8, "workers")
	list := flag.Bool("list", false, "")
	only := flag.String("only", "", "run only jobs whose name contains this")
	needRace := flag.Bool("needrace", false, "exit 0 if the check has jobs for the race build")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
		return
	}
	ck := checks[*id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *id)
		os.Exit(2)
	}
	if *needRace {
		for _, j := range ck.jobs(*thorough) {
			if j.Race {
				os.Exit(0)
			}
		}
		os.Exit(1)
	}
	if *worker {
		workerMain(ck, *thorough)
		return
	}
	p := &parent{ck: ck, thorough: *thorough, raceBin: *raceBin, verif: *verif, nw: *nw, only: *only, verbose: *verbose,
		end: time.Now().Add(time.Duration(*deadline * float64(time.Second)))}
	if *replay != "" {
		os.Exit(p.replayFile(*replay))
	}
	os.Exit(p.main())
}
