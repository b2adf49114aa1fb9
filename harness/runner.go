package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// Violation is a property violation with the witness that reproduces it.
type Violation struct {
	Msg   string   `json:"msg"`
	Ops   []string `json:"ops,omitempty"`   // operation history, in words
	Hist  []int32  `json:"hist,omitempty"`  // operation indices (sequential)
	Picks []int32  `json:"picks,omitempty"` // scheduling choices (concurrent)
	Sub   int      `json:"sub"`             // which scenario or configuration of the job
	Kind  string   `json:"kind,omitempty"`
	Log   []string `json:"log,omitempty"`
}

// Finding is the failure of one specific named case: a violation, unless KNOWN_FINDINGS.txt lists the case.
type Finding struct {
	Case string `json:"case"`
	Msg  string `json:"msg"`
	Sub  int    `json:"sub"`
}

type Result struct {
	Job       int        `json:"job"`
	States    int64      `json:"states"`
	Trans     int64      `json:"trans"`
	Execs     int64      `json:"execs"`
	Outcomes  int64      `json:"outcomes"`
	Scenarios int64      `json:"scenarios"`
	Complete  bool       `json:"complete"`
	Capped    string     `json:"capped,omitempty"`
	Violation *Violation `json:"violation,omitempty"`
	Broken    string     `json:"broken,omitempty"`
	Samples   []string   `json:"samples,omitempty"`
	Findings  []Finding  `json:"findings,omitempty"`
	Secs      float64    `json:"secs"`
}

// Ctx is what a job reports into.
type Ctx struct {
	Result
	Thorough bool
	end      time.Time
	witness  *Violation // replay this instead of exploring
	polls    int
	late     bool
	outcomes map[uint64]struct{}
}

func (c *Ctx) Stop() bool {
	if c.late || c.Violation != nil || c.Broken != "" {
		return true
	}
	c.polls++
	if c.polls&63 == 0 && time.Now().After(c.end) {
		c.late = true
		c.Complete = false
		c.Capped = "deadline"
	}
	return c.late
}

func (c *Ctx) Sample(f string, a ...any) {
	if len(c.Samples) < 2 {
		c.Samples = append(c.Samples, fmt.Sprintf(f, a...))
	}
}

func (c *Ctx) Fail(v *Violation) {
	if c.Violation == nil {
		c.Violation = v
	}
}

type request struct {
	Job     int        `json:"job"`
	End     int64      `json:"end"`
	Witness *Violation `json:"witness,omitempty"`
}

func (ck *Check) jobs(thorough bool) []Job {
	js := ck.Jobs(thorough)
	for _, f := range extraJobs[ck.ID] {
		js = append(js, f(thorough)...)
	}
	return js
}

func workerMain(ck *Check, thorough bool) {
	runtime.GOMAXPROCS(1)
	jobs := ck.jobs(thorough)
	in := bufio.NewReader(os.Stdin)
	out := os.Stdout
	os.Stdout = os.Stderr // nothing the code prints can reach the protocol
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq request
		if json.Unmarshal(line, &rq) != nil || rq.Job >= len(jobs) {
			os.Exit(4)
		}
		c := &Ctx{Thorough: thorough, end: time.Unix(0, rq.End), witness: rq.Witness}
		c.Job = rq.Job
		c.Complete = true
		t := time.Now()
		core.MapOrder = core.OrderAsc
		core.ResetNames()
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Broken = fmt.Sprintf("harness panic: %v\n%s", r, stack())
				}
			}()
			jobs[rq.Job].Run(c)
		}()
		c.Secs = time.Since(t).Seconds()
		b, _ := json.Marshal(c.Result)
		out.Write(append(b, '\n'))
	}
}

func stack() string {
	b := make([]byte, 6000)
	return string(b[:runtime.Stack(b, false)])
}

// ---------------------------------------------------------------- parent

type parent struct {
	ck       *Check
	thorough bool
	raceBin  string
	verif    string
	nw       int
	end      time.Time
	only     string
	verbose  bool

	mu      sync.Mutex
	results []*Result
	stop    bool
	notes   []string
}

type child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(append([]byte{}, t.b[:1<<14]...), t.b[len(t.b)-(1<<14):]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func (p *parent) spawn(race bool) (*child, error) {
	bin, _ := os.Executable()
	if race {
		bin = p.raceBin
	}
	args := []string{"-worker", "-check", p.ck.ID}
	if p.thorough {
		args = append(args, "-thorough")
	}
	c := &child{cmd: exec.Command(bin, args...), stderr: &tail{}}
	c.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=2", "GOTRACEBACK=single")
	c.cmd.Stderr = c.stderr
	var err error
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := c.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.out = bufio.NewReaderSize(o, 1<<16)
	return c, c.cmd.Start()
}

func (c *child) close() {
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
}

// ask runs one job; crash is set if the worker died. A worker that stays silent for long after the soft
// deadline is given up on.
func (p *parent) ask(c *child, rq request) (r *Result, crash string, stuck bool) {
	b, _ := json.Marshal(rq)
	if _, err := c.in.Write(append(b, '\n')); err != nil {
		c.cmd.Wait()
		return nil, "worker gone: " + c.stderr.String(), false
	}
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		l, e := c.out.ReadBytes('\n')
		ch <- ans{l, e}
	}()
	wait := time.Until(p.end) + 60*time.Second
	if wait < 60*time.Second {
		wait = 60 * time.Second
	}
	select {
	case a := <-ch:
		if a.err != nil {
			c.cmd.Wait()
			return nil, fmt.Sprintf("worker ended (%v): %s", c.cmd.ProcessState, c.stderr.String()), false
		}
		r = &Result{}
		if err := json.Unmarshal(a.line, r); err != nil {
			return nil, "bad answer: " + string(a.line), false
		}
		return r, "", false
	case <-time.After(wait):
		return nil, "", true
	}
}

func (p *parent) main() int {
	t0 := time.Now()
	all := p.ck.jobs(p.thorough)
	p.results = make([]*Result, len(all))
	var plain, race []int
	for i, j := range all {
		if p.only != "" && !strings.Contains(j.Name, p.only) {
			continue
		}
		if j.Conc && !core.Instrumented {
			p.note("skipped " + j.Name + ": the instrumented build failed")
			continue
		}
		if j.Race {
			if p.raceBin == "" {
				p.note("skipped " + j.Name + ": no race build")
				continue
			}
			race = append(race, i)
		} else {
			plain = append(plain, i)
		}
	}
	// one queue: race jobs first (they are slower)
	type item struct {
		job  int
		race bool
	}
	queue := make(chan item, len(all))
	for _, i := range race {
		queue <- item{i, true}
	}
	for _, i := range plain {
		queue <- item{i, false}
	}
	close(queue)
	var wg sync.WaitGroup
	for w := 0; w < p.nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var ch [2]*child
			defer func() {
				for _, c := range ch {
					if c != nil {
						c.close()
					}
				}
			}()
			for it := range queue {
				if p.stopped() {
					continue
				}
				if time.Now().After(p.end) {
					p.put(it.job, &Result{Job: it.job, Capped: "deadline"})
					continue
				}
				k := 0
				if it.race {
					k = 1
				}
				if ch[k] == nil {
					c, err := p.spawn(it.race)
					if err != nil {
						p.put(it.job, &Result{Job: it.job, Broken: err.Error()})
						continue
					}
					ch[k] = c
				}
				r, crash, stuck := p.ask(ch[k], request{Job: it.job, End: p.end.UnixNano()})
				if stuck {
					ch[k].close()
					ch[k] = nil
					p.put(it.job, &Result{Job: it.job, Capped: "worker gave no answer"})
					continue
				}
				if crash != "" {
					ch[k].close()
					ch[k] = nil
					r = &Result{Job: it.job, Violation: &Violation{Kind: "crash", Msg: crash}}
				}
				p.put(it.job, r)
			}
		}()
	}
	wg.Wait()

	// classify
	code := 0
	var viol *Result
	broken := 0
	known := p.known()
	for _, r := range p.results {
		if r == nil {
			continue
		}
		for _, f := range r.Findings {
			if known[f.Case] {
				fmt.Printf("KNOWN-FINDING: property=%s case=%s %s\n", p.ck.ID, f.Case, f.Msg)
				p.note("known finding: " + f.Case + ": " + f.Msg)
			} else if r.Violation == nil {
				r.Violation = &Violation{Kind: "case", Msg: f.Msg, Ops: []string{f.Case}, Sub: f.Sub}
			}
		}
	}
	for i, r := range p.results {
		if r == nil {
			continue
		}
		if p.verbose {
			fmt.Fprintf(os.Stderr, "%6.2fs %s: scen=%d states=%d trans=%d execs=%d outcomes=%d complete=%v %s\n", r.Secs, all[i].Name, r.Scenarios, r.States, r.Trans, r.Execs, r.Outcomes, r.Complete, r.Capped)
		}
		if r.Broken != "" {
			broken++
			fmt.Fprintf(os.Stderr, "BROKEN job %s: %s\n", all[i].Name, r.Broken)
			p.note("job " + all[i].Name + " gave no verdict: " + firstLine(r.Broken))
		}
		if r.Violation != nil && viol == nil {
			if p.confirm(all[i], r) {
				viol = r
			} else {
				fmt.Fprintf(os.Stderr, "UNCONFIRMED in %s: %s\n", all[i].Name, r.Violation.Msg)
				p.note("an alarm in " + all[i].Name + " did not reproduce and was discarded: " + firstLine(r.Violation.Msg))
				r.Complete = false
			}
		}
	}
	replay := ""
	if viol != nil {
		code = 1
		replay = p.writeReplay(all[viol.Job], viol)
	} else if broken > 0 {
		code = 2
	}
	p.evidence(all, time.Since(t0).Seconds(), viol)
	if viol != nil {
		fmt.Printf("%s\n", viol.Violation.describe(all[viol.Job].Name))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ck.ID, replay)
	}
	return code
}

// known reads the cases listed as unrepaired findings of this property: lines "known: property=<id> case=<name> ...".
func (p *parent) known() map[string]bool {
	r := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(p.verif, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+p.ck.ID && strings.HasPrefix(f[2], "case=") {
			r[strings.TrimPrefix(f[2], "case=")] = true
		}
	}
	return r
}

func (v *Violation) describe(job string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "job %s (case %d): %s\n", job, v.Sub, v.Msg)
	for _, o := range v.Ops {
		fmt.Fprintf(&b, "  %s\n", o)
	}
	if len(v.Log) > 0 {
		fmt.Fprintf(&b, " schedule:\n")
		for i, o := range v.Log {
			if i > 200 {
				break
			}
			fmt.Fprintf(&b, "   %s\n", o)
		}
	}
	return b.String()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func (p *parent) note(s string) { p.mu.Lock(); p.notes = append(p.notes, s); p.mu.Unlock() }

func (p *parent) stopped() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.stop }

func (p *parent) put(i int, r *Result) {
	p.mu.Lock()
	p.results[i] = r
	if r.Violation != nil {
		p.stop = true
	}
	p.mu.Unlock()
}

// confirm replays a violation in fresh processes; it must fail every time.
func (p *parent) confirm(j Job, r *Result) bool {
	if p.confirmWith(j, r, true, 3) {
		return true
	}
	// the witness alone is not enough (it may need what the job ran before it): run the whole job again
	return p.confirmWith(j, r, false, 2)
}

func (p *parent) confirmWith(j Job, r *Result, witness bool, times int) bool {
	for k := 0; k < times; k++ {
		c, err := p.spawn(j.Race)
		if err != nil {
			return false
		}
		rq := request{Job: r.Job, End: time.Now().Add(240 * time.Second).UnixNano()}
		if r.Violation.Kind != "crash" && witness {
			rq.Witness = r.Violation
		}
		r2, crash, stuck := p.ask(c, rq)
		c.close()
		if stuck {
			return false
		}
		if r.Violation.Kind == "crash" {
			if crash == "" || !isCrash(crash) {
				return false
			}
			continue
		}
		if crash != "" {
			if !isCrash(crash) {
				return false
			}
			continue
		}
		if r2.Violation == nil {
			return false
		}
		if k == 0 && len(r2.Violation.Log) > 0 {
			r.Violation.Log = r2.Violation.Log
		}
		if k == 0 && len(r2.Violation.Ops) > len(r.Violation.Ops) {
			r.Violation.Ops = r2.Violation.Ops
		}
	}
	return true
}

func isCrash(s string) bool {
	for _, m := range []string{"fatal error:", "panic:", "unexpected fault address", "SIGSEGV", "goroutine stack exceeds"} {
		if strings.Contains(s, m) {
			return !strings.Contains(s, "out of memory")
		}
	}
	return false
}

type replayFile struct {
	Property string     `json:"property"`
	Job      string     `json:"job"`
	Race     bool       `json:"race"`
	Thorough bool       `json:"thorough"`
	Witness  *Violation `json:"witness"`
	How      string     `json:"how"`
}

func (p *parent) writeReplay(j Job, r *Result) string {
	dir := filepath.Join(p.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, p.ck.ID+".json")
	f := replayFile{p.ck.ID, j.Name, j.Race, p.thorough, r.Violation,
		fmt.Sprintf("bash %s/check.sh %s --replay %s", p.verif, p.ck.ID, path)}
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (p *parent) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p.thorough = f.Thorough
	for i, j := range p.ck.jobs(f.Thorough) {
		if j.Name == f.Job {
			c, err := p.spawn(j.Race)
			if err != nil {
				return 2
			}
			defer c.close()
			rq := request{Job: i, End: time.Now().Add(600 * time.Second).UnixNano()}
			if f.Witness.Kind != "crash" {
				rq.Witness = f.Witness
			}
			r, crash, _ := p.ask(c, rq)
			if crash != "" {
				fmt.Println(crash)
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ck.ID, path)
				return 1
			}
			if r == nil || r.Violation == nil {
				fmt.Println("the recorded execution does not violate the property")
				return 0
			}
			fmt.Println(r.Violation.describe(j.Name))
			if s := c.stderr.String(); strings.Contains(s, "DATA RACE") {
				fmt.Println(s)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ck.ID, path)
			return 1
		}
	}
	fmt.Fprintln(os.Stderr, "no such job:", f.Job)
	return 2
}

func (p *parent) evidence(all []Job, wall float64, viol *Result) {
	var states, trans, execs, outcomes, scen, raceExecs int64
	complete := true
	done, planned := 0, 0
	var samples []string
	var capped []string
	for i, j := range all {
		r := p.results[i]
		planned++
		if r == nil {
			complete = false
			continue
		}
		states += r.States
		trans += r.Trans
		execs += r.Execs
		outcomes += r.Outcomes
		scen += r.Scenarios
		if j.Race {
			raceExecs += r.Execs
		}
		if r.Complete {
			done++
		} else {
			complete = false
			if r.Capped != "" {
				capped = append(capped, j.Name+": "+r.Capped)
			}
		}
		for _, s := range r.Samples {
			if len(samples) < 8 && (len(samples) < 4 || i%7 == 0) {
				samples = append(samples, j.Name+": "+s)
			}
		}
	}
	sort.Strings(capped)
	if len(capped) > 20 {
		capped = capped[:20]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := "quick"
	if p.thorough {
		tier = "thorough"
	}
	v := 0
	if viol != nil {
		v = 1
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]any{
		"property": p.ck.ID, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": v,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs, "samples": samples,
			"exhaustive": complete && v == 0, "jobs": planned, "jobs_completed": done, "distinct_outcomes": outcomes,
			"scenarios": scen, "race_detector_executions": raceExecs, "bounds": p.ck.Bounds, "caps_hit": capped, "notes": p.notes,
			"instrumented": core.Instrumented,
			"explanation":  "Every execution is of the real code. Sequential jobs: states are distinct object+model states reached, transitions are operations applied and checked, traces are the operation histories replayed on fresh objects. Concurrent jobs: states are distinct points of the schedule tree, transitions are scheduled steps, traces are complete schedules executed and checked.",
		},
		"assumptions": p.ck.Assume,
	}
	if p.ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetIndent("", " ")
	e.Encode(ev)
	dir := filepath.Join(p.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, p.ck.ID+".json"), b.Bytes(), 0o644)
}
