package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"graphverif/dom"
)

// job is a part of a check that can be run on its own, in another process.
type job struct {
	rule, name string
	run        func(r *Report)
}

// Job adds a part of the check. What it reports must not depend on other jobs.
func (r *Report) Job(rule, name string, run func(r *Report)) {
	r.jobs = append(r.jobs, job{rule, name, run})
}

// order numbers the jobs the same way in every process; no two may have the same name.
func (r *Report) order() {
	sort.SliceStable(r.jobs, func(i, j int) bool {
		a, b := r.jobs[i], r.jobs[j]
		return a.rule < b.rule || a.rule == b.rule && a.name < b.name
	})
	for i := 1; i < len(r.jobs); i++ {
		if a, b := r.jobs[i-1], r.jobs[i]; a.rule == b.rule && a.name == b.name {
			r.Undecided(a.rule, a.name, "", "two parts of the check have this name")
		}
	}
}

type jobResult struct {
	Job    int
	Name   string
	Obs    []Obligation
	Counts map[string]int
	Wall   float64
}

func jobTime(tier string) time.Duration {
	if tier == "thorough" {
		return 400 * time.Second
	}
	return 270 * time.Second
}

// budget is the time all the jobs of a check have together, so that it answers before it is ended.
const budget = 800 * time.Second

var began = time.Now()

// jobLimit is the time a job has now.
func jobLimit(tier string) time.Duration {
	t := jobTime(tier)
	if left := budget - time.Since(began); left < t {
		t = max(left, time.Second)
	}
	return t
}

// runOne runs a job in this process.
func runOne(r *Report, i int) (res jobResult) {
	j := r.jobs[i]
	t := &Report{Prog: r.Prog, Counts: map[string]int{}, Tier: r.Tier}
	start := time.Now()
	mark := dom.MarkNow()
	q0, l0 := dom.Queries, dom.LPs
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.Undecided(j.rule, j.name, "", "the analysis failed: %v\n%s", e, debug.Stack())
			}
		}()
		j.run(t)
	}()
	dom.Reset(mark)
	t.Count("entailment_queries", dom.Queries-q0)
	t.Count("linear_programs", dom.LPs-l0)
	return jobResult{i, j.rule + "|" + j.name, t.Obs, t.Counts, time.Since(start).Seconds()}
}

// work is the loop of a worker process: it reads numbers of jobs and writes their results.
func work(r *Report) {
	r.order()
	out := bufio.NewWriter(os.Stdout)
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		i, err := strconv.Atoi(strings.TrimSpace(sc.Text()))
		if err != nil || i < 0 || i >= len(r.jobs) {
			return
		}
		b, _ := json.Marshal(runOne(r, i))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(id, tier, repo string) (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: exec.Command(exe, "-worker", "-property", id, "-tier", tier, "-repo", repo)}
	w.cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	w.cmd.Stderr = nil
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// do runs a job in the worker; the worker is of no more use if that fails.
func (w *worker) do(i int, name string, limit time.Duration) (*jobResult, error) {
	if _, err := fmt.Fprintln(w.in, i); err != nil {
		return nil, err
	}
	type answer struct {
		l   []byte
		err error
	}
	c := make(chan answer, 1)
	go func() {
		l, err := w.out.ReadBytes('\n')
		c <- answer{l, err}
	}()
	select {
	case a := <-c:
		if a.err != nil {
			return nil, fmt.Errorf("the worker ended: %v", a.err)
		}
		res := &jobResult{}
		if err := json.Unmarshal(a.l, res); err != nil || res.Job != i || res.Name != name {
			return nil, fmt.Errorf("the worker answered %.80q", a.l)
		}
		return res, nil
	case <-time.After(limit):
		return nil, fmt.Errorf("not decided within %v", limit)
	}
}

// runJobs runs the jobs of the check in worker processes.
func (r *Report) runJobs(id, repo string) {
	r.order()
	n := len(r.jobs)
	if n == 0 {
		return
	}
	results := make([]*jobResult, n)
	errs := make([]error, n)
	next := make(chan int, n)
	for i := range r.jobs {
		next <- i
	}
	close(next)
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw > n {
		nw = n
	}
	for range nw {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			for i := range next {
				for try := 0; ; try++ {
					if w == nil {
						var err error
						if w, err = startWorker(id, r.Tier, repo); err != nil {
							errs[i] = err
							w = nil
							break
						}
					}
					start, limit := time.Now(), jobLimit(r.Tier)
					results[i], errs[i] = w.do(i, r.jobs[i].rule+"|"+r.jobs[i].name, limit)
					if errs[i] == nil {
						break
					}
					w.stop()
					w = nil
					// a worker that was ended from outside gets another try
					if try == 1 || time.Since(start) > limit/2 {
						break
					}
				}
			}
			if w != nil {
				w.stop()
			}
		}()
	}
	wg.Wait()
	slow, which := 0.0, ""
	for i, res := range results {
		j := r.jobs[i]
		if res == nil {
			r.Undecided(j.rule, j.name, "", "%v", errs[i])
			continue
		}
		r.Obs = append(r.Obs, res.Obs...)
		for k, v := range res.Counts {
			r.Counts[k] += v
		}
		if len(res.Obs) == 0 {
			r.Undecided(j.rule, j.name, "", "nothing was decided")
		}
		if res.Wall > slow {
			slow, which = res.Wall, j.name
		}
	}
	r.Count("jobs", n)
	if os.Getenv("GRAPHVERIF_TIMES") != "" {
		fmt.Printf("slowest job: %s %.1fs\n", which, slow)
	}
}
