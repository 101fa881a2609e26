package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one entry point: a function VH_<property>_<name>.
type Harness struct {
	Name string
	Prop string
	Pkg  string
	Fn   *ssa.Function
	Opt  Options
}

// Job explores the paths of one harness.
type Job struct {
	h       *Harness
	p       *Program
	Tier    string
	mu      sync.Mutex
	cond    *sync.Cond
	work    []workItem
	active  int
	stop    bool
	dead    time.Time
	Started time.Time

	Paths, Done, Cut, Unsup, Assumed int
	Trivial, AssertQ                 int
	Asserts                          int
	Steps                            int64
	Decisions                        int64
	Queries, Sat, Unsat, Unknown     int
	SolverErrs                       int
	SolverTime                       time.Duration
	Wall                             time.Duration
	initSteps                        int
	Left                             int
	Notes                            map[string]int
	Reached                          map[string]int
	Fns                              map[string]bool
	cands                            map[string]*Candidate
	Samples                          []sample
	nth                              int64
	timeUp                           bool
	maxDepth                         int
	Threads                          int
	Sched                            int64 // scheduling decisions
	cover                            coverTree
	Cover                            coverResult
}

// sample is a completed path kept for comparison with the real code.
type sample struct {
	Harness string
	Inputs  map[string]uint64
	Obs     []string
}

func (j *Job) count(p *int) {
	j.mu.Lock()
	*p++
	j.mu.Unlock()
}

func (j *Job) addWork(w []workItem) {
	j.mu.Lock()
	j.work = append(j.work, w...)
	j.mu.Unlock()
	j.cond.Broadcast()
}

func (j *Job) expired() bool {
	return time.Now().After(j.dead)
}

func (j *Job) addCandidate(c *Candidate) {
	j.mu.Lock()
	defer j.mu.Unlock()
	if o, ok := j.cands[c.key]; ok {
		// keep a few alternatives for the replay
		if len(o.Alts) < 4 {
			o.Alts = append(o.Alts, c)
		}
		return
	}
	j.cands[c.key] = c
}

func (j *Job) note(s string) {
	j.mu.Lock()
	j.Notes[s]++
	j.mu.Unlock()
}

func (j *Job) take() (workItem, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for {
		if j.stop {
			return workItem{}, false
		}
		if time.Now().After(j.dead) {
			j.timeUp = true
			j.stop = true
			j.cond.Broadcast()
			return workItem{}, false
		}
		if len(j.work) > 0 {
			w := j.work[len(j.work)-1]
			j.work = j.work[:len(j.work)-1]
			j.active++
			return w, true
		}
		if j.active == 0 {
			j.stop = true
			j.cond.Broadcast()
			return workItem{}, false
		}
		j.cond.Wait()
	}
}

func (j *Job) run(workers int, budget time.Duration) {
	j.cond = sync.NewCond(&j.mu)
	j.Notes, j.Reached, j.Fns = map[string]int{}, map[string]int{}, map[string]bool{}
	j.cands = map[string]*Candidate{}
	j.Started = time.Now()
	j.dead = j.Started.Add(budget)
	j.work = []workItem{{nil, Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			j.worker()
		}()
	}
	// wake sleepers when the time is up
	fin := make(chan bool)
	go func() {
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-fin:
				return
			case <-t.C:
				j.cond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(fin)
	j.Left = len(j.work)
	if j.timeUp && j.Left > 0 {
		j.Notes[fmt.Sprintf("time budget of %v used up: %d open branches not explored", budget, j.Left)]++
	}
	j.Cover = j.cover.check(j.h.Opt.solver, 60*time.Second)
	j.cover = coverTree{}
	if len(j.cands) == 0 {
		switch a := j.Cover.answer; {
		case a == "sat" && len(j.Notes) == 0:
			j.Notes["the explored paths do not cover every value of the choices"]++
		case a != "sat" && a != "unsat":
			j.Notes["no verdict on the coverage of the choices: "+a]++
		}
	}
	j.Queries++
	j.SolverTime += j.Cover.time
	switch j.Cover.answer {
	case "sat":
		j.Sat++
	case "unsat":
		j.Unsat++
	default:
		j.Unknown++
	}
	j.Wall = time.Since(j.Started)
}

func (j *Job) worker() {
	limit := 20000
	newM := func(old *Machine) *Machine {
		tt := NewTermTable()
		m := &Machine{p: j.p, tt: tt, h: j.h, job: j, opt: j.h.Opt}
		if old != nil {
			m.epoch = old.epoch
		}
		m.sol = NewSolver(j.h.Opt.solver, tt, limit)
		return m
	}
	var m *Machine
	flush := func() {
		if m == nil {
			return
		}
		j.mu.Lock()
		j.Queries += m.sol.Queries
		j.Sat += m.sol.Sat
		j.Unsat += m.sol.Unsat
		j.Unknown += m.sol.Unknown
		j.SolverErrs += m.sol.Errors
		if m.sol.lastErr != "" {
			j.Notes["solver error: "+m.sol.lastErr]++
		}
		j.SolverTime += m.sol.Time
		j.mu.Unlock()
		m.sol.Close()
	}
	for {
		it, ok := j.take()
		if !ok {
			break
		}
		if m == nil {
			m = newM(nil)
		} else if m.tt.next > 1_500_000 {
			flush()
			m = newM(m)
		}
		m.opt = j.h.Opt
		end := m.runPath(it)
		j.finish(m, end)
	}
	flush()
	j.cond.Broadcast()
}

func (j *Job) finish(m *Machine, end *pathEnd) {
	n := atomic.AddInt64(&j.nth, 1)
	j.mu.Lock()
	j.active--
	j.Paths++
	j.Steps += int64(m.steps)
	j.Decisions += int64(len(m.trace))
	if len(m.trace) > j.maxDepth {
		j.maxDepth = len(m.trace)
	}
	if len(m.threads) > j.Threads {
		j.Threads = len(m.threads)
	}
	j.Asserts += m.asserts
	j.Sched += int64(m.scheds)
	switch end.kind {
	case "done":
		j.Done++
		for k := range m.reached {
			j.Reached[k]++
		}
	case "assume":
		j.Assumed++
	case "unsupported":
		j.Unsup++
		j.Notes["not encoded: "+end.msg]++
	case "limit":
		j.Cut++
		j.Notes["cut: "+end.msg]++
	case "violation":
		for k := range m.reached {
			j.Reached[k]++
		}
	}
	for _, s := range m.incomplete {
		j.Notes[s]++
	}
	for c := range m.fnSeen {
		if c.pkg != "" {
			j.Fns[c.name] = true
		}
	}
	j.cover.add(m.trace, end.kind == "done" || end.kind == "assume")
	over := j.h.Opt.maxPaths > 0 && j.Paths >= j.h.Opt.maxPaths
	if over && !j.stop {
		j.Notes[fmt.Sprintf("path limit of %d reached: %d open branches not explored", j.h.Opt.maxPaths, len(j.work))]++
		j.stop = true
	}
	j.mu.Unlock()
	j.cond.Broadcast()
	if end.kind == "done" && len(m.observes) > 0 && len(m.sched) == 0 {
		// reservoir of completed paths for trace validation
		const keep = 12
		j.mu.Lock()
		k := -1
		if len(j.Samples) < keep {
			j.Samples = append(j.Samples, sample{})
			k = len(j.Samples) - 1
		} else if x := int((uint64(n)*2654435761 ^ uint64(n)>>7) % uint64(n)); x < keep {
			k = x
		}
		if k >= 0 {
			s := sample{Harness: m.h.Name, Inputs: map[string]uint64{}}
			for _, v := range m.vars {
				s.Inputs[v.name] = m.model[v.name] & mask1(v.w)
			}
			ev := newEval(m.model)
			for _, o := range m.observes {
				s.Obs = append(s.Obs, o.label+" "+m.show(tiAny, o.raw, ev, 0))
			}
			j.Samples[k] = s
		}
		j.mu.Unlock()
	}
	if os.Getenv("SYMGO_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "path %d: %s %s steps=%d trace=%d\n", n, end.kind, end.msg, m.steps, len(m.trace))
	}
}

func (j *Job) candidates() []*Candidate {
	var r []*Candidate
	for _, k := range sortedKeys(j.cands) {
		r = append(r, j.cands[k])
	}
	sort.SliceStable(r, func(a, b int) bool { return r[a].Known == "" && r[b].Known != "" })
	return r
}
