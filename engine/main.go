package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type known struct {
	prop, tag, harness, text string
	seen                     bool
}

// readKnown reads the known-findings file: "known: property=ID tag=T harness=H text".
func readKnown(p string) []*known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var r []*known
	for _, l := range strings.Split(string(b), "\n") {
		s, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		k := &known{}
		f := strings.Fields(s)
		n := 0
		for _, x := range f {
			a, v, ok := strings.Cut(x, "=")
			if !ok {
				break
			}
			switch a {
			case "property":
				k.prop = v
			case "tag":
				k.tag = v
			case "harness":
				k.harness = v
			default:
				ok = false
			}
			if !ok {
				break
			}
			n++
			if n == 3 {
				break
			}
		}
		k.text = strings.Join(f[n:], " ")
		r = append(r, k)
	}
	return r
}

type report struct {
	job        *Job
	validated  int
	mismatches []string
	confirmed  []string
	unconf     []string
	wall       time.Duration
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		replayCmd(os.Args[2:])
		return
	}
	var (
		repo    = flag.String("repo", "/repo", "the tree to check")
		verif   = flag.String("verif", "/verif", "this directory")
		prop    = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "quick or thorough")
		only    = flag.String("only", "", "one harness")
		workers = flag.Int("j", runtime.NumCPU(), "workers")
		budget  = flag.Duration("budget", 0, "time for the exploration")
		dev     = flag.Bool("dev", false, "no native replay, more output")
		solver  = flag.String("solver", "", "use this solver")
		outDir  = flag.String("out", "", "directory for evidence and replays (default: under -verif)")
		noEv    = flag.Bool("noev", false, "write no evidence")
	)
	flag.Parse()
	if *outDir == "" {
		*outDir = *verif
	}
	start := time.Now()
	if *budget == 0 {
		*budget = 200 * time.Second
		if *tier == "thorough" {
			*budget = 600 * time.Second
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	L, err := load(*repo, *verif, map[string]bool{*prop: true})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		os.Exit(2)
	}
	loadT := time.Since(start)
	for _, d := range L.dropped {
		fmt.Println("NOTE harness file does not fit this tree, left out:", d)
	}
	R, err := newReplayer(L, *verif, *tier)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := check(L, R, *repo, *verif, *outDir, *prop, *tier, *only, *solver, *workers, *budget, *dev, *noEv, seed, start, loadT)
	R.close()
	os.Exit(code)
}

func check(L *Loaded, R *Replayer, repo, verif, outDir, prop, tier, only, solver string, workers int, budget time.Duration, dev, noEv bool, seed int, start time.Time, loadT time.Duration) int {
	var hs []*Harness
	total := 0
	for _, h := range L.harness {
		if only != "" && h.Name != only {
			continue
		}
		if h.Opt.tier != "" && h.Opt.tier != tier {
			continue
		}
		if solver != "" {
			h.Opt.solver = solver
		}
		if h.Opt.weight == 0 {
			h.Opt.weight = 1
		}
		if tier == "thorough" && h.Opt.tpreempt > 0 {
			h.Opt.preempt = h.Opt.tpreempt
		}
		hs = append(hs, h)
		total += h.Opt.weight
	}
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	findKnown := func(c *Candidate) *known {
		for _, k := range kn {
			if k.prop == prop && k.tag == c.Known && c.Known != "" && (k.harness == "" || k.harness == c.Harness) {
				return k
			}
		}
		return nil
	}
	var reps []*report
	var violations []string
	left := budget
	for _, h := range hs {
		b := left * time.Duration(h.Opt.weight) / time.Duration(total)
		total -= h.Opt.weight
		j := &Job{h: h, p: L.prog, Tier: tier}
		t0 := time.Now()
		j.run(workers, b)
		left -= time.Since(t0)
		rep := &report{job: j}
		reps = append(reps, rep)
		fmt.Printf("%s: %d paths (%d complete, %d outside the assumptions, %d cut, %d not encoded), %d assertions (%d solver verdicts), %d queries, solver %.1fs, coverage %s (%d terms, %.1fs), wall %.1fs\n",
			h.Name, j.Paths, j.Done, j.Assumed, j.Cut, j.Unsup, j.Asserts, j.AssertQ, j.Queries, j.SolverTime.Seconds(), j.Cover.answer, j.Cover.terms, j.Cover.time.Seconds(), j.Wall.Seconds())
		for _, k := range sortedKeys(j.Notes) {
			fmt.Printf("  note: %s (%d)\n", k, j.Notes[k])
		}
		if dev {
			for _, k := range sortedKeys(j.Reached) {
				fmt.Println("  reached", j.Reached[k], k)
			}
		}
		deadline := time.Now().Add(90 * time.Second)
		tried := 0
		knownDone := map[*known]int{}
		for _, c := range j.candidates() {
			k := findKnown(c)
			if dev {
				fmt.Println("  CANDIDATE", c.Kind, c.Msg, c.Known, c.Model)
				fmt.Println("    " + strings.ReplaceAll(strings.TrimSpace(c.Where), "\n", "\n    "))
				if len(c.Sched) > 0 {
					fmt.Println("    sched", c.Sched)
				}
				if os.Getenv("SYMGO_NOREPLAY") != "" {
					continue
				}
			}
			if k != nil && knownDone[k] > 2 {
				continue
			}
			if len(violations) > 0 && k == nil {
				continue
			}
			if tried > 25 || time.Now().After(deadline) {
				rep.unconf = append(rep.unconf, "not replayed: "+c.Kind+" "+c.Msg)
				continue
			}
			tried++
			got, why := R.confirm(h, c, deadline)
			if got == "" {
				rep.unconf = append(rep.unconf, fmt.Sprintf("%s %s (%s)", c.Kind, c.Msg, firstLine(why)))
				fmt.Printf("  unconfirmed: %s %s at %s: %s\n", c.Kind, c.Msg, firstLine(c.Where), why)
				continue
			}
			if k != nil {
				knownDone[k]++
				k.seen = true
				continue
			}
			rep.confirmed = append(rep.confirmed, got)
			rp := writeReplay(outDir, prop, len(violations), c, got, tier)
			violations = append(violations, rp)
			fmt.Printf("  violated in %s: %s (native: %s)\n    at %s\n", h.Name, c.Msg, got, strings.ReplaceAll(strings.TrimSpace(c.Where), "\n", "\n    "))
		}
		if len(violations) == 0 && !(dev && os.Getenv("SYMGO_NOREPLAY") != "") {
			ss := j.Samples
			if tier != "thorough" && len(ss) > 6 {
				ss = ss[:6]
			}
			rep.validated, rep.mismatches = R.validate(h, ss)
			for _, x := range rep.mismatches {
				fmt.Println("  NOTE encoding and native run differ:", x)
			}
		}
		rep.wall = time.Since(t0)
		if len(violations) > 0 && !dev {
			break
		}
	}
	decided := 0
	for _, r := range reps {
		n := 0
		for _, v := range r.job.Reached {
			n += v
		}
		if n > 0 {
			decided++
		} else {
			fmt.Printf("NOTE %s reached no assertion\n", r.job.h.Name)
		}
	}
	if !noEv {
		writeEvidence(L, reps, outDir, prop, tier, seed, start, loadT, violations, kn)
	}
	for _, k := range kn {
		if k.prop == prop && k.seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	if len(violations) > 0 {
		for _, v := range violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v)
		}
		return 1
	}
	if decided == 0 {
		fmt.Println("nothing was decided")
		return 2
	}
	fmt.Printf("%s: no violation within the bounds (%d of %d harnesses decided, %.1fs)\n", prop, decided, len(hs), time.Since(start).Seconds())
	return 0
}

type replayFile struct {
	Property string
	Harness  string
	Tier     string
	Kind     string
	Message  string
	Native   string
	Where    string
	Inputs   map[string]uint64
	Sched    []string
	HowTo    string
}

func writeReplay(verif, prop string, n int, c *Candidate, got, tier string) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, c.Harness, n))
	b, _ := json.MarshalIndent(replayFile{prop, c.Harness, tier, c.Kind, c.Msg, got, c.Where, c.Model, c.Sched, "cd /verif && ./check.sh replay " + p}, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

// replayCmd runs a recorded violation against the current tree.
func replayCmd(args []string) {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	fl.Parse(args)
	b, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	L, err := load(*repo, *verif, map[string]bool{f.Property: true})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	R, _ := newReplayer(L, *verif, f.Tier)
	code := 2
	for _, h := range L.harness {
		if h.Name == f.Harness {
			c := &Candidate{Harness: f.Harness, Kind: f.Kind, Msg: f.Message, Model: f.Inputs, Sched: f.Sched}
			got, why := R.confirm(h, c, time.Now().Add(10*time.Minute))
			if got != "" {
				fmt.Println("reproduced:", got)
				code = 1
			} else {
				fmt.Println("not reproduced:", why)
				code = 0
			}
		}
	}
	R.close()
	os.Exit(code)
}

func gitHead(repo string) string {
	out, err := exec.Command("git", "-C", repo, "rev-parse", "--short", "HEAD").Output()
	if err != nil {
		return "?"
	}
	return strings.TrimSpace(string(out))
}

func writeEvidence(L *Loaded, reps []*report, verif, prop, tier string, seed int, start time.Time, loadT time.Duration, violations []string, kn []*known) {
	fns := map[string]bool{}
	var paths, validated, queries, sat, unsat, unk, serr, asserts, assertQ, trivial int
	var steps, dec int64
	var solver time.Duration
	var hl, samples []any
	var reduced []string
	var mism []string
	for _, d := range L.dropped {
		reduced = append(reduced, "harness left out: "+d)
	}
	for _, r := range reps {
		j := r.job
		for f := range j.Fns {
			if !strings.Contains(f, "zzverif") && !strings.Contains(f, ".VH_") {
				fns[f] = true
			}
		}
		paths += j.Paths
		validated += r.validated
		queries += j.Queries
		sat += j.Sat
		unsat += j.Unsat
		unk += j.Unknown
		serr += j.SolverErrs
		asserts += j.Asserts
		assertQ += j.AssertQ
		trivial += j.Trivial
		steps += j.Steps
		dec += j.Decisions
		solver += j.SolverTime
		mism = append(mism, r.mismatches...)
		for _, k := range sortedKeys(j.Notes) {
			reduced = append(reduced, fmt.Sprintf("%s: %s (%d paths)", j.h.Name, k, j.Notes[k]))
		}
		for _, u := range r.unconf {
			reduced = append(reduced, j.h.Name+": counterexample of the encoding not reproduced natively, not reported: "+u)
		}
		hl = append(hl, map[string]any{
			"harness": j.h.Name, "package": j.h.Pkg, "paths": j.Paths, "complete": j.Done, "outside_assumptions": j.Assumed,
			"cut": j.Cut, "not_encoded": j.Unsup, "open_branches_left": j.Left, "assertions": j.Asserts, "solver_decided_assertions": j.AssertQ,
			"coverage_verdict": j.Cover.answer, "coverage_choices": j.Cover.vars, "coverage_terms": j.Cover.terms, "coverage_s": round(j.Cover.time.Seconds()),
			"queries": j.Queries, "solver_s": round(j.SolverTime.Seconds()), "wall_s": round(r.wall.Seconds()),
			"instructions": j.Steps, "deepest_decision_sequence": j.maxDepth, "most_threads": j.Threads,
			"schedules_symbolic": j.Sched > 0, "scheduling_decisions": j.Sched, "preemption_bound": j.h.Opt.preempt, "race_detection": j.h.Opt.race,
			"traces_validated": r.validated, "reached": j.Reached, "complete_within_bounds": j.Cut == 0 && j.Unsup == 0 && j.Left == 0 && len(j.Notes) == 0,
		})
		for i, s := range j.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.Harness, "inputs": s.Inputs, "observed": s.Obs})
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, strings.ReplaceAll(f, repoModule+"/", ""))
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		for _, r := range reps {
			samples = append(samples, map[string]any{"harness": r.job.h.Name, "reached": r.job.Reached})
			if len(samples) > 2 {
				break
			}
		}
	}
	var kf []string
	for _, k := range kn {
		if k.prop == prop && k.seen {
			kf = append(kf, k.text)
		}
	}
	own := 0
	for _, f := range fl {
		if !strings.HasPrefix(f, "std:") {
			own++
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": dec, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":        false,
			"explanation":       "bounded symbolic execution of the Go SSA of the current tree; states = symbolic paths, transitions = branch, value and scheduling decisions on them; each assertion is decided by the SMT solver for all values of the path",
			"functions_encoded": fl, "functions_encoded_count": own, "instructions_executed_symbolically": steps,
			"queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk, "solver_errors": serr,
			"solver_s": round(solver.Seconds()), "assertions_checked": asserts, "assertions_decided_by_solver": assertQ,
			"assertions_decided_on_path_facts": trivial, "harnesses": hl, "load_s": round(loadT.Seconds()),
			"bounds": boundsOf(verif, prop), "bound_reductions": reduced,
			"encoding_native_mismatches": mism, "tree": gitHead(L.repo), "known_findings_seen": kf,
		},
		"assumptions": []string{
			"the SSA interpreter and its models of the runtime, sync, time, net, os and fmt (DESIGN.md) agree with Go; checked on this run by native runs of sampled paths",
			"nothing is claimed outside the stated bounds",
		},
		"wall_s": round(time.Since(start).Seconds()), "violations": len(violations),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

// boundsOf gives the stated bounds of a property; those of the thorough tier
// are in parentheses.
func boundsOf(verif, prop string) string {
	m := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", "bounds.json")); err == nil {
		json.Unmarshal(b, &m)
	}
	return m[prop] + " (the thorough tier's bounds are in parentheses; per-harness limits are in 'harnesses')"
}
