package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replayer runs harnesses natively: the harness and the real code, compiled
// by the Go compiler, with the inputs of a solver model.
type Replayer struct {
	L      *Loaded
	verif  string
	tier   string
	dir    string
	mu     sync.Mutex
	bins   map[string]*binary
	points map[string]int // "file:line" -> instrumentation id
	nRuns  int
}

type binary struct {
	once sync.Once
	path string
	err  error
}

func newReplayer(L *Loaded, verif, tier string) (*Replayer, error) {
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return nil, err
	}
	os.Chmod(dir, 0755)
	return &Replayer{L: L, verif: verif, tier: tier, dir: dir, bins: map[string]*binary{}, points: map[string]int{}}, nil
}

func (r *Replayer) close() {
	if strings.Contains(r.dir, "verif-replay-") {
		os.RemoveAll(r.dir)
	}
}

const replayConf = `{"dht":{"Port":%d,"WorkPoolSize":2,"BootstrapNodes":[]},"fetchTorrent":{"InfoHashQueueSize":%d,"WorkPoolSize":2},"pprof":{"NeedRun":false},"logger":{"Level":"Info"}}`

// freePort is a port the node under test can use.
func freePort() int {
	for i := 0; i < 50; i++ {
		c, err := net.ListenPacket("udp", ":0")
		if err != nil {
			return 0
		}
		p := c.LocalAddr().(*net.UDPAddr).Port
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		c.Close()
		if err == nil {
			l.Close()
			return p
		}
	}
	return 0
}

// build compiles the replay binary of a package.
func (r *Replayer) build(rel string, race, instr bool) (string, error) {
	key := fmt.Sprintf("%s|%v|%v", rel, race, instr)
	r.mu.Lock()
	b := r.bins[key]
	if b == nil {
		b = &binary{}
		r.bins[key] = b
	}
	r.mu.Unlock()
	b.once.Do(func() { b.path, b.err = r.build1(rel, race, instr) })
	return b.path, b.err
}

func (r *Replayer) build1(rel string, race, instr bool) (string, error) {
	repo := r.L.repo
	tag := strings.NewReplacer("/", "_", ".", "_").Replace(rel) + fmt.Sprintf("_%v_%v", race, instr)
	ov := map[string]string{}
	pkgName := ""
	var names []string
	for _, h := range r.L.files {
		if h.rel != rel {
			continue
		}
		ov[overlayPath(repo, h)] = h.path
		f, err := parser.ParseFile(token.NewFileSet(), h.path, nil, parser.PackageClauseOnly)
		if err != nil {
			return "", err
		}
		pkgName = f.Name.Name
		for n := range h.funcs {
			names = append(names, n)
		}
	}
	for k, v := range r.L.overlay {
		if strings.Contains(k, "/zzverif/") {
			ov[k] = v
		}
	}
	sort.Strings(names)
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"runtime/debug\"\n\t\"testing\"\n\n\tzzsym %q\n)\n\n", pkgName, repoModule+"/zzverif/sym")
	g.WriteString("func TestVerifReplay(t *testing.T) {\n\tm := map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&g, "\t\t%q: %s,\n", n, n)
	}
	g.WriteString("\t}\n\tf := m[os.Getenv(\"VERIF_HARNESS\")]\n\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\tzzsym.Note(\"VIOLATION panic \" + fmt.Sprintf(\"%.200q\", fmt.Sprint(e)))\n\t\t\tos.Stderr.Write(debug.Stack())\n\t\t\tos.Exit(7)\n\t\t}\n\t}()\n\tf()\n\tzzsym.AllocCheck()\n\tzzsym.Note(\"END\")\n\tos.Exit(0)\n}\n")
	tf := filepath.Join(r.dir, tag+"_replay_test.go")
	if err := os.WriteFile(tf, g.Bytes(), 0644); err != nil {
		return "", err
	}
	// the package's own tests stay out
	olds, _ := filepath.Glob(filepath.Join(repo, rel, "*_test.go"))
	for _, o := range olds {
		ov[o] = ""
	}
	ov[filepath.Join(repo, rel, "zz_verif_replay_test.go")] = tf
	if instr {
		if err := r.instrument(ov, tag); err != nil {
			return "", err
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(r.dir, tag+"_overlay.json")
	if err := os.WriteFile(of, js, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, tag+".bin")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	env := append(os.Environ(), "GOFLAGS=-mod=mod")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	args = append(args, "./"+rel)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build of %s: %v\n%s", rel, err, out)
	}
	return bin, nil
}

// instrument puts a call of sym.D before every statement of the repository's
// code, on the same line, so that a schedule can be provoked natively.
func (r *Replayer) instrument(ov map[string]string, tag string) error {
	repo := r.L.repo
	files := map[string]string{} // path in the tree -> real file
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files[p] = p
		}
		return nil
	})
	for k, v := range ov {
		if v != "" && !strings.Contains(k, "/zzverif/") && !strings.HasSuffix(k, "_test.go") {
			files[k] = v
		}
	}
	n := 0
	for _, p := range sortedKeys(files) {
		src, err := os.ReadFile(files[p])
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			continue
		}
		type ins struct {
			off int
			s   string
		}
		var list []ins
		add := func(ss []ast.Stmt) {
			for _, s := range ss {
				pos := fs.Position(s.Pos())
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				k := shortFile(p) + ":" + strconv.Itoa(pos.Line)
				r.mu.Lock()
				id, ok := r.points[k]
				if !ok {
					id = len(r.points) + 1
					r.points[k] = id
				}
				r.mu.Unlock()
				list = append(list, ins{pos.Offset, fmt.Sprintf("zzsymd.D(%d); ", id)})
				if buf, in := datagramBuf(s, src, fs); buf != "" {
					if in {
						list = append(list, ins{fs.Position(s.End()).Offset, fmt.Sprintf("; zzsymd.Touch(%s, true)", buf)})
					} else {
						list = append(list, ins{pos.Offset, fmt.Sprintf("zzsymd.Touch(%s, false); ", buf)})
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				// initialisers run before anything concurrent
				if x.Recv == nil && x.Name.Name == "init" {
					return false
				}
			case *ast.BlockStmt:
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
		if len(list) == 0 {
			continue
		}
		list = append(list, ins{fs.Position(f.Name.End()).Offset, fmt.Sprintf("; import zzsymd %q", repoModule+"/zzverif/sym")})
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var b bytes.Buffer
		at := 0
		for _, x := range list {
			b.Write(src[at:x.off])
			b.WriteString(x.s)
			at = x.off
		}
		b.Write(src[at:])
		n++
		o := filepath.Join(r.dir, fmt.Sprintf("%s_%d.go", tag, n))
		if err := os.WriteFile(o, b.Bytes(), 0644); err != nil {
			return err
		}
		ov[p] = o
	}
	return nil
}

// datagramBuf gives the buffer of a statement that receives or sends a
// datagram. The race detector does not see what the kernel does to it.
func datagramBuf(s ast.Stmt, src []byte, fs *token.FileSet) (buf string, in bool) {
	var e ast.Expr
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 {
			e = x.Rhs[0]
		}
	case *ast.ExprStmt:
		e = x.X
	}
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) == 0 {
		return "", false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", false
	}
	a := c.Args[0]
	if se, ok := a.(*ast.SliceExpr); ok {
		a = se.X
	}
	if _, ok := a.(*ast.Ident); !ok {
		return "", false
	}
	text := string(src[fs.Position(c.Args[0].Pos()).Offset:fs.Position(c.Args[0].End()).Offset])
	switch f.Sel.Name {
	case "ReadFromUDP", "ReadFrom", "ReadFromUDPAddrPort", "ReadMsgUDP":
		return text, true
	case "WriteToUDP", "WriteTo", "WriteToUDPAddrPort", "WriteMsgUDP":
		return text, false
	}
	return "", false
}

// runOpt says how one native run is to be perturbed.
type runOpt struct {
	race  bool
	instr bool
	hold  string // "id,id;mode"
	seed  int
	slow  bool
	limit time.Duration
}

type runResult struct {
	violation string // text of a violation seen natively
	kind      string
	lines     []string
	hang      bool
	assume    bool
	end       bool
	output    string
	err       error
}

var reGoPanic = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*)$`)

// run executes one harness natively.
func (r *Replayer) run(h *Harness, inputs map[string]uint64, o runOpt) runResult {
	bin, err := r.build(h.Pkg, o.race, o.instr)
	if err != nil {
		return runResult{err: err}
	}
	r.mu.Lock()
	r.nRuns++
	n := r.nRuns
	r.mu.Unlock()
	cwd := filepath.Join(r.dir, fmt.Sprintf("run%d", n))
	os.MkdirAll(cwd, 0755)
	defer os.RemoveAll(cwd)
	queue := 100
	if h.Opt.queue > 0 {
		queue = h.Opt.queue
	}
	if !h.Opt.fresh {
		os.MkdirAll(filepath.Join(cwd, "conf"), 0755)
		os.WriteFile(filepath.Join(cwd, "conf", "config.json"), []byte(fmt.Sprintf(replayConf, freePort(), queue)), 0666)
	}
	js, _ := json.Marshal(inputs)
	os.WriteFile(filepath.Join(cwd, "in.json"), js, 0644)
	for _, p := range []string{cwd, filepath.Join(cwd, "conf"), filepath.Join(cwd, "conf", "config.json")} {
		os.Chmod(p, 0777)
		os.Chown(p, nobody, nobody)
	}
	if o.limit == 0 {
		o.limit = time.Duration(h.Opt.timeout) * time.Second
	}
	res := r.exec(bin, h, cwd, o, true)
	if res.err != nil && strings.Contains(res.err.Error(), "operation not permitted") {
		res = r.exec(bin, h, cwd, o, false)
	}
	return res
}

const nobody = 65534

func (r *Replayer) exec(bin string, h *Harness, cwd string, o runOpt, drop bool) runResult {
	ctx, cancel := context.WithTimeout(context.Background(), o.limit)
	defer cancel()
	outF := filepath.Join(cwd, "out.txt")
	os.Remove(outF)
	os.WriteFile(outF, nil, 0666)
	os.Chmod(outF, 0666)
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	if !o.race {
		cmd = exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 12000000 2>/dev/null; exec "$0" "$@"`, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	}
	cmd.Dir = cwd
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + cwd, "TMPDIR=" + cwd,
		"VERIF_HARNESS=" + h.Name, "VERIF_INPUT=" + filepath.Join(cwd, "in.json"), "VERIF_OUT=" + outF,
		"VERIF_TIER_RUN=" + r.tier, "VERIF_HOLD=" + o.hold, "VERIF_JITTER=" + strconv.Itoa(o.seed),
		"GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all"}
	if o.slow {
		cmd.Env = append(cmd.Env, "VERIF_SLOW=1")
	}
	attr := &syscall.SysProcAttr{Setpgid: true}
	if drop && os.Getuid() == 0 {
		attr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	cmd.SysProcAttr = attr
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err := cmd.Run()
	res := runResult{output: ob.String()}
	if err != nil && cmd.ProcessState == nil {
		res.err = err
		return res
	}
	if ctx.Err() != nil {
		res.hang = true
	}
	b, _ := os.ReadFile(outF)
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "VIOLATION "):
			if res.violation == "" {
				res.violation = strings.TrimPrefix(l, "VIOLATION ")
				res.kind, _, _ = strings.Cut(res.violation, " ")
			}
		case l == "ASSUME":
			res.assume = true
		case l == "END":
			res.end = true
		default:
			res.lines = append(res.lines, l)
		}
	}
	if res.violation == "" && !res.assume {
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && !res.end && (ws.Signal() == syscall.SIGTERM || ws.Signal() == syscall.SIGINT) {
			res.kind, res.violation = "panic", "panic the process is ended by a signal"
		}
		if o.race && strings.Contains(res.output, "WARNING: DATA RACE") {
			if s := raceInRepo(res.output, r.L.repo); s != "" {
				res.kind, res.violation = "race", "race "+s
			}
		}
		if m := reGoPanic.FindString(res.output); res.violation == "" && m != "" && !res.end {
			if strings.Contains(m, "all goroutines are asleep") {
				res.hang = true
			} else {
				res.kind, res.violation = "panic", "panic "+m
			}
		}
	}
	return res
}

// raceInRepo names the racing accesses of a race report when the code of the
// repository takes part in it.
func raceInRepo(out, repo string) string {
	i := strings.Index(out, "WARNING: DATA RACE")
	lines := strings.Split(out[i:], "\n")
	var acc []string
	own := false
	for k := 0; k < len(lines); k++ {
		l := strings.TrimSpace(lines[k])
		isAcc := strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read at") || strings.HasPrefix(l, "Previous write at")
		if !isAcc {
			continue
		}
		for j := k + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j++ {
			f := strings.TrimSpace(lines[j])
			if strings.HasPrefix(f, repo+"/") || strings.Contains(f, repoModule) && strings.Contains(f, ".go:") {
				f, _, _ = strings.Cut(f, " ")
				acc = append(acc, strings.TrimPrefix(f, repo+"/"))
				if !strings.Contains(f, "zz_verif_") && !strings.Contains(f, "zzverif/") {
					own = true
				}
				break
			}
		}
		if strings.HasPrefix(l, "==") {
			break
		}
	}
	if !own {
		return ""
	}
	return strings.Join(acc, " and ")
}

// confirm replays a candidate against the real code. It returns the text of
// the violation seen natively, or "".
func (r *Replayer) confirm(h *Harness, c *Candidate, deadline time.Time) (string, string) {
	var why string
	all := append([]*Candidate{c}, c.Alts...)
	matches := func(res runResult, c *Candidate) string {
		if res.err != nil {
			why = res.err.Error()
			return ""
		}
		switch c.Kind {
		case "deadlock", "steps":
			if res.hang {
				return c.Kind + ": the native run does not end"
			}
		}
		if res.violation != "" {
			return res.violation
		}
		if res.assume {
			why = "the native run left the assumed inputs"
		} else if res.hang {
			why = "the native run did not end in time"
		} else {
			why = "not reproduced natively"
		}
		return ""
	}
	limit := time.Duration(h.Opt.timeout) * time.Second
	if c.Kind == "deadlock" || c.Kind == "steps" {
		limit = 8 * time.Second
	}
	twice := func(c *Candidate, o runOpt) string {
		res := r.run(h, c.Model, o)
		s := matches(res, c)
		if s != "" && res.hang && res.violation == "" {
			o.limit = limit + 12*time.Second
			s = matches(r.run(h, c.Model, o), c)
		}
		return s
	}
	if c.Kind != "race" {
		for _, a := range all {
			for try := 0; try < 2; try++ {
				if s := twice(a, runOpt{limit: limit, slow: try > 0}); s != "" {
					return s, ""
				}
				if time.Now().After(deadline) {
					return "", why
				}
			}
		}
		if !h.Opt.explore && len(c.Sched) == 0 {
			return "", why
		}
	}
	// the schedule matters: hold the threads where the schedule held them,
	// then perturb at random
	race := c.Kind == "race"
	if _, err := r.build(h.Pkg, race, true); err != nil {
		return "", err.Error()
	}
	type try struct {
		c *Candidate
		o runOpt
	}
	var tries []try
	for round := 0; round < 3; round++ {
		for _, a := range all {
			var ids []string
			for _, s := range a.Sched {
				f := strings.Fields(s)
				if len(f) == 3 {
					if id, ok := r.points[f[2]]; ok {
						ids = append(ids, strconv.Itoa(id))
					}
				}
			}
			if len(ids) > 0 {
				for _, mode := range []string{"1", "2", "3", "all", "rnd"} {
					tries = append(tries, try{a, runOpt{hold: strings.Join(ids, ",") + ";" + mode, seed: round*100 + len(tries) + 1}})
				}
			}
			tries = append(tries, try{a, runOpt{seed: round*100 + len(tries) + 1}}, try{a, runOpt{seed: round*100 + len(tries) + 7}})
		}
	}
	max := h.Opt.replays
	if max == 0 {
		max = 60
	}
	if len(tries) > max {
		tries = tries[:max]
	}
	var got string
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, t := range tries {
		mu.Lock()
		stop := got != "" || time.Now().After(deadline)
		mu.Unlock()
		if stop {
			break
		}
		t := t
		t.o.race, t.o.instr, t.o.limit = race, true, limit
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res := r.run(h, t.c.Model, t.o)
			mu.Lock()
			defer mu.Unlock()
			if s := matches(res, t.c); s != "" && got == "" {
				if race && res.kind != "race" && c.Kind == "race" {
					// another violation under the race schedule is one too
				}
				got = s
			}
		}()
	}
	wg.Wait()
	return got, why
}

// validate runs completed symbolic paths natively and compares what they
// observed.
func (r *Replayer) validate(h *Harness, samples []sample) (ok int, bad []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, s := range samples {
		s := s
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			var res runResult
			for try := 0; try < 2; try++ {
				res = r.run(h, s.Inputs, runOpt{slow: try > 0})
				if d := diffObs(s, res); d == "" {
					mu.Lock()
					ok++
					mu.Unlock()
					return
				}
			}
			mu.Lock()
			js, _ := json.Marshal(s.Inputs)
			bad = append(bad, fmt.Sprintf("%s inputs %s: %s", h.Name, js, diffObs(s, res)))
			mu.Unlock()
		}()
	}
	wg.Wait()
	return
}

func diffObs(s sample, res runResult) string {
	if res.err != nil {
		return res.err.Error()
	}
	if res.violation != "" {
		return "native run: VIOLATION " + res.violation
	}
	if !res.end {
		o := res.output
		if len(o) > 600 {
			o = o[len(o)-600:]
		}
		return fmt.Sprintf("native run did not finish (assume %v hang %v) %s", res.assume, res.hang, o)
	}
	var obs []string
	for _, l := range res.lines {
		if x, ok := strings.CutPrefix(l, "OBS "); ok {
			obs = append(obs, x)
		}
	}
	for i := 0; i < len(obs) || i < len(s.Obs); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(s.Obs) {
			a = s.Obs[i]
		}
		if i < len(obs) {
			b = obs[i]
		}
		if a != b {
			return fmt.Sprintf("observation %d: symbolic %s native %s", i, a, b)
		}
	}
	return ""
}
