package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Options of one harness (from its //verif:opts directive).
type Options struct {
	steps     int
	depth     int
	mapOrder  bool
	explore   bool // schedules are symbolic
	preempt   int  // preemption bound
	race      bool
	timers    string // "idle" (default) or "any"
	realLog   bool
	maxPaths  int
	solver    string
	allocMax  int64
	selectAll bool
	noSha     bool
	replays   int
	raceRun   bool
	real      bool // third-party packages are executed as well
	timeout   int  // seconds per native replay
	weight    int
	queue     int  // length of the download queue
	fresh     bool // no configuration file at the start
	tier      string
	tpreempt  int
}

func defaultOpts() Options {
	return Options{steps: 3_000_000, depth: 3000, preempt: 2, timers: "idle", maxPaths: 400_000, solver: "z3-new", allocMax: 1 << 28, timeout: 20}
}

type decision struct {
	v      uint64 // branch: 0/1; choice: index; concretize: value
	forced bool
	n      uint8 // values of a choice; 0: two sides; skipDecision: an assumption
}

type workItem struct {
	prefix []decision
	model  Model
}

type Candidate struct {
	Harness string
	Kind    string // assert, panic, deadlock, race, steps, alloc
	Msg     string
	Where   string
	Known   string
	Model   Model
	Inputs  []inputRec
	Trace   []string
	Sched   []string
	key     string
	Alts    []*Candidate `json:"-"`
}

type inputRec struct {
	Name string `json:"name"`
	Val  uint64 `json:"val"`
	W    int    `json:"w"`
}

type obs struct {
	label string
	v     any // concrete after evaluation: string form
	raw   Value
}

type pathEnd struct {
	kind string // done, assume, unsupported, limit, violation, kill
	msg  string
}

type threadKill struct{}

type Machine struct {
	signals []sigReg // what was given to signal.Notify
	ticks   int
	capture bool // the harness looks at what is printed
	ports   int
	p       *Program
	tt      *TermTable
	sol     *Solver
	opt     Options
	h       *Harness
	job     *Job
	rng     *rand.Rand
	stubs   map[string]intrinsic

	// per path
	prefix     []decision
	trace      []decision
	pc         []*Term
	known      map[int]bool // term id -> truth value implied by pc
	knownV     map[int]uint64
	bnds       map[int]bnd
	rmemo      map[int]bnd
	lazy       []lazyDef
	eager      []*Term // pc without the definitions in lazy
	model      Model
	ev         *evaluator
	vars       []*Term
	names      map[string]int
	steps      int
	nextID     int
	globals    []*Cell
	stdInit    map[string]bool
	thirdInit  map[string]bool // on this path
	stdGlobals map[int]*Cell
	lenient    int
	initTarget *cfn
	epoch      int
	sliceStart int
	inInit     bool

	threads  []*Thread
	cur      *Thread
	mutexes  map[*Cell]*mutexSt
	objs     map[any]any
	clock    int64
	timers   []*timerSt
	preempts int
	sched    []string
	race     bool
	endCh    chan struct{}
	end      *pathEnd
	killing  bool
	pending  []workItem

	reached        map[string]bool
	observes       []obs
	asserts        int
	knownTag       string
	lastPanicWhere string
	shaApps        []shaApp
	fnSeen         map[*cfn]bool
	bounds         map[string]int
	stdout         []Value
	catchDepth     int
	maxAlloc       int64
	incomplete     []string
	env            map[string]any
	choices        int
	scheds         int
}

type shaApp struct {
	in  []Value
	out []*Term
}

func (m *Machine) resetPath(it workItem) {
	m.prefix = it.prefix
	m.trace = m.trace[:0:0]
	m.pc = m.pc[:0:0]
	m.known = map[int]bool{}
	m.knownV = map[int]uint64{}
	m.bnds = map[int]bnd{}
	m.rmemo = map[int]bnd{}
	m.lazy = nil
	m.eager = m.eager[:0:0]
	m.model = Model{}
	for k, v := range it.model {
		m.model[k] = v
	}
	m.ev = newEval(m.model)
	m.vars = nil
	m.names = map[string]int{}
	m.steps = 0
	m.globals = nil
	m.threads = nil
	m.cur = nil
	m.mutexes = map[*Cell]*mutexSt{}
	m.objs = map[any]any{}
	m.clock = 1_700_000_000_000_000_000
	m.timers = nil
	m.preempts = 0
	m.sched = nil
	m.end = nil
	m.killing = false
	m.pending = nil
	m.reached = map[string]bool{}
	m.observes = nil
	m.asserts = 0
	m.knownTag = ""
	m.shaApps = nil
	m.fnSeen = map[*cfn]bool{}
	m.stdout = nil
	m.signals = nil
	m.capture = false
	m.ports = 0
	m.ticks = 0
	m.maxAlloc = 0
	m.incomplete = nil
	m.env = map[string]any{}
	m.race = m.opt.race
	m.choices = 0
	m.scheds = 0
	m.epoch++
	m.sliceStart = 0
	m.endCh = make(chan struct{})
	m.thirdInit = nil
	if m.stdGlobals == nil {
		m.stdGlobals = map[int]*Cell{}
		m.stdInit = map[string]bool{}
	}
}

func (m *Machine) enter(c *cfn) {
	if !m.fnSeen[c] {
		m.fnSeen[c] = true
	}
}

// ---- globals

func (m *Machine) globalCell(i int) *Cell {
	if i < len(m.globals) && m.globals[i] != nil {
		return m.globals[i]
	}
	m.p.gmu.Lock()
	g := m.p.globals[i]
	n := len(m.p.globals)
	m.p.gmu.Unlock()
	for len(m.globals) < n {
		m.globals = append(m.globals, nil)
	}
	path := g.Pkg.Pkg.Path()
	if strings.HasPrefix(path, m.p.module) {
		c := &Cell{}
		m.globals[i] = c
		return c
	}
	if isThird(path) {
		c := &Cell{}
		m.globals[i] = c
		if m.h.Opt.real && !m.thirdInit[path] {
			if m.thirdInit == nil {
				m.thirdInit = map[string]bool{}
			}
			m.thirdInit[path] = true
			m.runStdInit(g.Pkg)
		}
		return c
	}
	if c, ok := m.stdGlobals[i]; ok {
		m.globals[i] = c
		return c
	}
	c := &Cell{}
	m.stdGlobals[i] = c
	m.globals[i] = c
	if !m.stdInit[path] && !isOpaque(path, m.p.module) {
		m.stdInit[path] = true
		m.runStdInit(g.Pkg)
	}
	return c
}

// runStdInit runs a library package's initialiser leniently, once per machine.
func (m *Machine) runStdInit(pkg *ssa.Package) {
	if skipStdInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	saveRace, saveSteps := m.race, m.steps
	m.race = false
	m.lenient++
	saveCur := m.cur
	th := m.cur
	var saveFr *frame
	if th == nil {
		th = &Thread{m: m}
		m.cur = th
	}
	saveFr = th.fr
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					if os.Getenv("SYMGO_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init of %s: %s %s\n", pkg.Pkg.Path(), r.kind, r.msg)
					}
				case targetPanic:
					if os.Getenv("SYMGO_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init of %s panics: %v %s\n", pkg.Pkg.Path(), r.v, r.where)
					}
				default:
					panic(r)
				}
			}
		}()
		saveT := m.initTarget
		defer func() { m.initTarget = saveT }()
		m.initTarget = m.p.cfn(f)
		m.callFn(th, nil, m.p.cfn(f), nil, nil)
	}()
	th.fr = saveFr
	m.cur = saveCur
	m.lenient--
	m.race, m.steps = saveRace, saveSteps
}

var skipStdInit = map[string]bool{"runtime": true, "os": false}

// the initialisers of library packages run only when one of their globals is
// first touched.
func (m *Machine) skipInit(c *cfn) bool {
	if c.repo {
		return false
	}
	return m.initTarget != c
}

// ---- path condition

func (m *Machine) addPC(t *Term) {
	if isC(t) {
		return
	}
	m.pc = append(m.pc, t)
	m.eager = append(m.eager, t)
	m.learn(t, true)
}

// lazyDef ties defined variables to the terms they are computed from. A query
// is first put without the definition; a model of that is completed by
// computing the variables, and only if that fails the definition is sent.
type lazyDef struct {
	t   *Term
	fix func(ev *evaluator, mod Model)
}

func (m *Machine) addLazy(t *Term, fix func(ev *evaluator, mod Model)) {
	m.pc = append(m.pc, t)
	m.lazy = append(m.lazy, lazyDef{t, fix})
	m.learn(t, true)
}

func (m *Machine) learn(t *Term, v bool) {
	if t.op == OBNot {
		m.learn(t.a, !v)
		return
	}
	m.known[t.id] = v
	m.learnRange(t, v)
	if v && t.op == OBAnd {
		m.learn(t.a, true)
		m.learn(t.b, true)
	}
	if !v && t.op == OBOr {
		m.learn(t.a, false)
		m.learn(t.b, false)
	}
	if v && t.op == OEq && isC(t.b) && t.a.w > 0 {
		m.knownV[t.a.id] = t.b.k
	}
	if v && t.op == OEq && isC(t.a) && t.b.w > 0 {
		m.knownV[t.b.id] = t.a.k
	}
}

func (m *Machine) known1(t *Term) (uint64, bool) {
	if isC(t) {
		return t.k, true
	}
	v, ok := m.knownV[t.id]
	return v, ok
}

func (m *Machine) lookupKnown(t *Term) (bool, bool) {
	if isC(t) {
		return t.k == 1, true
	}
	if v, ok := m.known[t.id]; ok {
		return v, true
	}
	switch t.op {
	case OBNot:
		v, ok := m.lookupKnown(t.a)
		return !v, ok
	case OBAnd:
		a, ok1 := m.lookupKnown(t.a)
		if ok1 && !a {
			return false, true
		}
		b, ok2 := m.lookupKnown(t.b)
		if ok2 && !b {
			return false, true
		}
		return true, ok1 && ok2
	case OBOr:
		a, ok1 := m.lookupKnown(t.a)
		if ok1 && a {
			return true, true
		}
		b, ok2 := m.lookupKnown(t.b)
		if ok2 && b {
			return true, true
		}
		return false, ok1 && ok2
	case OEq:
		if isC(t.b) {
			if v, ok := m.knownV[t.a.id]; ok {
				return v == t.b.k, true
			}
		}
		return m.rangeKnown(t)
	case OUlt, OSlt:
		return m.rangeKnown(t)
	}
	return false, false
}

func (m *Machine) branchV(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return m.branch(v.(*Term))
}

// branch decides a symbolic condition: the current model's side is taken and
// the other side, if the solver finds it satisfiable, is queued.
func (m *Machine) branch(c *Term) bool {
	if v, ok := m.lookupKnown(c); ok {
		return v
	}
	if m.lenient > 0 {
		m.unsupported("symbolic branch in initialisation")
	}
	k := len(m.trace)
	if k < len(m.prefix) {
		d := m.prefix[k]
		m.trace = append(m.trace, d)
		v := d.v == 1
		if d.forced {
			m.learn(c, v)
		} else if v {
			m.addPC(c)
		} else {
			m.addPC(m.tt.Not(c))
		}
		return v
	}
	v := m.ev.eval(c) == 1
	other := m.tt.Not(c)
	if !v {
		other = c
	}
	res, mod := m.check(other)
	switch res {
	case "unsat":
		m.trace = append(m.trace, decision{v: b2u(v), forced: true})
		m.learn(c, v)
		return v
	case "sat":
		m.push(decision{v: 1 - b2u(v)}, mod)
	default:
		m.note("solver gave no answer on a branch: one side not explored")
	}
	m.trace = append(m.trace, decision{v: b2u(v)})
	if v {
		m.addPC(c)
	} else {
		m.addPC(m.tt.Not(c))
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Machine) push(d decision, mod Model) {
	pre := make([]decision, len(m.trace)+1)
	copy(pre, m.trace)
	pre[len(m.trace)] = d
	m.pending = append(m.pending, workItem{pre, mod})
	m.job.addWork(m.pending)
	m.pending = nil
}

func (m *Machine) check(extra *Term) (string, Model) {
	if m.job.expired() {
		panic(pathEnd{"limit", "time budget"})
	}
	vs := m.vars
	if len(m.lazy) > 0 {
		res, mod := m.sol.Check(m.eager, extra, vs)
		if res == "unsat" {
			return res, nil
		}
		if res == "sat" {
			for k, v := range m.model {
				if _, ok := mod[k]; !ok {
					mod[k] = v
				}
			}
			for _, l := range m.lazy {
				l.fix(newEval(mod), mod)
			}
			ev := newEval(mod)
			good := extra == nil || ev.eval(extra) == 1
			for i := len(m.pc) - 1; i >= 0 && good; i-- {
				good = ev.eval(m.pc[i]) == 1
			}
			if good {
				return "sat", mod
			}
		}
	}
	res, mod := m.sol.Check(m.pc, extra, vs)
	if res == "sat" {
		// guard against a wrong model: it must satisfy what was asked
		ev := newEval(mod)
		if extra != nil && ev.eval(extra) != 1 {
			m.note("solver model does not satisfy the query")
			return "unknown", nil
		}
		// keep values of variables the query does not mention
		for k, v := range m.model {
			if _, ok := mod[k]; !ok {
				mod[k] = v
			}
		}
	}
	return res, mod
}

func (m *Machine) note(s string) {
	m.incomplete = append(m.incomplete, s)
}

// assume restricts the path.
func (m *Machine) assume(c *Term) {
	if v, ok := m.lookupKnown(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	k := len(m.trace)
	if k < len(m.prefix) {
		m.trace = append(m.trace, m.prefix[k])
		m.addPC(c)
		return
	}
	if m.ev.eval(c) != 1 {
		res, mod := m.check(c)
		if res == "unsat" {
			panic(pathEnd{"assume", ""})
		}
		if res != "sat" {
			m.note("solver gave no answer on an assumption")
			panic(pathEnd{"limit", "unknown assumption"})
		}
		m.setModel(mod)
	}
	m.trace = append(m.trace, decision{v: 1, n: skipDecision})
	m.addPC(c)
}

func (m *Machine) setModel(mod Model) {
	m.model = mod
	m.ev = newEval(mod)
}

// concretize forks over the values of a term.
func (m *Machine) concretize(t *Term, limit int) uint64 {
	if v, ok := m.known1(t); ok {
		return v
	}
	for n := 0; ; n++ {
		if n > limit || n > 300 {
			m.note("too many values of one expression: cut at " + m.where())
			panic(pathEnd{"limit", "concretize"})
		}
		var v uint64
		k := len(m.trace)
		if k < len(m.prefix) {
			d := m.prefix[k]
			v = d.v >> 1
			m.trace = append(m.trace, d)
			eq := m.tt.Eq(t, m.tt.Const(v, t.w))
			if d.v&1 == 1 {
				if d.forced {
					m.learn(eq, true)
				} else {
					m.addPC(eq)
				}
				m.knownV[t.id] = v
				return v
			}
			m.addPC(m.tt.Not(eq))
			continue
		}
		if t.w > 62 && m.ev.eval(t) >= 1<<62 {
			m.unsupported("concretize of a huge value")
		}
		v = m.ev.eval(t)
		eq := m.tt.Eq(t, m.tt.Const(v, t.w))
		res, mod := m.check(m.tt.Not(eq))
		if res == "unsat" {
			m.trace = append(m.trace, decision{v: v<<1 | 1, forced: true})
			m.learn(eq, true)
			m.knownV[t.id] = v
			return v
		}
		if res == "sat" {
			m.push(decision{v: v << 1}, mod)
		} else {
			m.note("solver gave no answer on a value split")
		}
		m.trace = append(m.trace, decision{v: v<<1 | 1})
		m.addPC(eq)
		m.knownV[t.id] = v
		return v
	}
}

// choose is an n-way symbolic choice (schedules, orders, lengths): a fresh
// variable below n, forked over its values.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.newVar(name, 8)
	c := m.tt.Const
	k := len(m.trace)
	if k < len(m.prefix) {
		d := m.prefix[k]
		m.trace = append(m.trace, d)
		m.addPC(m.tt.Eq(v, c(d.v, 8)))
		m.knownV[v.id] = d.v
		return int(d.v)
	}
	cur := int(m.model[v.name])
	if cur >= n {
		cur = 0
		m.model[v.name] = 0
	}
	for i := n - 1; i >= 0; i-- {
		if i == cur {
			continue
		}
		mod := Model{}
		for a, b := range m.model {
			mod[a] = b
		}
		mod[v.name] = uint64(i)
		m.push(decision{v: uint64(i), n: uint8(n)}, mod)
	}
	m.trace = append(m.trace, decision{v: uint64(cur), n: uint8(n)})
	m.addPC(m.tt.Eq(v, c(uint64(cur), 8)))
	m.knownV[v.id] = uint64(cur)
	m.choices++
	return cur
}

func (m *Machine) uniq(name string) string {
	n := m.names[name]
	m.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (m *Machine) newVar(name string, w int) *Term {
	v := m.tt.Var(m.uniq(name), w)
	m.vars = append(m.vars, v)
	return v
}

// defVar introduces a variable defined by existing terms (its value under the
// current model is given).
func (m *Machine) defVar(name string, w int, val uint64) *Term {
	v := m.newVar(name, w)
	if _, ok := m.model[v.name]; !ok {
		m.model[v.name] = val & mask1(w)
	}
	return v
}

// ---- failures

func (m *Machine) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg + " at " + firstLine(m.where())})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (m *Machine) stepLimit() {
	if m.lenient > 0 {
		panic(pathEnd{"unsupported", "library initialiser too long"})
	}
	m.candidate("steps", fmt.Sprintf("no end after %d instructions", m.opt.steps), m.where(), m.model)
	panic(pathEnd{"violation", "steps"})
}

func (m *Machine) crash(msg string) {
	m.candidate("panic", "fatal: "+msg, m.where(), m.model)
	panic(pathEnd{"violation", msg})
}

// assert decides the condition on the current path for every value.
func (m *Machine) assert(c *Term, msg string) {
	m.asserts++
	if v, ok := m.lookupKnown(c); ok {
		if !v {
			m.candidate("assert", msg, m.where(), m.model)
			panic(pathEnd{"violation", msg})
		}
		m.job.count(&m.job.Trivial)
		return
	}
	k := len(m.trace)
	if k < len(m.prefix) {
		m.trace = append(m.trace, m.prefix[k])
		m.addPC(c)
		return
	}
	res, mod := m.check(m.tt.Not(c))
	m.job.count(&m.job.AssertQ)
	switch res {
	case "unsat":
		m.trace = append(m.trace, decision{v: 1, forced: true})
		m.learn(c, true)
		return
	case "sat":
		m.candidate("assert", msg, m.where(), mod)
	default:
		m.note("solver gave no answer on an assertion: " + msg)
		panic(pathEnd{"limit", "unknown assertion"})
	}
	// go on with the side where it holds
	if m.ev.eval(c) != 1 {
		res, mod := m.check(c)
		if res != "sat" {
			panic(pathEnd{"violation", msg})
		}
		m.setModel(mod)
	}
	m.trace = append(m.trace, decision{v: 1, n: skipDecision})
	m.addPC(c)
}

func stripDigits(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

func (m *Machine) candidate(kind, msg, where string, mod Model) {
	c := &Candidate{Harness: m.h.Name, Kind: kind, Msg: msg, Where: where, Known: m.knownTag, Model: Model{}}
	for _, v := range m.vars {
		c.Inputs = append(c.Inputs, inputRec{v.name, mod[v.name] & mask1(v.w), v.w})
		c.Model[v.name] = mod[v.name] & mask1(v.w)
	}
	c.Sched = append(c.Sched, m.sched...)
	c.key = kind + "|" + stripDigits(msg) + "|" + c.Known
	if kind == "panic" {
		c.key += "|" + firstLine(where)
	}
	m.job.addCandidate(c)
}

// ---- allocation sizes

// nativeAlloc is the limit of a native run without a limit of its own.
const nativeAlloc = 1 << 28

func (m *Machine) allocSize(v Value, t, et *typeInfo, what string) int {
	i, tm := m.idx64(v, t)
	sz := int64(elemSize(et))
	if sz == 0 {
		sz = 1
	}
	lim := m.opt.allocMax / sz
	if tm == nil {
		if i < 0 || i > (1<<47)/sz {
			m.rtPanic("makeslice: " + what + " out of range")
		}
		if i > lim {
			m.allocViolation(i * sz)
		}
		return int(i)
	}
	c := m.tt.Const
	if m.branch(m.tt.Or(m.tt.Cmp(OSlt, tm, c(0, 64)), m.tt.Cmp(OSlt, c(uint64((int64(1)<<47)/sz), 64), tm))) {
		m.rtPanic("makeslice: " + what + " out of range")
	}
	// a size that a native run shows for certain
	if big := int64(nativeAlloc) / sz; big > lim && m.branch(m.tt.Cmp(OSlt, c(uint64(big), 64), tm)) {
		m.allocViolation(int64(m.ev.eval(tm)) * sz)
	}
	if m.branch(m.tt.Cmp(OSlt, c(uint64(lim), 64), tm)) {
		m.allocViolation(int64(m.ev.eval(tm)) * sz)
	}
	return int(m.concretize(tm, 1<<20))
}

func (m *Machine) allocViolation(n int64) {
	msg := fmt.Sprintf("allocation beyond the limit of %d bytes", m.opt.allocMax)
	if n > nativeAlloc {
		msg = "allocation far " + msg[len("allocation "):]
	}
	m.candidate("alloc", msg, m.where(), m.model)
	panic(pathEnd{"violation", "alloc"})
}

func (m *Machine) noteAlloc(n int, et *typeInfo) {
	b := int64(n) * int64(elemSize(et))
	if b > m.maxAlloc {
		m.maxAlloc = b
	}
	if b > m.opt.allocMax {
		m.allocViolation(b)
	}
}

// ---- running one path

func (m *Machine) runPath(it workItem) *pathEnd {
	m.resetPath(it)
	main := &Thread{m: m, id: 0, wake: make(chan struct{}), name: "main"}
	m.threads = []*Thread{main}
	main.vc = vclock{1}
	m.cur = main
	go main.run(func() {
		m.runInit(main)
		f := m.p.cfn(m.h.Fn)
		m.callFn(main, nil, f, nil, nil)
	}, true)
	main.wake <- struct{}{}
	<-m.endCh
	// kill what is left
	m.killing = true
	for _, t := range m.threads {
		if !t.dead {
			t.wake <- struct{}{}
			<-t.gone
		}
	}
	if len(m.prefix) > len(m.trace) && m.end != nil && m.end.kind == "done" {
		m.note("re-execution diverged from its prefix")
	}
	return m.end
}

func (m *Machine) runInit(th *Thread) {
	m.inInit = true
	saveRace := m.race
	m.race = false
	if q := m.h.Opt.queue; q > 0 {
		// a configuration with a short download queue, there from the start
		n := func(v int) Iface { return Iface{types.Typ[types.Int], uint64(v)} }
		m.env["vip:disk:"+vipPath(vipDefPath)] = vconf{
			"dht":          {"port": n(21000), "workpoolsize": n(2)},
			"fetchtorrent": {"infohashqueuesize": n(q), "workpoolsize": n(2)},
		}
	}
	m.callFn(th, nil, m.p.lookupFn(repoModule+"/zzverif/vnet", "init"), nil, nil)
	f := m.h.Fn.Pkg.Func("init")
	m.callFn(th, nil, m.p.cfn(f), nil, nil)
	m.race = saveRace
	m.inInit = false
	m.job.initSteps = m.steps
	m.steps = 0
}

func (p *Program) lookupFn(pkg, name string) *cfn {
	key := pkg + "." + name
	if c, ok := p.bindInv.Load(key); ok {
		return c.(*cfn)
	}
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if f := pk.Func(name); f != nil {
				c := p.cfn(f)
				p.bindInv.Store(key, c)
				return c
			}
		}
	}
	panic("no function " + key)
}

func (p *Program) lookupType(pkg, name string) types.Type {
	key := "type " + pkg + "." + name
	if c, ok := p.bindInv.Load(key); ok {
		return c.(types.Type)
	}
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if t := pk.Type(name); t != nil {
				p.bindInv.Store(key, t.Type())
				return t.Type()
			}
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func shortFile(f string) string {
	for _, pre := range []string{"/repo/", "/verif/"} {
		if strings.HasPrefix(f, pre) {
			return f[len(pre):]
		}
	}
	if i := strings.Index(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

var _ = time.Now

// sigReg is a channel that is to get signals, all of them if sigs is empty.
type sigReg struct {
	c    *ChanV
	sigs []uint64
}
