package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v *vclock) inc(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

type Thread struct {
	fresh     bool // the next scheduling point was offered already
	m         *Machine
	id        int
	name      string
	wake      chan struct{}
	gone      chan struct{}
	fr        *frame
	dead      bool
	ready     func() bool
	blocked   bool
	blockedOn string
	settling  bool
	vc        vclock
	start     string
}

func (th *Thread) run(f func(), isMain bool) {
	if th.gone == nil {
		th.gone = make(chan struct{})
	}
	m := th.m
	<-th.wake
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
			th.dead = true
			if isMain {
				m.end = &pathEnd{"done", ""}
				close(m.endCh)
				return
			}
			// hand over the baton
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pe, ok := r.(pathEnd); ok {
							m.end = &pe
						} else {
							m.end = &pathEnd{"unsupported", fmt.Sprint("engine: ", r)}
						}
						close(m.endCh)
					}
				}()
				m.next(th, true)
			}()
			return
		case threadKill:
			th.dead = true
			close(th.gone)
			return
		case pathEnd:
			m.end = &r
		case targetPanic:
			m.panicCandidate(r)
			m.end = &pathEnd{"violation", "panic"}
		default:
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n%s\n", r, m.where(), debug.Stack())
			}
			m.end = &pathEnd{"unsupported", fmt.Sprintf("engine error: %v at %s", r, firstLine(m.where()))}
		}
		th.dead = true
		close(m.endCh)
	}()
	if m.killing {
		panic(threadKill{})
	}
	f()
}

func (m *Machine) panicCandidate(tp targetPanic) {
	w := tp.where
	if w == "" {
		w = m.lastPanicWhere
	}
	m.candidate("panic", "panic escapes: "+m.panicText(tp.v), w, m.model)
}

func (m *Machine) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := concStr2(v.v); ok {
		return s
	}
	if c, ok := v.v.(*Cell); ok && c != nil {
		if sv, ok := c.v.(*StructV); ok {
			for i := range sv.f {
				if s, ok := concStr2(sv.f[i].v); ok {
					return fmt.Sprintf("%s(%s)", v.t, s)
				}
			}
		}
	}
	return fmt.Sprintf("value of type %s", v.t)
}

func concStr2(v Value) (string, bool) {
	switch v.(type) {
	case string, *SymStr, *ViewStr:
		return concStr(v)
	}
	return "", false
}

func (m *Machine) spawn(th *Thread, fv Value, args []Value, fr *frame) {
	if len(m.threads) > 4000 {
		m.unsupported("too many goroutines")
	}
	n := &Thread{m: m, id: len(m.threads), wake: make(chan struct{}), gone: make(chan struct{})}
	if cl, ok := fv.(*Closure); ok && cl.fn != nil {
		n.name = cl.fn.String()
	}
	if m.race {
		n.vc = th.vc.copy()
		n.vc.inc(n.id)
		th.vc.inc(th.id)
	}
	m.threads = append(m.threads, n)
	go n.run(func() { m.callValue(n, nil, fv, args) }, false)
}

func (m *Machine) runnable(skip *Thread) []*Thread {
	var r []*Thread
	for _, t := range m.threads {
		if t.dead || t == skip || t.settling {
			continue
		}
		if t.blocked {
			if t.ready != nil && t.ready() {
				r = append(r, t)
			}
			continue
		}
		r = append(r, t)
	}
	return r
}

func (m *Machine) logSched(th *Thread, kind string) {
	if len(m.sched) < 400 {
		pos := ""
		if th.fr != nil {
			fr := th.fr
			for fr != nil && (!fr.c.repo || fr.c.vnet) {
				fr = fr.caller
			}
			if fr != nil {
				p := m.p.prog.Fset.Position(fr.line)
				pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
			}
		}
		m.sched = append(m.sched, fmt.Sprintf("%s t%d %s", kind, th.id, pos))
	}
}

// visible is a scheduling point before an operation on shared state.
func (m *Machine) visible(th *Thread) {
	if m.inInit || m.lenient > 0 {
		return
	}
	if !m.opt.explore {
		if m.steps-m.sliceStart > 30000 {
			if o := m.runnable(th); len(o) > 0 {
				m.switchTo(th, m.roundRobin(th, o))
			}
		}
		return
	}
	if m.steps-m.sliceStart > 30000 {
		if o := m.runnable(th); len(o) > 0 {
			m.switchTo(th, m.roundRobin(th, o))
			return
		}
	}
	if th.fresh {
		th.fresh = false
		return
	}
	if m.preempts >= m.opt.preempt {
		return
	}
	o := m.runnable(th)
	nt := 0
	if m.opt.timers == "any" && len(m.timers) > 0 {
		nt = 1
	}
	if len(o)+nt == 0 {
		return
	}
	m.scheds++
	k := m.choose("sched", 1+len(o)+nt)
	if k == 0 {
		return
	}
	m.preempts++
	m.logSched(th, "preempt")
	if k-1 < len(o) {
		m.switchTo(th, o[k-1])
		return
	}
	m.fireTimer()
}

func (m *Machine) roundRobin(th *Thread, o []*Thread) *Thread {
	for _, t := range o {
		if t.id > th.id {
			return t
		}
	}
	return o[0]
}

// switchTo hands the baton to t and waits for it to come back.
func (m *Machine) switchTo(th, t *Thread) {
	if t == th {
		return
	}
	m.cur = t
	m.sliceStart = m.steps
	t.wake <- struct{}{}
	<-th.wake
	if m.killing {
		panic(threadKill{})
	}
	m.cur = th
}

// block parks the thread until ready() holds.
func (m *Machine) block(th *Thread, what string, ready func() bool) {
	if m.lenient > 0 || (m.inInit && th.id == 0 && false) {
		m.unsupported("blocking in initialisation")
	}
	th.ready, th.blocked, th.blockedOn = ready, true, what
	m.next(th, false)
	th.blocked, th.ready, th.blockedOn = false, nil, ""
}

// next picks the thread to run when th cannot go on (it is blocked or ended).
func (m *Machine) next(th *Thread, ended bool) {
	for {
		c := m.runnable(nil)
		if ended {
			c = m.runnable(th)
		}
		nt := 0
		if m.opt.explore && m.opt.timers == "any" && len(m.timers) > 0 && m.preempts < m.opt.preempt {
			nt = 1
		}
		if len(c) > 0 {
			var t *Thread
			if m.opt.explore && !m.inInit && len(c)+nt > 1 {
				m.scheds++
				k := m.choose("sched", len(c)+nt)
				if k >= len(c) {
					m.preempts++
					m.fireTimer()
					continue
				}
				t = c[k]
			} else {
				t = m.roundRobin(th, c)
			}
			if t == th && !ended {
				return
			}
			if ended {
				m.cur = t
				m.sliceStart = m.steps
				t.wake <- struct{}{}
				return
			}
			m.switchTo(th, t)
			return
		}
		// nothing can run: a thread waiting for quiescence, then time
		var s *Thread
		for _, t := range m.threads {
			if !t.dead && t.settling {
				s = t
				break
			}
		}
		if s != nil {
			if s == th {
				return
			}
			if ended {
				m.cur = s
				s.wake <- struct{}{}
				return
			}
			m.switchTo(th, s)
			return
		}
		if m.fireTimer() {
			continue
		}
		msg := "deadlock: all goroutines are blocked"
		w := ""
		for _, t := range m.threads {
			if !t.dead {
				w += fmt.Sprintf("t%d %s on %s; ", t.id, t.name, t.blockedOn)
			}
		}
		m.candidate("deadlock", msg, w, m.model)
		panic(pathEnd{"violation", msg})
	}
}

func (m *Machine) settle(th *Thread) {
	th.settling = true
	th.blocked = true
	th.ready = func() bool { return false }
	m.next(th, false)
	th.blocked, th.ready, th.settling = false, nil, false
	// everything came to rest before the harness goes on
	if m.race {
		for _, o := range m.threads {
			if o != th {
				th.vc.join(o.vc)
				o.vc.inc(o.id)
			}
		}
	}
}

// ---- time

type timerSt struct {
	when   int64
	seq    int
	fire   func()
	period int64
	active bool
}

func (m *Machine) addTimer(d int64, fire func()) *timerSt {
	m.nextID++
	if d < 0 {
		d = 0
	}
	t := &timerSt{when: m.clock + d, seq: m.nextID, fire: fire, active: true}
	m.timers = append(m.timers, t)
	return t
}

func (m *Machine) delTimer(t *timerSt) bool {
	for i, x := range m.timers {
		if x == t {
			m.timers = append(m.timers[:i:i], m.timers[i+1:]...)
			t.active = false
			return true
		}
	}
	return false
}

func (m *Machine) fireTimer() bool {
	if len(m.timers) == 0 {
		return false
	}
	sort.SliceStable(m.timers, func(i, j int) bool {
		a, b := m.timers[i], m.timers[j]
		return a.when < b.when || a.when == b.when && a.seq < b.seq
	})
	t := m.timers[0]
	m.timers = append(m.timers[:0:0], m.timers[1:]...)
	t.active = false
	if t.when > m.clock {
		m.clock = t.when
	}
	if m.opt.explore && len(m.sched) < 400 {
		m.sched = append(m.sched, "timer")
	}
	t.fire()
	return true
}

// ---- channels

type ChanV struct {
	buf    []Value
	bvc    []vclock
	cap    int
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	id     int
	vc     vclock // closing
	slots  []vclock
	sx, rx int
}

type waiter struct {
	th  *Thread
	ch  *ChanV
	val Value
	ok  bool
	sel *selState
	idx int
	vc  vclock
}

type selState struct {
	fired  bool
	idx    int
	val    Value
	ok     bool
	closed bool
	vc     vclock
}

func (m *Machine) newChan(n int) *ChanV {
	m.nextID++
	return &ChanV{cap: n, id: m.nextID}
}

func (q *ChanV) popSend() *waiter {
	for len(q.sendq) > 0 {
		w := q.sendq[0]
		q.sendq = q.sendq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func (q *ChanV) popRecv() *waiter {
	for len(q.recvq) > 0 {
		w := q.recvq[0]
		q.recvq = q.recvq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func liveW(ws []*waiter, self *selState) bool {
	for _, w := range ws {
		if !w.sel.fired && w.sel != self {
			return true
		}
	}
	return false
}

func (m *Machine) canSend(c *ChanV) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || liveW(c.recvq, nil))
}
func (m *Machine) canRecv(c *ChanV) bool {
	return c != nil && (c.closed || len(c.buf) > 0 || liveW(c.sendq, nil))
}

func (m *Machine) slotVC(c *ChanV, k int) *vclock {
	n := max(c.cap, 1)
	for len(c.slots) < n {
		c.slots = append(c.slots, nil)
	}
	return &c.slots[k%n]
}

// doSend performs a send that canSend allows.
func (m *Machine) doSend(th *Thread, c *ChanV, v Value) {
	if c.closed {
		m.rtPanicPlain("send on closed channel")
	}
	v = copyVal(v)
	if w := c.popRecv(); w != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		if m.race {
			w.sel.vc = th.vc.copy()
			th.vc.join(w.vc)
			th.vc.inc(th.id)
		}
		return
	}
	c.buf = append(c.buf, v)
	if m.race {
		s := m.slotVC(c, c.sx)
		th.vc.join(*s)
		*s = th.vc.copy()
		c.sx++
		th.vc.inc(th.id)
	}
}

func (m *Machine) doRecv(th *Thread, c *ChanV, et *typeInfo) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if m.race {
			s := m.slotVC(c, c.rx)
			th.vc.join(*s)
			*s = th.vc.copy()
			c.rx++
			th.vc.inc(th.id)
		}
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.sel.fired, w.sel.idx = true, w.idx
			if m.race {
				s := m.slotVC(c, c.sx)
				w.sel.vc = s.copy()
				s.join(w.vc)
				c.sx++
			}
		}
		return v, true
	}
	if w := c.popSend(); w != nil { // unbuffered
		w.sel.fired, w.sel.idx = true, w.idx
		if m.race {
			w.sel.vc = th.vc.copy()
			th.vc.join(w.vc)
			th.vc.inc(th.id)
		}
		return w.val, true
	}
	if m.race {
		th.vc.join(c.vc)
	}
	return zero(et), false
}

func (m *Machine) rtPanicPlain(msg string) {
	panic(targetPanic{v: Iface{m.p.rtErr, msg}, where: m.where()})
}

func (m *Machine) chanSend(th *Thread, c *ChanV, v Value) {
	m.visible(th)
	if c == nil {
		m.block(th, "send on nil channel", func() bool { return false })
	}
	if m.canSend(c) {
		m.doSend(th, c, v)
		return
	}
	s := &selState{}
	w := &waiter{th: th, ch: c, val: copyVal(v), sel: s, vc: th.vc.copy()}
	if m.race {
		th.vc.inc(th.id)
	}
	c.sendq = append(c.sendq, w)
	m.block(th, "chan send", func() bool { return s.fired })
	if m.race {
		th.vc.join(s.vc)
	}
	if s.closed {
		m.rtPanicPlain("send on closed channel")
	}
}

func (m *Machine) chanRecv(th *Thread, c *ChanV, et *typeInfo) (Value, bool) {
	m.visible(th)
	if c == nil {
		m.block(th, "receive on nil channel", func() bool { return false })
	}
	if m.canRecv(c) {
		return m.doRecv(th, c, et)
	}
	s := &selState{}
	w := &waiter{th: th, ch: c, sel: s, vc: th.vc.copy()}
	if m.race {
		th.vc.inc(th.id)
	}
	c.recvq = append(c.recvq, w)
	m.block(th, "chan receive", func() bool { return s.fired })
	if m.race {
		th.vc.join(s.vc)
	}
	if !s.ok {
		return zero(et), false
	}
	return s.val, true
}

func (m *Machine) chanClose(th *Thread, c *ChanV) {
	m.visible(th)
	if c == nil {
		m.rtPanicPlain("close of nil channel")
	}
	if c.closed {
		m.rtPanicPlain("close of closed channel")
	}
	c.closed = true
	if m.race {
		c.vc.join(th.vc)
		th.vc.inc(th.id)
	}
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, false
		w.sel.vc = c.vc.copy()
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.closed = true, w.idx, true
	}
}

// trySend delivers without blocking (timers).
func (m *Machine) trySendRaw(c *ChanV, v Value) {
	if m.canSend(c) && !c.closed {
		th := &Thread{m: m, id: 0}
		m.doSend(th, c, v)
	}
}

func (m *Machine) selectStmt(fr *frame, ci *cins, ins *ssa.Select) Value {
	th := fr.th
	m.visible(th)
	type cse struct {
		send bool
		c    *ChanV
		v    Value
		et   *typeInfo
	}
	cs := make([]cse, len(ins.States))
	for i, st := range ins.States {
		ch, _ := m.get(fr, &ci.x[2*i]).(*ChanV)
		cs[i] = cse{send: st.Dir == types.SendOnly, c: ch, et: ti(st.Chan.Type()).el()}
		if cs[i].send {
			cs[i].v = m.get(fr, &ci.x[2*i+1])
		}
	}
	res := func(idx int, ok bool, v Value) Value {
		r := Tuple{uint64(int64(idx)), ok}
		for i, c := range cs {
			if !c.send {
				if i == idx {
					r = append(r, v)
				} else {
					r = append(r, zero(c.et))
				}
			}
		}
		return r
	}
	var ready []int
	for i, c := range cs {
		if c.send && m.canSend(c.c) || !c.send && m.canRecv(c.c) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if (m.opt.explore || m.opt.selectAll) && !m.inInit {
			k = m.choose("select", len(ready))
		}
		i := ready[k]
		if cs[i].send {
			m.doSend(th, cs[i].c, cs[i].v)
			return res(i, false, nil)
		}
		v, ok := m.doRecv(th, cs[i].c, cs[i].et)
		return res(i, ok, v)
	}
	if !ins.Blocking {
		return res(-1, false, nil)
	}
	s := &selState{}
	for i, c := range cs {
		if c.c == nil {
			continue
		}
		w := &waiter{th: th, ch: c.c, sel: s, idx: i, vc: th.vc.copy()}
		if c.send {
			w.val = copyVal(c.v)
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	if m.race {
		th.vc.inc(th.id)
	}
	m.block(th, "select", func() bool { return s.fired })
	if m.race {
		th.vc.join(s.vc)
	}
	if s.closed {
		m.rtPanicPlain("send on closed channel")
	}
	v := s.val
	if v == nil && !cs[s.idx].send {
		v = zero(cs[s.idx].et)
	}
	return res(s.idx, s.ok, v)
}

// ---- mutexes, wait groups

type mutexSt struct {
	locked  bool
	readers int
	wwait   int
	vc      vclock
	rvc     vclock
	count   int64 // wait group / semaphore
	signals int
	waiters []*selState
	val     Value
}

func (m *Machine) mst(c *Cell) *mutexSt {
	s := m.mutexes[c]
	if s == nil {
		s = &mutexSt{}
		m.mutexes[c] = s
	}
	return s
}

func (m *Machine) lock(th *Thread, c *Cell) {
	m.visible(th)
	s := m.mst(c)
	for s.locked || s.readers > 0 {
		s.wwait++
		m.block(th, "mutex", func() bool { return !s.locked && s.readers == 0 })
		s.wwait--
	}
	s.locked = true
	if m.race {
		th.vc.join(s.vc)
		th.vc.join(s.rvc)
	}
}

func (m *Machine) tryLock(th *Thread, c *Cell) bool {
	m.visible(th)
	s := m.mst(c)
	if s.locked || s.readers > 0 {
		return false
	}
	s.locked = true
	if m.race {
		th.vc.join(s.vc)
		th.vc.join(s.rvc)
	}
	return true
}

func (m *Machine) unlock(th *Thread, c *Cell, what string) {
	s := m.mst(c)
	if !s.locked {
		m.crash("sync: unlock of unlocked " + what)
	}
	if m.race {
		s.vc.join(th.vc)
		th.vc.inc(th.id)
	}
	s.locked = false // what follows commutes up to the next scheduling point
}

func (m *Machine) rlock(th *Thread, c *Cell) {
	m.visible(th)
	s := m.mst(c)
	for s.locked || s.wwait > 0 {
		m.block(th, "rwmutex read", func() bool { return !s.locked && s.wwait == 0 })
	}
	s.readers++
	if m.race {
		th.vc.join(s.vc)
	}
}

func (m *Machine) runlock(th *Thread, c *Cell) {
	s := m.mst(c)
	if s.readers <= 0 {
		m.crash("sync: RUnlock of unlocked RWMutex")
	}
	if m.race {
		s.rvc.join(th.vc)
		th.vc.inc(th.id)
	}
	s.readers--
}

// ---- data races

type cellMeta struct {
	epoch int
	ro    bool
	wT    int
	wC    uint32
	wPos  string
	reads []readRec
	vc    vclock // atomics
}

type readRec struct {
	t   int
	c   uint32
	pos string
}

func (m *Machine) pos(th *Thread) string {
	fr := th.fr
	for fr != nil && (!fr.c.repo || fr.c.vnet) {
		fr = fr.caller
	}
	if fr == nil {
		return "?"
	}
	p := m.p.prog.Fset.Position(fr.line)
	return fmt.Sprintf("%s (%s:%d)", fr.c.name, shortFile(p.Filename), p.Line)
}

func (m *Machine) raceCell(c *Cell, t *typeInfo, write bool) {
	if !m.race || m.lenient > 0 || len(m.threads) < 2 {
		if !m.race || m.lenient > 0 {
			return
		}
	}
	switch x := c.v.(type) {
	case *StructV:
		for i := range x.f {
			m.raceCell(&x.f[i], nil, write)
		}
		return
	case *ArrV:
		for i := range x.e {
			m.raceCell(&x.e[i], nil, write)
		}
		return
	}
	if c.meta == nil || c.meta.epoch != m.epoch {
		ro := c.meta != nil && c.meta.ro
		c.meta = &cellMeta{epoch: m.epoch, ro: ro, wT: -1}
	}
	m.raceMeta(c.meta, write, "memory")
}

func (m *Machine) raceMeta(mt *cellMeta, write bool, what string) {
	th := m.cur
	if th.fr != nil && th.fr.c.vnet && !th.fr.c.xfer {
		// the bookkeeping of the network model, which stands for the kernel
		return
	}
	if mt.wT >= 0 && mt.wT != th.id && th.vc.at(mt.wT) < mt.wC {
		m.raceFound(what, mt.wPos, m.pos(th), true, write)
	}
	if write {
		for _, r := range mt.reads {
			if r.t != th.id && th.vc.at(r.t) < r.c {
				m.raceFound(what, r.pos, m.pos(th), false, true)
			}
		}
		mt.wT, mt.wC, mt.wPos = th.id, th.vc.at(th.id), m.pos(th)
		mt.reads = mt.reads[:0]
		return
	}
	for i := range mt.reads {
		if mt.reads[i].t == th.id {
			mt.reads[i].c, mt.reads[i].pos = th.vc.at(th.id), m.pos(th)
			return
		}
	}
	mt.reads = append(mt.reads, readRec{th.id, th.vc.at(th.id), m.pos(th)})
}

func (m *Machine) raceFound(what, p1, p2 string, w1, w2 bool) {
	k := map[bool]string{true: "write", false: "read"}
	if p2 < p1 {
		p1, p2, w1, w2 = p2, p1, w2, w1
	}
	m.candidate("race", fmt.Sprintf("data race on %s: %s in %s, %s in %s", what, k[w1], p1, k[w2], p2), m.where(), m.model)
}

func (m *Machine) raceRange(s SliceV, write bool) {
	for i := 0; i < s.n; i++ {
		m.raceCell(&s.arr.e[s.off+i], nil, write)
	}
}

func (m *Machine) raceMap(mv *MapV, write bool) {
	if !m.race || mv == nil || m.lenient > 0 {
		return
	}
	if mv.meta == nil || mv.meta.epoch != m.epoch {
		mv.meta = &cellMeta{epoch: m.epoch, wT: -1}
	}
	m.raceMeta(mv.meta, write, "map")
}

func (m *Machine) acqRel(th *Thread, vc *vclock) {
	if !m.race {
		return
	}
	th.vc.join(*vc)
	*vc = th.vc.copy()
	th.vc.inc(th.id)
}
