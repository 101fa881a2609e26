package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	th        *Thread
	c         *cfn
	regs      []Value
	fv        []Value
	defers    []deferred
	caller    *frame
	block     int
	prev      int
	result    Value
	panicking bool
	panicv    Value // Iface
	line      token.Pos
	depth     int
}

type deferred struct {
	fn   Value
	args []Value
	ins  *ssa.Defer
}

type targetPanic struct {
	v     Iface
	where string
}

func (m *Machine) get(fr *frame, o *opnd) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		if o.t != nil && (o.t.kind == kStruct || o.t.kind == kArray) {
			return copyVal(o.v)
		}
		return o.v
	case oGlobal:
		return m.globalCell(o.i)
	case oFreeVar:
		return fr.fv[o.i]
	}
	return nil
}

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{v: Iface{m.p.rtErr, msg}, where: m.where()})
}

func (m *Machine) where() string {
	if m.cur == nil || m.cur.fr == nil {
		return ""
	}
	s := ""
	for fr, n := m.cur.fr, 0; fr != nil && n < 12; fr, n = fr.caller, n+1 {
		pos := m.p.prog.Fset.Position(fr.line)
		s += fmt.Sprintf("%s (%s:%d)\n", fr.c.name, shortFile(pos.Filename), pos.Line)
	}
	return s
}

// callValue calls a function value.
func (m *Machine) callValue(th *Thread, fr *frame, fn Value, args []Value) Value {
	cl, _ := fn.(*Closure)
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.nat != nil {
		return cl.nat(m, th, args)
	}
	if cl.bi != "" {
		m.unsupported("builtin value " + cl.bi)
	}
	return m.callFn(th, fr, m.p.cfn(cl.fn), args, cl.fv)
}

func (m *Machine) callFn(th *Thread, caller *frame, c *cfn, args, fv []Value) Value {
	m.p.prepare(c)
	if c.redirect != nil {
		c = c.redirect
		m.p.prepare(c)
	}
	if c.intr != nil {
		m.p.intrHit.LoadOrStore(c.name, true)
		return c.intr(m, th, c, args)
	}
	if c.opaque && !(c.third && m.h.Opt.real) {
		m.p.opaqueHit.LoadOrStore(c.name, true)
		return zeroResults(c)
	}
	if c.blocks == nil {
		if m.lenient > 0 {
			return zeroResults(c)
		}
		m.unsupported("no body: " + c.name)
	}
	if m.stubs != nil {
		if f, ok := m.stubs[c.name]; ok {
			return f(m, th, c, args)
		}
	}
	if c.fn.Synthetic == "package initializer" {
		if m.skipInit(c) {
			return nil
		}
	}
	if c.repo && m.lenient == 0 {
		m.enter(c)
	}
	fr := &frame{th: th, c: c, caller: caller, fv: fv, block: 0, prev: -1}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > m.opt.depth {
		m.crash("stack overflow (call depth over " + fmt.Sprint(m.opt.depth) + ")")
	}
	fr.regs = make([]Value, c.nregs)
	copy(fr.regs, args)
	saved := th.fr
	th.fr = fr
	for fr.block != -1 {
		m.runFrame(fr)
	}
	th.fr = saved
	return fr.result
}

func zeroResults(c *cfn) Value {
	switch len(c.results.fields) {
	case 0:
		return nil
	case 1:
		return zero(ti(c.results.fields[0]))
	}
	return zero(c.results)
}

func (m *Machine) runFrame(fr *frame) {
	if fr.c.hasDefer {
		defer func() {
			if fr.block == -1 {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.th.fr = fr
			fr.panicking = true
			fr.panicv = tp.v
			if tp.where != "" {
				m.lastPanicWhere = tp.where
			}
			m.runDefers(fr)
			if fr.c.fn.Recover != nil {
				fr.prev = -1
				fr.block = fr.c.fn.Recover.Index
			} else {
				fr.block = -1
				fr.result = zeroResults(fr.c)
			}
		}()
	}
	for {
		b := &fr.c.blocks[fr.block]
		if len(b.phis) > 0 {
			k := -1
			for i, p := range b.b.Preds {
				if p.Index == fr.prev {
					k = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = m.get(fr, &b.phis[0].x[k])
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, m.get(fr, &b.phis[i].x[k]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = t[i]
				}
			}
		}
		next := -2
		for i := range b.ins {
			m.steps++
			if m.steps > m.opt.steps {
				m.stepLimit()
			}
			next = m.exec(fr, &b.ins[i])
			if next != -2 {
				break
			}
		}
		if next == -1 {
			fr.block = -1
			return
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(targetPanic{v: fr.panicv.(Iface)})
	}
}

func (m *Machine) runDefer(fr *frame, d deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, isT := r.(targetPanic)
		if !isT {
			panic(r)
		}
		fr.th.fr = fr
		fr.panicking = true
		fr.panicv = tp.v
		if tp.where != "" {
			m.lastPanicWhere = tp.where
		}
	}()
	if cl, o := d.fn.(*Closure); o && cl != nil && cl.bi != "" {
		m.builtin(fr, nil, cl.bi, d.args, &d.ins.Call)
	} else {
		m.callValue(fr.th, fr, d.fn, d.args)
	}
	ok = true
}

var lookupMu sync.Mutex
var methodCache sync.Map

type methKey struct {
	t types.Type
	m *types.Func
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *cfn {
	k := methKey{t, meth}
	if c, ok := methodCache.Load(k); ok {
		return c.(*cfn)
	}
	lookupMu.Lock()
	defer lookupMu.Unlock()
	sel := m.p.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		m.unsupported("method " + meth.Name() + " of " + t.String())
	}
	c := m.p.cfn(m.p.prog.MethodValue(sel))
	methodCache.Store(k, c)
	return c
}

var implCache sync.Map

type implKey struct {
	t types.Type
	i *types.Interface
}

func implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	lookupMu.Lock()
	r := types.Implements(t, it)
	lookupMu.Unlock()
	implCache.Store(k, r)
	return r
}

func (m *Machine) prepCall(fr *frame, ci *cins, cc *ssa.CallCommon) (Value, *cfn, []Value) {
	na := len(cc.Args)
	if ci.call.invoke != nil {
		recv := m.get(fr, &ci.x[0]).(Iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 0, na+1)
		if nf, ok := recv.v.(*natIface); ok {
			args = append(args, recv.v)
			for i := 0; i < na; i++ {
				args = append(args, m.get(fr, &ci.x[1+i]))
			}
			return &Closure{nat: func(m *Machine, th *Thread, a []Value) Value {
				return nf.call(m, th, ci.call.invoke.Name(), a[1:])
			}}, nil, args
		}
		c := m.lookupMethod(recv.t, ci.call.invoke)
		args = append(args, copyVal(recv.v))
		for i := 0; i < na; i++ {
			args = append(args, m.get(fr, &ci.x[1+i]))
		}
		return nil, c, args
	}
	args := make([]Value, na)
	for i := 0; i < na; i++ {
		args[i] = m.get(fr, &ci.x[1+i])
	}
	if ci.call.static != nil {
		return nil, ci.call.static, args
	}
	return m.get(fr, &ci.x[0]), nil, args
}

// natIface is an interface value implemented by the engine.
type natIface struct {
	name string
	call func(m *Machine, th *Thread, method string, args []Value) Value
	data any
}

// exec returns -2 to continue, -1 on return, or the next block.
func (m *Machine) exec(fr *frame, ci *cins) int {
	switch ins := ci.ins.(type) {
	case *ssa.BinOp:
		if ins.Pos() != 0 {
			fr.line = ins.Pos()
		}
		fr.regs[ci.dst] = m.binop(ins.Op, ci.x[0].t, ci.x[1].t, m.get(fr, &ci.x[0]), m.get(fr, &ci.x[1]))

	case *ssa.UnOp:
		if ins.Pos() != 0 {
			fr.line = ins.Pos()
		}
		x := m.get(fr, &ci.x[0])
		switch ins.Op {
		case token.MUL:
			fr.regs[ci.dst] = m.load(ci.t, x)
		case token.ARROW:
			v, ok := m.chanRecv(fr.th, x.(*ChanV), ci.x[0].t.el())
			if ins.CommaOk {
				fr.regs[ci.dst] = Tuple{v, ok}
			} else {
				fr.regs[ci.dst] = v
			}
		case token.NOT:
			if b, ok := x.(bool); ok {
				fr.regs[ci.dst] = !b
			} else {
				fr.regs[ci.dst] = lowerBool(m.tt.Not(x.(*Term)))
			}
		case token.SUB:
			if ci.t.kind == kFloat {
				fr.regs[ci.dst] = -x.(float64)
			} else if c, ok := x.(uint64); ok {
				fr.regs[ci.dst] = (-c) & mask(ci.t.w)
			} else {
				fr.regs[ci.dst] = lowerInt(m.tt.Neg(x.(*Term)))
			}
		case token.XOR:
			if c, ok := x.(uint64); ok {
				fr.regs[ci.dst] = (^c) & mask(ci.t.w)
			} else {
				fr.regs[ci.dst] = lowerInt(m.tt.BVNot(x.(*Term)))
			}
		default:
			m.unsupported("unop " + ins.Op.String())
		}

	case *ssa.Call:
		fr.line = ins.Pos()
		if ci.call.bi != "" {
			args := make([]Value, len(ins.Call.Args))
			for i := range args {
				args[i] = m.get(fr, &ci.x[1+i])
			}
			r := m.builtin(fr, ci, ci.call.bi, args, &ins.Call)
			if ci.dst >= 0 {
				fr.regs[ci.dst] = r
			}
			return -2
		}
		fv, c, args := m.prepCall(fr, ci, &ins.Call)
		var r Value
		if c != nil {
			r = m.callFn(fr.th, fr, c, args, nil)
		} else {
			r = m.callValue(fr.th, fr, fv, args)
		}
		if ci.dst >= 0 {
			fr.regs[ci.dst] = r
		}

	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = m.get(fr, &ci.x[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = m.get(fr, &ci.x[0])
	case *ssa.Convert:
		fr.line = ins.Pos()
		fr.regs[ci.dst] = m.convert(ci.t, ci.x[0].t, m.get(fr, &ci.x[0]), fr)
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(ci.t, ci.x[0].t, m.get(fr, &ci.x[0]), fr)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &ci.x[0]).(SliceV)
		n := ci.t.el().n
		if s.n < n {
			m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.n, n))
		}
		if s.arr == nil {
			fr.regs[ci.dst] = (*Cell)(nil)
			break
		}
		// alias: an array value sharing the cells
		a := &ArrV{e: s.arr.e[s.off : s.off+n : s.off+n]}
		fr.regs[ci.dst] = &Cell{v: a}

	case *ssa.MakeInterface:
		v := m.get(fr, &ci.x[0])
		if ci.x[0].t.kind == kString {
			// keep views: they alias
		}
		fr.regs[ci.dst] = Iface{ci.x[0].t.t, copyVal(v)}

	case *ssa.Extract:
		fr.regs[ci.dst] = m.get(fr, &ci.x[0]).(Tuple)[ins.Index]

	case *ssa.Slice:
		fr.line = ins.Pos()
		fr.regs[ci.dst] = m.slice(fr, ci)

	case *ssa.Return:
		switch len(ci.x) {
		case 0:
		case 1:
			fr.result = m.get(fr, &ci.x[0])
		default:
			r := make(Tuple, len(ci.x))
			for i := range r {
				r[i] = m.get(fr, &ci.x[i])
			}
			fr.result = r
		}
		return -1

	case *ssa.RunDefers:
		m.runDefers(fr)

	case *ssa.Panic:
		fr.line = ins.Pos()
		v := m.get(fr, &ci.x[0]).(Iface)
		if v.t == nil {
			m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(targetPanic{v: v, where: m.where()})

	case *ssa.Send:
		fr.line = ins.Pos()
		m.chanSend(fr.th, m.get(fr, &ci.x[0]).(*ChanV), m.get(fr, &ci.x[1]))

	case *ssa.Store:
		if ins.Pos() != 0 {
			fr.line = ins.Pos()
		}
		m.store(ci.x[1].t, m.get(fr, &ci.x[0]), m.get(fr, &ci.x[1]))

	case *ssa.If:
		c := m.get(fr, &ci.x[0])
		t, ok := c.(bool)
		if !ok {
			t = m.branch(c.(*Term))
		}
		if t {
			return fr.c.blocks[fr.block].b.Succs[0].Index
		}
		return fr.c.blocks[fr.block].b.Succs[1].Index

	case *ssa.Jump:
		return fr.c.blocks[fr.block].b.Succs[0].Index

	case *ssa.Defer:
		fr.line = ins.Pos()
		var d deferred
		if ci.call.bi != "" {
			args := make([]Value, len(ins.Call.Args))
			for i := range args {
				args[i] = m.get(fr, &ci.x[1+i])
			}
			d = deferred{&Closure{bi: ci.call.bi}, args, ins}
		} else {
			fv, c, args := m.prepCall(fr, ci, &ins.Call)
			if c != nil {
				fv = &Closure{fn: c.fn}
			}
			d = deferred{fv, args, ins}
		}
		target := fr
		if ins.DeferStack != nil {
			// range-over-func: defers go to the enclosing function's stack
			if t, ok := m.get(fr, &ci.x[len(ci.x)-1]).(*frame); ok {
				target = t
			}
		}
		target.defers = append(target.defers, d)

	case *ssa.Go:
		fr.line = ins.Pos()
		if ci.call.bi != "" {
			m.unsupported("go builtin")
		}
		fv, c, args := m.prepCall(fr, ci, &ins.Call)
		if c != nil {
			fv = &Closure{fn: c.fn}
		}
		if cl, _ := fv.(*Closure); cl == nil {
			m.crash("go of nil func value")
		}
		m.spawn(fr.th, fv, args, fr)

	case *ssa.MakeChan:
		n := m.get(fr, &ci.x[0])
		k := m.concInt(n, ci.x[0].t)
		if k < 0 {
			panic(targetPanic{v: Iface{m.p.rtErr, "makechan: size out of range"}, where: m.where()})
		}
		fr.regs[ci.dst] = m.newChan(int(k))

	case *ssa.Alloc:
		t := ci.t.el()
		c := &Cell{}
		fr.regs[ci.dst] = c

		_ = t

	case *ssa.MakeSlice:
		fr.line = ins.Pos()
		n := m.allocSize(m.get(fr, &ci.x[0]), ci.x[0].t, ci.t.el(), "len")
		cp := n
		if ci.x[1] != ci.x[0] {
			cp = m.allocSize(m.get(fr, &ci.x[1]), ci.x[1].t, ci.t.el(), "cap")
		}
		if cp < n {
			m.rtPanic("makeslice: cap out of range")
		}
		m.noteAlloc(cp, ci.t.el())
		fr.regs[ci.dst] = SliceV{m.newArr(cp), 0, n, cp}

	case *ssa.MakeMap:
		fr.regs[ci.dst] = m.newMap()

	case *ssa.Range:
		x := m.get(fr, &ci.x[0])
		if ci.x[0].t.kind == kString {
			fr.regs[ci.dst] = &strIter{s: snapStr(x)}
		} else {
			mv := x.(*MapV)
			it := &mapIter{m: mv}
			if mv != nil {
				m.raceMap(mv, false)
				it.ents = append(it.ents, mv.ents...)
			}
			fr.regs[ci.dst] = it
		}

	case *ssa.Next:
		x := m.get(fr, &ci.x[0])
		if ins.IsString {
			fr.regs[ci.dst] = m.strNext(fr, x.(*strIter))
		} else {
			fr.regs[ci.dst] = m.mapNext(x.(*mapIter), ti(ci.t.fields[1]), ti(ci.t.fields[2]))
		}

	case *ssa.FieldAddr:
		if ins.Pos() != 0 {
			fr.line = ins.Pos()
		}
		c := m.deref(m.get(fr, &ci.x[0]))
		s := c.get(ci.x[0].t.el()).(*StructV)
		fr.regs[ci.dst] = &s.f[ins.Field]

	case *ssa.Field:
		s := m.get(fr, &ci.x[0]).(*StructV)
		fr.regs[ci.dst] = copyVal(s.f[ins.Field].get(ci.t))

	case *ssa.IndexAddr:
		fr.line = ins.Pos()
		fr.regs[ci.dst] = m.indexAddr(fr, ci)

	case *ssa.Index:
		fr.line = ins.Pos()
		fr.regs[ci.dst] = m.index(fr, ci)

	case *ssa.Lookup:
		fr.line = ins.Pos()
		if ci.x[0].t.kind == kString {
			fr.regs[ci.dst] = m.strIndex(m.get(fr, &ci.x[0]), m.get(fr, &ci.x[1]), ci.x[1].t)
			break
		}
		mv := m.get(fr, &ci.x[0]).(*MapV)
		mt := ci.x[0].t.u.(*types.Map)
		m.raceMap(mv, false)
		e := m.mapFind(mv, ti(mt.Key()), m.get(fr, &ci.x[1]))
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(ci.x[0].t.el())
		}
		if v == nil {
			v = zero(ci.x[0].t.el())
		}
		if ins.CommaOk {
			fr.regs[ci.dst] = Tuple{v, e != nil}
		} else {
			fr.regs[ci.dst] = v
		}

	case *ssa.MapUpdate:
		fr.line = ins.Pos()
		mv := m.get(fr, &ci.x[0]).(*MapV)
		if mv == nil {
			panic(targetPanic{v: Iface{m.p.rtErr, "assignment to entry in nil map"}, where: m.where()})
		}
		mt := ci.x[0].t.u.(*types.Map)
		m.raceMap(mv, true)
		m.mapSet(mv, ti(mt.Key()), m.get(fr, &ci.x[1]), m.get(fr, &ci.x[2]))

	case *ssa.TypeAssert:
		fr.line = ins.Pos()
		fr.regs[ci.dst] = m.typeAssert(ins, ci.t, m.get(fr, &ci.x[0]).(Iface))

	case *ssa.MakeClosure:
		fv := make([]Value, len(ins.Bindings))
		for i := range fv {
			fv[i] = m.get(fr, &ci.x[1+i])
		}
		fr.regs[ci.dst] = &Closure{fn: ins.Fn.(*ssa.Function), fv: fv}

	case *ssa.Select:
		fr.line = ins.Pos()
		fr.regs[ci.dst] = m.selectStmt(fr, ci, ins)

	default:
		m.unsupported(fmt.Sprintf("instruction %T", ins))
	}
	return -2
}

func (m *Machine) typeAssert(ins *ssa.TypeAssert, rt *typeInfo, x Iface) Value {
	ok := false
	var v Value
	at := ins.AssertedType
	if it, isI := at.Underlying().(*types.Interface); isI {
		if x.t != nil {
			if nf, isN := x.v.(*natIface); isN {
				_ = nf
				ok = true
			} else {
				ok = implements(x.t, it)
			}
		}
		if ok {
			v = x
		} else {
			v = Iface{}
		}
	} else {
		ok = x.t != nil && types.Identical(x.t, at)
		if ok {
			v = copyVal(x.v)
		} else {
			v = zero(ti(at))
		}
	}
	if ins.CommaOk {
		return Tuple{v, ok}
	}
	if !ok {
		var msg string
		if x.t == nil {
			msg = fmt.Sprintf("interface conversion: interface is nil, not %s", at)
		} else {
			msg = fmt.Sprintf("interface conversion: %s is not %s", x.t, at)
		}
		m.rtPanic(msg)
	}
	return v
}

func (m *Machine) deref(p Value) *Cell {
	switch x := p.(type) {
	case *Cell:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x
	case *IdxPtr:
		// a pointer to a symbolic element used as an address: fix the index
		i := m.concretize(x.idx, x.n)
		return &x.arr.e[x.off+int(i)]
	case *SlicePtr:
		if x.s.arr == nil || x.s.off >= len(x.s.arr.e) {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return &x.s.arr.e[x.s.off]
	case UnsafePtr:
		return m.deref(x.p)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported(fmt.Sprintf("dereference of %T", p))
	return nil
}

func (m *Machine) load(t *typeInfo, p Value) Value {
	if ip, ok := p.(*IdxPtr); ok {
		if v, ok := m.loadIdx(t, ip.arr.e[ip.off:ip.off+ip.n], ip.idx); ok {
			return v
		}
	}
	c := m.deref(p)
	if m.race {
		m.raceCell(c, t, false)
	}
	v := c.v
	if v == nil {
		return zero(t)
	}
	switch v.(type) {
	case *StructV, *ArrV:
		return copyVal(v)
	}
	return v
}

// loadIdx reads e[idx] as an if-then-else chain when the elements are scalars.
func (m *Machine) loadIdx(t *typeInfo, e []Cell, idx *Term) (Value, bool) {
	if t.kind != kInt && t.kind != kBool {
		return nil, false
	}
	if len(e) > 512 {
		return nil, false
	}
	for i := range e {
		m.raceCell(&e[i], t, false)
	}
	n := len(e)
	var r *Term
	lift := func(v Value) *Term {
		if v == nil {
			v = zero(t)
		}
		if t.kind == kBool {
			return m.bterm(v)
		}
		return m.term(v, t.w)
	}
	// a run of equal values needs one comparison
	for i := n - 1; i >= 0; i-- {
		x := lift(e[i].v)
		if r == nil {
			r = x
			continue
		}
		r = m.tt.Ite(m.tt.Eq(idx, m.tt.Const(uint64(i), idx.w)), x, r)
	}
	if t.kind == kBool {
		return lowerBool(r), true
	}
	return lowerInt(r), true
}

func (m *Machine) store(t *typeInfo, p Value, v Value) {
	if ip, ok := p.(*IdxPtr); ok && (t.kind == kInt || t.kind == kBool) && ip.n <= 256 {
		if ip.arr.ro {
			m.crash("unexpected fault address: write to read-only memory")
		}
		for i := 0; i < ip.n; i++ {
			c := &ip.arr.e[ip.off+i]
			old := c.v
			if old == nil {
				old = zero(t)
			}
			cond := m.tt.Eq(ip.idx, m.tt.Const(uint64(i), ip.idx.w))
			if t.kind == kBool {
				c.v = lowerBool(m.tt.Ite(cond, m.bterm(v), m.bterm(old)))
			} else {
				c.v = lowerInt(m.tt.Ite(cond, m.term(v, t.w), m.term(old, t.w)))
			}
		}
		return
	}
	c := m.deref(p)
	if m.race {
		m.raceCell(c, t, true)
	}
	if c.meta != nil && c.meta.ro {
		m.crash("unexpected fault address: write to read-only memory")
	}
	switch v.(type) {
	case *StructV, *ArrV:
		if c.v == nil {
			c.get(t)
		}
		c.put(v)
	default:
		c.v = v
	}
}

// intIndex turns an index value into (concrete, term); ok tells it is concrete.
func (m *Machine) idx64(v Value, t *typeInfo) (int64, *Term) {
	switch x := v.(type) {
	case uint64:
		if t.signed {
			return sext(x, t.w), nil
		}
		if t.w == 64 && x > 1<<62 {
			return -1, nil
		}
		return int64(x), nil
	case *Term:
		if t.signed {
			return 0, m.tt.Sext(x, 64)
		}
		return 0, m.tt.Zext(x, 64)
	}
	m.unsupported(fmt.Sprintf("index of kind %T", v))
	return 0, nil
}

func (m *Machine) checkIdx(v Value, t *typeInfo, n int) (int, *Term) {
	i, tm := m.idx64(v, t)
	if tm == nil {
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	if !m.branch(m.tt.Cmp(OUlt, tm, m.tt.Const(uint64(n), 64))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	if c, ok := m.known1(tm); ok {
		return int(c), nil
	}
	return 0, tm
}

func (m *Machine) indexAddr(fr *frame, ci *cins) Value {
	x := m.get(fr, &ci.x[0])
	iv := m.get(fr, &ci.x[1])
	switch s := x.(type) {
	case SliceV:
		i, tm := m.checkIdx(iv, ci.x[1].t, s.n)
		if tm != nil {
			return &IdxPtr{s.arr, s.off, s.n, tm}
		}
		if s.arr.ro {
			return m.roCell(s.arr, s.off+i)
		}
		return &s.arr.e[s.off+i]
	}
	c := m.deref(x)
	at := ci.x[0].t.el()
	a := c.get(at).(*ArrV)
	i, tm := m.checkIdx(iv, ci.x[1].t, at.n)
	if tm != nil {
		return &IdxPtr{a, 0, at.n, tm}
	}
	return &a.e[i]
}

func (m *Machine) roCell(a *ArrV, i int) *Cell {
	c := &a.e[i]
	if c.meta == nil {
		c.meta = &cellMeta{}
	}
	c.meta.ro = true
	return c
}

func (m *Machine) index(fr *frame, ci *cins) Value {
	x := m.get(fr, &ci.x[0])
	iv := m.get(fr, &ci.x[1])
	if ci.x[0].t.kind == kString {
		return m.strIndex(x, iv, ci.x[1].t)
	}
	a := x.(*ArrV)
	i, tm := m.checkIdx(iv, ci.x[1].t, len(a.e))
	if tm != nil {
		if v, ok := m.loadIdx(ci.t, a.e, tm); ok {
			return v
		}
		i = int(m.concretize(tm, len(a.e)))
	}
	return copyVal(a.e[i].get(ci.t))
}

func (m *Machine) strIndex(s, iv Value, it *typeInfo) Value {
	n := strLen(s)
	i, tm := m.checkIdx(iv, it, n)
	if tm == nil {
		return strByte(s, i)
	}
	if n > 512 {
		return strByte(s, int(m.concretize(tm, n)))
	}
	var r *Term
	for i := n - 1; i >= 0; i-- {
		b := m.byteT(strByte(s, i))
		if r == nil {
			r = b
		} else {
			r = m.tt.Ite(m.tt.Eq(tm, m.tt.Const(uint64(i), 64)), b, r)
		}
	}
	return lowerInt(r)
}

func (m *Machine) slice(fr *frame, ci *cins) Value {
	x := m.get(fr, &ci.x[0])
	var base SliceV
	var n, cp int
	isStr := false
	switch ci.x[0].t.kind {
	case kString:
		isStr = true
		n = strLen(x)
		cp = n
	case kSlice:
		base = x.(SliceV)
		n, cp = base.n, base.cap
	default: // pointer to array
		c := m.deref(x)
		at := ci.x[0].t.el()
		a := c.get(at).(*ArrV)
		base = SliceV{a, 0, at.n, at.n}
		n, cp = at.n, at.n
	}
	lim := cp
	lo, hi, mx := 0, n, cp
	has := func(k int) bool { return k < len(ci.x) && ci.x[k].k != oNone }
	var loV, hiV, mxV Value = uint64(0), uint64(n), uint64(cp)
	i64 := tiInt
	loT, hiT, mxT := i64, i64, i64
	if has(1) {
		loV, loT = m.get(fr, &ci.x[1]), ci.x[1].t
	}
	if has(2) {
		hiV, hiT = m.get(fr, &ci.x[2]), ci.x[2].t
	}
	if has(3) {
		mxV, mxT = m.get(fr, &ci.x[3]), ci.x[3].t
	}
	// bounds: 0 <= lo <= hi <= max <= cap
	a1, t1 := m.idx64(mxV, mxT)
	a2, t2 := m.idx64(hiV, hiT)
	a3, t3 := m.idx64(loV, loT)
	if t1 == nil && t2 == nil && t3 == nil {
		if a1 < 0 || a1 > int64(lim) || a2 < 0 || a2 > a1 || a3 < 0 || a3 > a2 {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", a3, a2, a1, lim))
		}
		lo, hi, mx = int(a3), int(a2), int(a1)
	} else {
		tm := func(a int64, t *Term) *Term {
			if t != nil {
				return t
			}
			return m.tt.Const(uint64(a), 64)
		}
		M, H, L := tm(a1, t1), tm(a2, t2), tm(a3, t3)
		ok := m.tt.And(m.tt.Cmp(OUle, M, m.tt.Const(uint64(lim), 64)), m.tt.And(m.tt.Cmp(OUle, H, M), m.tt.Cmp(OUle, L, H)))
		if !m.branch(ok) {
			m.rtPanic("slice bounds out of range [symbolic]")
		}
		mx = int(m.concretize(M, lim+1))
		hi = int(m.concretize(H, lim+1))
		lo = int(m.concretize(L, lim+1))
	}
	if isStr {
		return strSlice(x, lo, hi)
	}
	if base.arr == nil {
		return SliceV{}
	}
	return SliceV{base.arr, base.off + lo, hi - lo, mx - lo}
}

type strIter struct {
	s Value
	i int
}

type mapIter struct {
	m    *MapV
	ents []*mapEntry
	i    int
}

func (m *Machine) strNext(fr *frame, it *strIter) Value {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	b := strByte(it.s, it.i)
	i := it.i
	if c, ok := b.(uint64); ok && c < 0x80 {
		it.i++
		return Tuple{true, uint64(i), c}
	} else if !ok && m.branch(m.tt.Cmp(OUlt, b.(*Term), m.tt.Const(0x80, 8))) {
		it.i++
		return Tuple{true, uint64(i), lowerInt(m.tt.Zext(b.(*Term), 32))}
	}
	r := m.callFn(fr.th, fr, m.p.lookupFn("unicode/utf8", "DecodeRuneInString"), []Value{strSlice(it.s, it.i, n)}, nil).(Tuple)
	sz := m.concInt(r[1], tiInt)
	it.i += int(sz)
	return Tuple{true, uint64(i), r[0]}
}

func (m *Machine) mapNext(it *mapIter, kt, vt *typeInfo) Value {
	if m.opt.mapOrder && it.m != nil {
		live := it.ents[:0:0]
		for _, e := range it.ents {
			if !e.deleted {
				live = append(live, e)
			}
		}
		it.ents = live
		if len(live) == 0 {
			return Tuple{false, zeroOr(kt), zeroOr(vt)}
		}
		k := m.choose("maporder", len(live))
		e := live[k]
		it.ents = append(append(live[:0:0], live[:k]...), live[k+1:]...)
		return Tuple{true, copyVal(e.k), valOr(e.v, vt)}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.deleted {
			continue
		}
		return Tuple{true, copyVal(e.k), valOr(e.v, vt)}
	}
	return Tuple{false, zeroOr(kt), zeroOr(vt)}
}

func valOr(v Value, t *typeInfo) Value {
	if v == nil {
		return zeroOr(t)
	}
	return copyVal(v)
}

func zeroOr(t *typeInfo) Value {
	if t.kind == kInvalid {
		return nil
	}
	return zero(t)
}

var tiInt = ti(types.Typ[types.Int])
var tiByte = ti(types.Typ[types.Uint8])
var tiString = ti(types.Typ[types.String])
var tiBool = ti(types.Typ[types.Bool])
