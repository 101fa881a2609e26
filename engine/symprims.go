package main

import (
	"fmt"
	"go/types"
)

// The primitives harnesses use (package zzverif/sym of the overlay).

func (m *Machine) inVar(name string, w int) Value {
	if m.inInit {
		m.unsupported("symbolic input in an initialiser")
	}
	v := m.newVar(name, w)
	if c, ok := m.known1(v); ok {
		return c
	}
	return v
}

func (m *Machine) symName(v Value) string {
	s, ok := concStr(v)
	if !ok {
		m.unsupported("symbolic input name")
	}
	return s
}

func regSym(reg func(f intrinsic, names ...string)) {
	p := repoModule + "/zzverif/sym."
	for n, w := range map[string]int{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "Int": 64} {
		w := w
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.inVar(m.symName(a[0]), w) }, p+n)
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		v := m.inVar(m.symName(a[0]), 8)
		return lowerBool(m.tt.Eq(m.tt.Extract(m.term(v, 8), 0, 0), m.tt.Const(1, 1)))
	}, p+"Bool")
	bytesOf := func(m *Machine, a []Value) []Value {
		n := int(m.concInt(a[1], tiInt))
		name := m.uniqIn(m.symName(a[0]))
		r := make([]Value, n)
		for i := range r {
			r[i] = m.inVar(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		return r
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.bytesSlice(bytesOf(m, a)) }, p+"Bytes")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return mkStr(bytesOf(m, a)) }, p+"Str")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		lo, hi := m.concInt(a[1], tiInt), m.concInt(a[2], tiInt)
		v := m.inVar(m.symName(a[0]), 64)
		if t, ok := v.(*Term); ok {
			if m.ev.eval(t) == 0 && (lo > 0 || hi < 0) {
				if _, set := m.model[t.name]; !set {
					m.model[t.name] = uint64(lo)
					m.ev = newEval(m.model)
				}
			}
			m.assume(m.tt.And(m.tt.Cmp(OSle, m.tt.Const(uint64(lo), 64), t), m.tt.Cmp(OSle, t, m.tt.Const(uint64(hi), 64))))
		}
		return v
	}, p+"Range")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		n := int(m.concInt(a[1], tiInt))
		if n <= 0 {
			m.unsupported("Pick of nothing")
		}
		if n == 1 {
			m.newVar(m.symName(a[0]), 8)
			return uint64(0)
		}
		return uint64(m.choose(m.symName(a[0]), n))
	}, p+"Pick")
	// Choose is Pick for environment choices
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		t, ok := a[0].(*Term)
		if !ok {
			return a[0]
		}
		return m.concretize(t, 300)
	}, p+"Fix")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		if b, ok := a[0].(bool); ok {
			if !b {
				panic(pathEnd{"assume", ""})
			}
			return nil
		}
		m.assume(a[0].(*Term))
		return nil
	}, p+"Assume")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		msg := m.symName(a[1])
		m.reached["assert:"+msg] = true
		if b, ok := a[0].(bool); ok {
			m.asserts++
			if !b {
				m.candidate("assert", msg, m.where(), m.model)
				panic(pathEnd{"violation", msg})
			}
			m.job.count(&m.job.Trivial)
			return nil
		}
		m.assert(a[0].(*Term), msg)
		return nil
	}, p+"Assert")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		msg := m.symName(a[0])
		m.asserts++
		m.candidate("assert", msg, m.where(), m.model)
		panic(pathEnd{"violation", msg})
	}, p+"Fail")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.reached[m.symName(a[0])] = true
		return nil
	}, p+"Reach")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.observes = append(m.observes, obs{label: m.symName(a[0]), raw: m.deepCopy(a[1], 0)})
		return nil
	}, p+"Observe")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.knownTag = m.symName(a[0])
		return nil
	}, p+"Known")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		if m.job.Tier == "thorough" {
			return a[1]
		}
		return a[0]
	}, p+"Bound")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.job.Tier == "thorough" }, p+"Thorough")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return false }, p+"Native")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.settle(th); return nil }, p+"Settle")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.opt.mapOrder = a[0].(bool); return nil }, p+"MapOrder")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.opt.explore = a[0].(bool); return nil }, p+"Explore")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.opt.allocMax = m.concInt(a[0], tiInt)
		return nil
	}, p+"AllocLimit")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		var out Value = ""
		for _, s := range m.stdout {
			out = strConcat(out, s)
		}
		return out
	}, p+"Stdout")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return uint64(m.clock) }, p+"Clock")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.ticks++; return uint64(m.ticks) }, p+"Tick")
	// Begin is Tick behind a scheduling point that stands for the one of the
	// operation that follows.
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.visible(th)
		th.fresh = true
		m.ticks++
		return uint64(m.ticks)
	}, p+"Begin")
	// Par runs functions concurrently and waits for them
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		fs := a[0].(SliceV)
		s := &mutexSt{count: int64(fs.n)}
		for i := 0; i < fs.n; i++ {
			f := fs.arr.e[fs.off+i].get(nil)
			m.spawn(th, &Closure{nat: func(m *Machine, th *Thread, _ []Value) Value {
				m.callValue(th, th.fr, f, nil)
				if m.race {
					s.vc.join(th.vc)
				}
				s.count--
				return nil
			}}, nil, th.fr)
		}
		if s.count > 0 {
			m.block(th, "the threads of the harness", func() bool { return s.count == 0 })
		}
		if m.race {
			th.vc.join(s.vc)
		}
		return nil
	}, p+"Par")
	// Signal delivers a signal to the process, which ends unless it has asked
	// for the signal
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		n := uint64(m.concInt(a[0], tiInt))
		asked := false
		for _, r := range m.signals {
			for i := 0; i == 0 || i < len(r.sigs); i++ {
				if len(r.sigs) == 0 || r.sigs[i] == n {
					asked = true
					m.trySendRaw(r.c, Iface{m.p.prog.ImportedPackage("syscall").Type("Signal").Type(), n})
					break
				}
			}
		}
		if !asked {
			m.crash(fmt.Sprintf("the process is ended by signal %d", n))
		}
		return nil
	}, p+"Signal")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.ports++
		return uint64(29000 + m.ports)
	}, p+"Port")
	// And/Or/Implies: conditions without short-circuit forks
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		s := a[0].(SliceV)
		r := m.tt.True
		for i := 0; i < s.n; i++ {
			r = m.tt.And(r, m.bterm(s.arr.e[s.off+i].get(tiBool)))
		}
		return lowerBool(r)
	}, p+"And")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		s := a[0].(SliceV)
		r := m.tt.False
		for i := 0; i < s.n; i++ {
			r = m.tt.Or(r, m.bterm(s.arr.e[s.off+i].get(tiBool)))
		}
		return lowerBool(r)
	}, p+"Or")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return lowerInt(m.tt.Ite(m.bterm(a[0]), m.term(a[1], 64), m.term(a[2], 64)))
	}, p+"Sel")
	for _, n := range []string{"Note", "AllocCheck", "CaptureStdout", "D"} {
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			if fn.name == p+"CaptureStdout" {
				m.stdout = nil
				m.capture = true
			}
			return nil
		}, p+n)
	}
	// Live tells how many goroutines started after the harness began are alive
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		n := 0
		for _, t := range m.threads {
			if !t.dead {
				n++
			}
		}
		return uint64(n)
	}, p+"Goroutines")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		save := m.race
		m.race = false
		v := m.callFn(th, th.fr, m.p.cfn(a[0].(*Closure).fn), nil, a[0].(*Closure).fv)
		m.race = save
		return v
	}, p+"Atomic")
}

func (m *Machine) uniqIn(name string) string {
	k := "in:" + name
	n := m.names[k]
	m.names[k] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s@%d", name, n)
	}
	return name
}

// deepCopy snapshots a value for later comparison.
func (m *Machine) deepCopy(v Value, depth int) Value {
	if depth > 12 {
		return v
	}
	switch x := v.(type) {
	case Iface:
		return Iface{x.t, m.deepCopy(x.v, depth+1)}
	case SliceV:
		if x.arr == nil {
			return x
		}
		a := &ArrV{e: make([]Cell, x.n)}
		for i := range a.e {
			a.e[i].v = m.deepCopy(x.arr.e[x.off+i].v, depth+1)
		}
		return SliceV{a, 0, x.n, x.n}
	case *MapV:
		if x == nil {
			return x
		}
		n := &MapV{idx: map[any]*mapEntry{}, n: x.n}
		for _, e := range x.ents {
			if !e.deleted {
				n.ents = append(n.ents, &mapEntry{k: m.deepCopy(e.k, depth+1), v: m.deepCopy(e.v, depth+1)})
			}
		}
		return n
	case *StructV, *ArrV:
		return copyVal(v)
	case *ViewStr:
		return snapStr(v)
	}
	return v
}

// show renders a value under the current model in a canonical text that the
// native sym package produces too.
func (m *Machine) show(t *typeInfo, v Value, ev *evaluator, depth int) string {
	if v == nil && t.kind != kIface {
		v = zero(t)
	}
	if depth > 10 {
		return "..."
	}
	iv := func(v Value, w int) uint64 {
		switch x := v.(type) {
		case uint64:
			return x
		case *Term:
			return ev.eval(x)
		}
		return 0
	}
	switch t.kind {
	case kBool:
		if b, ok := v.(bool); ok {
			return fmt.Sprint(b)
		}
		return fmt.Sprint(ev.eval(v.(*Term)) == 1)
	case kInt:
		x := iv(v, t.w)
		if t.signed {
			return fmt.Sprint(sext(x, t.w))
		}
		return fmt.Sprint(x & mask(t.w))
	case kString:
		b := strBytes(v)
		r := make([]byte, len(b))
		for i := range b {
			r[i] = byte(iv(b[i], 8))
		}
		return fmt.Sprintf("%q", r)
	case kIface:
		x, _ := v.(Iface)
		if x.t == nil {
			return "nil"
		}
		if implements(x.t, errorIface) {
			return "error"
		}
		return m.show(ti(x.t), x.v, ev, depth+1)
	case kSlice:
		s := v.(SliceV)
		et := t.el()
		if et.kind == kInt && et.w == 8 {
			r := make([]byte, s.n)
			for i := range r {
				r[i] = byte(iv(byteCell(&s.arr.e[s.off+i]), 8))
			}
			return fmt.Sprintf("%q", r)
		}
		out := "["
		for i := 0; i < s.n; i++ {
			if i > 0 {
				out += " "
			}
			out += m.show(et, s.arr.e[s.off+i].v, ev, depth+1)
		}
		return out + "]"
	case kMap:
		mv := v.(*MapV)
		if mv == nil {
			return "{}"
		}
		mt := t.u.(*types.Map)
		rows := map[string]string{}
		for _, e := range mv.ents {
			if !e.deleted {
				rows[m.show(ti(mt.Key()), e.k, ev, depth+1)] = m.show(ti(mt.Elem()), e.v, ev, depth+1)
			}
		}
		out := "{"
		for i, k := range sortedKeys(rows) {
			if i > 0 {
				out += " "
			}
			out += k + ":" + rows[k]
		}
		return out + "}"
	case kPtr:
		c, ok := v.(*Cell)
		if !ok || c == nil {
			return "nil"
		}
		return "&"
	case kStruct, kArray:
		return "#"
	}
	return "_"
}
