package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) binop(op token.Token, t, t2 *typeInfo, a, b Value) Value {
	switch op {
	case token.EQL:
		return m.equal(t, a, b)
	case token.NEQ:
		r := m.equal(t, a, b)
		if x, ok := r.(bool); ok {
			return !x
		}
		return lowerBool(m.tt.Not(r.(*Term)))
	}
	switch t.kind {
	case kString:
		switch op {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return m.notV(m.strLess(b, a))
		case token.GEQ:
			return m.notV(m.strLess(a, b))
		}
	case kFloat:
		x, y := a.(float64), b.(float64)
		rnd := func(f float64) Value {
			if t.w == 32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(x + y)
		case token.SUB:
			return rnd(x - y)
		case token.MUL:
			return rnd(x * y)
		case token.QUO:
			return rnd(x / y)
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return lowerBool(m.tt.And(m.bterm(a), m.bterm(b)))
		case token.OR, token.LOR:
			return lowerBool(m.tt.Or(m.bterm(a), m.bterm(b)))
		}
	case kInt:
		return m.intop(op, t, t2, a, b)
	}
	m.unsupported(fmt.Sprintf("binop %s on %s", op, t.t))
	return nil
}

func (m *Machine) notV(v Value) Value {
	if x, ok := v.(bool); ok {
		return !x
	}
	return lowerBool(m.tt.Not(v.(*Term)))
}

func (m *Machine) intop(op token.Token, t, t2 *typeInfo, a, b Value) Value {
	w := t.w
	if h, ok := a.(*StrHandle); ok {
		_ = h
		m.unsupported("arithmetic on a data pointer")
	}
	x, c1 := a.(uint64)
	y, c2 := b.(uint64)
	if c1 && c2 {
		mk := mask(w)
		switch op {
		case token.ADD:
			return (x + y) & mk
		case token.SUB:
			return (x - y) & mk
		case token.MUL:
			return (x * y) & mk
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.QUO, token.REM:
			if y == 0 {
				m.rtPanic("integer divide by zero")
			}
			if t.signed {
				sx, sy := sext(x, w), sext(y, w)
				if sy == -1 {
					if op == token.QUO {
						return uint64(-sx) & mk
					}
					return uint64(0)
				}
				if op == token.QUO {
					return uint64(sx/sy) & mk
				}
				return uint64(sx%sy) & mk
			}
			if op == token.QUO {
				return x / y
			}
			return x % y
		case token.SHL, token.SHR:
			if t2.signed && sext(y, t2.w) < 0 {
				m.rtPanic("negative shift amount")
			}
			if op == token.SHL {
				if y >= uint64(w) {
					return uint64(0)
				}
				return (x << y) & mk
			}
			if t.signed {
				if y >= uint64(w) {
					y = uint64(w - 1)
				}
				return uint64(sext(x, w)>>y) & mk
			}
			if y >= uint64(w) {
				return uint64(0)
			}
			return x >> y
		case token.LSS:
			if t.signed {
				return sext(x, w) < sext(y, w)
			}
			return x < y
		case token.LEQ:
			if t.signed {
				return sext(x, w) <= sext(y, w)
			}
			return x <= y
		case token.GTR:
			if t.signed {
				return sext(x, w) > sext(y, w)
			}
			return x > y
		case token.GEQ:
			if t.signed {
				return sext(x, w) >= sext(y, w)
			}
			return x >= y
		}
	}
	tt := m.tt
	p := m.term(a, w)
	if op == token.SHL || op == token.SHR {
		q := m.term(b, t2.w)
		if t2.signed {
			if m.branch(tt.Cmp(OSlt, q, tt.Const(0, t2.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		if t2.w <= w {
			q = tt.Zext(q, w)
		} else {
			big := tt.Not(tt.Cmp(OUlt, q, tt.Const(uint64(w), t2.w)))
			q = tt.Ite(big, tt.Const(uint64(w)&mask(w), w), tt.Extract(q, w-1, 0))
		}
		switch {
		case op == token.SHL:
			return lowerInt(tt.Bin(OShl, p, q))
		case t.signed:
			return lowerInt(tt.Bin(OAshr, p, q))
		default:
			return lowerInt(tt.Bin(OLshr, p, q))
		}
	}
	q := m.term(b, w)
	lt, le := OUlt, OUle
	if t.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return lowerInt(tt.Bin(OAdd, p, q))
	case token.SUB:
		return lowerInt(tt.Bin(OSub, p, q))
	case token.MUL:
		return lowerInt(tt.Bin(OMul, p, q))
	case token.AND:
		return lowerInt(tt.Bin(OAnd, p, q))
	case token.OR:
		return lowerInt(tt.Bin(OOr, p, q))
	case token.XOR:
		return lowerInt(tt.Bin(OXor, p, q))
	case token.AND_NOT:
		return lowerInt(tt.Bin(OAnd, p, tt.BVNot(q)))
	case token.QUO, token.REM:
		if m.branch(tt.Eq(q, tt.Const(0, w))) {
			m.rtPanic("integer divide by zero")
		}
		o := OUdiv
		if op == token.REM {
			o = OUrem
		}
		if t.signed {
			o = OSdiv
			if op == token.REM {
				o = OSrem
			}
		}
		return lowerInt(tt.Bin(o, p, q))
	case token.LSS:
		return lowerBool(tt.Cmp(lt, p, q))
	case token.LEQ:
		return lowerBool(tt.Cmp(le, p, q))
	case token.GTR:
		return lowerBool(tt.Cmp(lt, q, p))
	case token.GEQ:
		return lowerBool(tt.Cmp(le, q, p))
	}
	m.unsupported("int op " + op.String())
	return nil
}

func (m *Machine) convert(dst, src *typeInfo, v Value, fr *frame) Value {
	switch dst.kind {
	case kInt:
		switch src.kind {
		case kInt:
			switch x := v.(type) {
			case uint64:
				if src.signed {
					return uint64(sext(x, src.w)) & mask(dst.w)
				}
				return x & mask(dst.w)
			case *Term:
				if dst.w <= src.w {
					return lowerInt(m.tt.Extract(x, dst.w-1, 0))
				}
				if src.signed {
					return lowerInt(m.tt.Sext(x, dst.w))
				}
				return lowerInt(m.tt.Zext(x, dst.w))
			}
			return v
		case kFloat:
			f := v.(float64)
			if dst.signed {
				return uint64(int64(f)) & mask(dst.w)
			}
			if f >= math.MaxInt64 {
				return uint64(f) & mask(dst.w)
			}
			return uint64(int64(f)) & mask(dst.w)
		case kUnsafe:
			m.unsupported("uintptr(unsafe.Pointer)")
		}
	case kFloat:
		switch src.kind {
		case kFloat:
			if dst.w == 32 {
				return float64(float32(v.(float64)))
			}
			return v
		case kInt:
			x, ok := v.(uint64)
			if !ok {
				x = m.concretize(v.(*Term), 1<<16)
			}
			if src.signed {
				return float64(sext(x, src.w))
			}
			return float64(x)
		}
	case kString:
		switch src.kind {
		case kString:
			return v
		case kInt:
			x, ok := v.(uint64)
			if !ok {
				x = m.concretize(v.(*Term), 1<<16)
			}
			if src.signed {
				return string(rune(sext(x, src.w)))
			}
			return string(rune(x))
		case kSlice:
			s := v.(SliceV)
			if src.el().w == 8 {
				if m.race {
					m.raceRange(s, false)
				}
				return mkStr(sliceBytes(s))
			}
			// []rune
			var out []Value
			for i := 0; i < s.n; i++ {
				r := s.arr.e[s.off+i].get(src.el())
				x, ok := r.(uint64)
				if !ok {
					if m.branch(m.tt.Cmp(OUlt, r.(*Term), m.tt.Const(0x80, 32))) {
						out = append(out, lowerInt(m.tt.Extract(r.(*Term), 7, 0)))
						continue
					}
					x = m.concretize(r.(*Term), 1<<16)
				}
				out = append(out, goBytes([]byte(string(rune(sext(x, 32)))))...)
			}
			return mkStr(out)
		}
	case kSlice:
		if src.kind == kString {
			if dst.el().w == 8 {
				b := strBytes(v)
				return m.bytesSlice(b)
			}
			s := snapStr(v)
			var out []Value
			it := &strIter{s: s}
			for {
				t := m.strNext(fr, it).(Tuple)
				if !t[0].(bool) {
					break
				}
				out = append(out, t[2])
			}
			return m.bytesSlice(out)
		}
		if src.kind == kSlice {
			return v
		}
	case kArray:
		if src.kind == kSlice {
			s := v.(SliceV)
			if s.n < dst.n {
				m.rtPanic("cannot convert slice to array: too short")
			}
			a := &ArrV{e: make([]Cell, dst.n)}
			for i := range a.e {
				a.e[i].v = copyVal(s.arr.e[s.off+i].v)
			}
			return a
		}
	case kUnsafe:
		switch x := v.(type) {
		case UnsafePtr:
			return x
		case *Cell:
			if x == nil {
				return UnsafePtr{}
			}
			return UnsafePtr{x, src.elem}
		case *SlicePtr, *IdxPtr:
			return UnsafePtr{x, src.elem}
		case uint64:
			if x == 0 {
				return UnsafePtr{}
			}
		}
		m.unsupported(fmt.Sprintf("unsafe.Pointer of %T", v))
	case kPtr:
		switch x := v.(type) {
		case UnsafePtr:
			return m.unsafeCast(dst, x)
		case *Cell, *SlicePtr, *IdxPtr:
			return x
		}
	case kChan, kMap, kFunc, kStruct, kIface:
		return v
	}
	m.unsupported(fmt.Sprintf("convert %s -> %s", src.t, dst.t))
	return nil
}

// unsafeCast handles the few pointer reinterpretations in use: string and
// slice headers.
func (m *Machine) unsafeCast(dst *typeInfo, p UnsafePtr) Value {
	if p.p == nil {
		return (*Cell)(nil)
	}
	de := dst.el()
	if p.t == nil || types.Identical(p.t, dst.elem) || types.Identical(p.t.Underlying(), dst.elem.Underlying()) {
		return p.p
	}
	se := ti(p.t)
	c, ok := p.p.(*Cell)
	if !ok {
		if sp, ok := p.p.(*SlicePtr); ok && de.kind == kInt && de.w == 8 {
			return sp
		}
		m.unsupported(fmt.Sprintf("unsafe cast of %T", p.p))
	}
	isU := func(t *typeInfo, n int) bool {
		if t.kind != kArray || t.n != n {
			return false
		}
		e := t.el()
		return e.kind == kInt && e.w == 64
	}
	isHdr := func(t *typeInfo, name string) bool {
		n, ok := t.t.(*types.Named)
		return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
	}
	hdr := func(vals ...Value) *Cell {
		a := &ArrV{e: make([]Cell, len(vals))}
		s := &StructV{f: make([]Cell, len(vals))}
		for i, v := range vals {
			a.e[i].v = v
			s.f[i].v = v
		}
		if de.kind == kArray {
			return &Cell{v: a}
		}
		return &Cell{v: s}
	}
	hvals := func(n int) []Value {
		var r []Value
		switch x := c.get(se).(type) {
		case *ArrV:
			for i := 0; i < n; i++ {
				v := x.e[i].v
				if v == nil {
					v = uint64(0)
				}
				r = append(r, v)
			}
		case *StructV:
			for i := 0; i < n && i < len(x.f); i++ {
				v := x.f[i].v
				if v == nil {
					v = uint64(0)
				}
				r = append(r, v)
			}
		}
		return r
	}
	mkSlice := func(v []Value) Value {
		n := int(v[1].(uint64))
		cp := n
		if len(v) > 2 {
			switch c := v[2].(type) {
			case uint64:
				cp = int(c)
			default: // an address taken for a capacity: some huge number
				cp = 0xc000010000
			}
		}
		switch h := v[0].(type) {
		case *StrHandle:
			b := strBytes(h.s)
			if vs, ok := h.s.(*ViewStr); ok {
				return SliceV{vs.arr, vs.off, n, min(cp, len(vs.arr.e)-vs.off)}
			}
			a := m.newArr(max(n, len(b)))
			a.ro = true
			for i := range b {
				a.e[i].v = b[i]
			}
			return SliceV{a, 0, n, max(cp, n)}
		case *SlicePtr:
			return SliceV{h.s.arr, h.s.off, n, cp}
		}
		return SliceV{}
	}
	mkString := func(v []Value) Value {
		n := int(v[1].(uint64))
		switch h := v[0].(type) {
		case *StrHandle:
			return strSlice(h.s, 0, n)
		case *SlicePtr:
			return &ViewStr{h.s.arr, h.s.off, n}
		}
		return ""
	}
	switch {
	case se.kind == kString && (isU(de, 2) || isHdr(de, "StringHeader")):
		s := c.get(se)
		return hdr(&StrHandle{s}, uint64(strLen(s)))
	case se.kind == kSlice && (isU(de, 3) || isHdr(de, "SliceHeader")):
		s := c.get(se).(SliceV)
		return hdr(&SlicePtr{s}, uint64(s.n), uint64(s.cap))
	case (isU(se, 3) || isHdr(se, "SliceHeader")) && de.kind == kSlice:
		return &Cell{v: mkSlice(hvals(3))}
	case (isU(se, 2) || isHdr(se, "StringHeader")) && de.kind == kSlice:
		return &Cell{v: mkSlice(hvals(2))}
	case (isU(se, 2) || isU(se, 3) || isHdr(se, "StringHeader") || isHdr(se, "SliceHeader")) && de.kind == kString:
		return &Cell{v: mkString(hvals(2))}
	case se.kind == kSlice && de.kind == kString:
		s := c.get(se).(SliceV)
		if s.arr == nil {
			return &Cell{v: ""}
		}
		return &Cell{v: &ViewStr{s.arr, s.off, s.n}}
	case se.kind == kString && de.kind == kSlice:
		s := c.get(se)
		n := strLen(s)
		return &Cell{v: mkSlice([]Value{&StrHandle{s}, uint64(n), uint64(n)})}
	case se.kind == kStruct && de.kind == kSlice:
		// struct{string; cap int} idiom
		x := c.get(se).(*StructV)
		if len(se.fields) >= 1 && ti(se.fields[0]).kind == kString {
			s := x.f[0].get(ti(se.fields[0]))
			n := strLen(s)
			return &Cell{v: mkSlice([]Value{&StrHandle{s}, uint64(n), uint64(n)})}
		}
	}
	m.unsupported(fmt.Sprintf("unsafe cast *%s -> %s", p.t, dst.t))
	return nil
}

// ---- builtins

func (m *Machine) builtin(fr *frame, ci *cins, name string, args []Value, cc *ssa.CallCommon) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr, *ViewStr:
			return uint64(strLen(x))
		case SliceV:
			return uint64(x.n)
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			m.raceMap(x, false)
			return uint64(x.n)
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			m.visible(fr.th)
			return uint64(len(x.buf))
		case *ArrV:
			return uint64(len(x.e))
		case *Cell:
			return uint64(ti(cc.Args[0].Type()).el().n)
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return uint64(x.cap)
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *ArrV:
			return uint64(len(x.e))
		case *Cell:
			return uint64(ti(cc.Args[0].Type()).el().n)
		}
	case "append":
		s := args[0].(SliceV)
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case SliceV:
			if m.race {
				m.raceRange(y, false)
			}
			return m.appendCells(ti(cc.Args[0].Type()).el(), s, y.n, func(i int) Value { return copyVal(y.arr.e[y.off+i].v) })
		default:
			b := strBytes(y)
			return m.appendCells(ti(cc.Args[0].Type()).el(), s, len(b), func(i int) Value { return b[i] })
		}
	case "copy":
		d := args[0].(SliceV)
		switch y := args[1].(type) {
		case SliceV:
			n := min(d.n, y.n)
			if n == 0 {
				return uint64(0)
			}
			if d.arr.ro {
				m.crash("unexpected fault address: write to read-only memory")
			}
			if m.race {
				m.raceRange(SliceV{y.arr, y.off, n, n}, false)
				m.raceRange(SliceV{d.arr, d.off, n, n}, true)
			}
			if d.arr == y.arr && d.off > y.off {
				for i := n - 1; i >= 0; i-- {
					d.arr.e[d.off+i].putNested(copyVal(y.arr.e[y.off+i].v))
				}
			} else {
				for i := 0; i < n; i++ {
					d.arr.e[d.off+i].putNested(copyVal(y.arr.e[y.off+i].v))
				}
			}
			return uint64(n)
		default:
			n := min(d.n, strLen(y))
			if n > 0 && d.arr.ro {
				m.crash("unexpected fault address: write to read-only memory")
			}
			if m.race && n > 0 {
				m.raceRange(SliceV{d.arr, d.off, n, n}, true)
			}
			for i := 0; i < n; i++ {
				d.arr.e[d.off+i].v = strByte(y, i)
			}
			return uint64(n)
		}
	case "delete":
		mv := args[0].(*MapV)
		if mv != nil {
			m.raceMap(mv, true)
			m.mapDel(mv, ti(ti(cc.Args[0].Type()).u.(*types.Map).Key()), args[1])
		}
		return nil
	case "close":
		m.chanClose(fr.th, args[0].(*ChanV))
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, where: m.where()})
	case "recover":
		// the caller's caller is panicking and runs this function as a defer
		c := fr.caller
		if c != nil && c.panicking && fr.depth == c.depth+1 {
			c.panicking = false
			p := c.panicv
			c.panicv = nil
			return p
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := ti(cc.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			var lt Value
			if name == "min" {
				lt = m.binop(token.LSS, t, t, a, r)
			} else {
				lt = m.binop(token.GTR, t, t, a, r)
			}
			if b, ok := lt.(bool); ok {
				if b {
					r = a
				}
			} else if t.kind == kInt {
				r = lowerInt(m.tt.Ite(lt.(*Term), m.term(a, t.w), m.term(r, t.w)))
			} else if m.branch(lt.(*Term)) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				m.raceMap(x, true)
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents, x.idx, x.n, x.symk = nil, map[any]*mapEntry{}, 0, 0
			}
		case SliceV:
			for i := 0; i < x.n; i++ {
				x.arr.e[x.off+i].putNested(nil)
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String
		n := int(m.concInt(args[1], ti(cc.Args[1].Type())))
		switch p := args[0].(type) {
		case *SlicePtr:
			if n == 0 {
				return ""
			}
			v := &ViewStr{p.s.arr, p.s.off, n}
			if fr.c.repo {
				return v
			}
			return snapStr(v)
		case *Cell:
			if n == 0 {
				return ""
			}
			if n == 1 && p != nil {
				return mkStr([]Value{byteCell(p)})
			}
		case *StrHandle:
			return strSlice(p.s, 0, n)
		}
		m.unsupported(fmt.Sprintf("unsafe.String of %T", args[0]))
	case "StringData":
		return &StrHandle{args[0]}
	case "SliceData":
		return &SlicePtr{args[0].(SliceV)}
	case "Slice": // unsafe.Slice
		n := int(m.concInt(args[1], ti(cc.Args[1].Type())))
		switch p := args[0].(type) {
		case *SlicePtr:
			return SliceV{p.s.arr, p.s.off, n, n}
		case *StrHandle:
			b := strBytes(p.s)
			a := m.newArr(len(b))
			a.ro = true
			for i := range b {
				a.e[i].v = b[i]
			}
			return SliceV{a, 0, n, n}
		case *Cell:
			if p == nil || n == 0 {
				return SliceV{}
			}
		}
		m.unsupported(fmt.Sprintf("unsafe.Slice of %T", args[0]))
	}
	m.unsupported("builtin " + name)
	return nil
}

func (m *Machine) appendCells(et *typeInfo, s SliceV, n int, at func(int) Value) SliceV {
	if n == 0 {
		return s
	}
	if s.n+n <= s.cap {
		if s.arr.ro {
			m.crash("unexpected fault address: write to read-only memory")
		}
		if m.race {
			m.raceRange(SliceV{s.arr, s.off + s.n, n, n}, true)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = at(i)
		}
		for i := 0; i < n; i++ {
			s.arr.e[s.off+s.n+i].putNested(tmp[i])
		}
		return SliceV{s.arr, s.off, s.n + n, s.cap}
	}
	nc := growCap(s.cap, s.n+n, et)
	m.noteAlloc(nc, et)
	a := m.newArr(nc)
	if m.race && s.n > 0 {
		m.raceRange(s, false)
	}
	for i := 0; i < s.n; i++ {
		a.e[i].v = copyVal(s.arr.e[s.off+i].v)
	}
	for i := 0; i < n; i++ {
		a.e[s.n+i].v = at(i)
	}
	return SliceV{a, 0, s.n + n, nc}
}

func (m *Machine) concInt(v Value, t *typeInfo) int64 {
	switch x := v.(type) {
	case uint64:
		if t.signed {
			return sext(x, t.w)
		}
		return int64(x)
	case *Term:
		return sext(m.concretize(x, 1<<16), t.w)
	}
	m.unsupported(fmt.Sprintf("integer of kind %T", v))
	return 0
}

// runeValid keeps utf8 imported for callers in this package.
func runeValid(r rune) bool { return utf8.ValidRune(r) }

var stdSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows runtime.growslice.
func growCap(old, need int, et *typeInfo) int {
	nc := old
	switch {
	case need > 2*old:
		nc = need
	case old < 256:
		nc = 2 * old
	default:
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	sz := elemSize(et)
	if sz == 0 {
		return need
	}
	b := nc * sz
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				b = c
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / sz
}

func elemSize(et *typeInfo) int {
	if et == nil {
		return 8
	}
	return int(stdSizes.Sizeof(et.t))
}
