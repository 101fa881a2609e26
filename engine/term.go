package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector (w>0) or boolean (w==0) expressions.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

type Term struct {
	id      int
	op      Op
	w       int
	a, b, c *Term
	k       uint64
	name    string
	umax    uint64 // cheap unsigned upper bound (bit-vectors)
}

type termKey struct {
	op      Op
	w       int
	a, b, c int
	k       uint64
	name    string
}

type TermTable struct {
	tab   map[termKey]*Term
	next  int
	True  *Term
	False *Term
	vars  map[string]*Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{tab: map[termKey]*Term{}, vars: map[string]*Term{}}
	tt.True = tt.mk(OConst, 0, nil, nil, nil, 1, "")
	tt.False = tt.mk(OConst, 0, nil, nil, nil, 0, "")
	return tt
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (tt *TermTable) mk(op Op, w int, a, b, c *Term, k uint64, name string) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k, name}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{id: tt.next, op: op, w: w, a: a, b: b, c: c, k: k, name: name}
	tt.next++
	if w > 0 {
		m := mask(w)
		t.umax = m
		switch op {
		case OConst:
			t.umax = k
		case OZext:
			t.umax = a.umax
		case OAnd:
			t.umax = min(a.umax, b.umax)
		case OIte:
			t.umax = max(b.umax, c.umax)
		case OUdiv:
			if b.op == OConst && b.k > 0 {
				t.umax = a.umax / b.k
			}
		case OUrem:
			if b.op == OConst && b.k > 0 {
				t.umax = min(a.umax, b.k-1)
			}
		case OLshr:
			if b.op == OConst {
				if b.k >= 64 {
					t.umax = 0
				} else {
					t.umax = a.umax >> b.k
				}
			}
		case OAdd:
			s, carry := bits.Add64(a.umax, b.umax, 0)
			if carry == 0 && s <= m {
				t.umax = s
			}
		case OMul:
			hi, lo := bits.Mul64(a.umax, b.umax)
			if hi == 0 && lo <= m {
				t.umax = lo
			}
		case OOr, OXor:
			l := bits.Len64(a.umax | b.umax)
			t.umax = min(m, mask(l))
		case OShl:
			if b.op == OConst && b.k < 64 {
				hi, lo := bits.Mul64(a.umax, uint64(1)<<b.k)
				if hi == 0 && lo <= m {
					t.umax = lo
				}
			}
		case OExtract:
			lo := int(t.k & 0xff)
			if lo == 0 {
				t.umax = min(m, a.umax)
				if a.umax > m {
					t.umax = m
				}
			}
		case OConcat:
			t.umax = min(m, a.umax<<uint(b.w)|mask(b.w))
		}
	}
	tt.tab[key] = t
	return t
}

func (tt *TermTable) Const(v uint64, w int) *Term {
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TermTable) Var(name string, w int) *Term {
	if t, ok := tt.vars[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d/%d", name, t.w, w))
		}
		return t
	}
	t := tt.mk(OVar, w, nil, nil, nil, 0, name)
	tt.vars[name] = t
	return t
}

func isC(t *Term) bool { return t.op == OConst }

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	m := mask(w)
	if isC(a) && isC(b) {
		if v, ok := foldBin(op, a.k, b.k, w); ok {
			return tt.Const(v, w)
		}
	}
	// constants to the right for commutative operators
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if isC(a) && !isC(b) {
			a, b = b, a
		} else if !isC(b) && a.id > b.id {
			a, b = b, a
		}
	}
	switch op {
	case OAdd:
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && isC(a.b) {
				return tt.Bin(OAdd, a.a, tt.Const(a.b.k+b.k, w))
			}
			if a.op == OZext && a.a.op == OAdd && false {
				return a
			}
		}
	case OSub:
		if isC(b) {
			return tt.Bin(OAdd, a, tt.Const(-b.k, w))
		}
		if a == b {
			return tt.Const(0, w)
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
	case OMul:
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OAnd:
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			// mask covers all possible bits
			if b.k&(b.k+1) == 0 && a.umax <= b.k {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr:
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
		if a == b {
			return a
		}
	case OXor:
		if isC(b) && b.k == 0 {
			return a
		}
		if a == b {
			return tt.Const(0, w)
		}
	case OShl, OLshr:
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tt.Const(0, w)
			}
			if op == OLshr && a.op == OShl && isC(a.b) && a.b.k == b.k && b.k < 64 && a.a.umax <= m>>b.k {
				return a.a
			}
			if op == OLshr && b.k < 64 && a.umax>>b.k == 0 {
				return tt.Const(0, w)
			}
		}
	case OAshr:
		if isC(b) && b.k == 0 {
			return a
		}
	case OUdiv:
		if isC(b) && b.k == 1 {
			return a
		}
		if isC(b) && b.k > 0 && a.umax < b.k {
			return tt.Const(0, w)
		}
	case OUrem:
		if isC(b) && b.k > 0 && a.umax < b.k {
			return a
		}
	case OSdiv, OSrem:
		// both non-negative: unsigned
		if a.umax <= m>>1 && b.umax <= m>>1 {
			if op == OSdiv {
				return tt.Bin(OUdiv, a, b)
			}
			return tt.Bin(OUrem, a, b)
		}
	}
	return tt.mk(op, w, a, b, nil, 0, "")
}

func foldBin(op Op, a, b uint64, w int) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUdiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OUrem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSdiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa >= 0 {
				return m, true
			}
			return 1, true
		}
		if sb == -1 {
			return uint64(-sa) & m, true
		}
		return uint64(sa/sb) & m, true
	case OSrem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a, true
		}
		if sb == -1 {
			return 0, true
		}
		return uint64(sa%sb) & m, true
	case OAnd:
		return a & b, true
	case OOr:
		return a | b, true
	case OXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		s := b
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		return uint64(sext(a, w)>>s) & m, true
	}
	return 0, false
}

func (tt *TermTable) Not(a *Term) *Term { // bool
	if isC(a) {
		return tt.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, 0, a, nil, nil, 0, "")
}

func (tt *TermTable) And(a, b *Term) *Term {
	if isC(a) {
		if a.k == 0 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tt.False
	}
	return tt.mk(OBAnd, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if isC(a) {
		if a.k == 1 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tt.True
	}
	return tt.mk(OBOr, 0, a, b, nil, 0, "")
}

func (tt *TermTable) BVNot(a *Term) *Term {
	if isC(a) {
		return tt.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, a.w, a, nil, nil, 0, "")
}
func (tt *TermTable) Neg(a *Term) *Term {
	if isC(a) {
		return tt.Const(-a.k, a.w)
	}
	return tt.mk(ONeg, a.w, a, nil, nil, 0, "")
}

func (tt *TermTable) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if isC(a) {
		return tt.Const(a.k>>uint(lo), w)
	}
	switch a.op {
	case OZext, OSext:
		iw := a.a.w
		if hi < iw {
			return tt.Extract(a.a, hi, lo)
		}
		if a.op == OZext && lo >= iw {
			return tt.Const(0, w)
		}
		if lo == 0 && hi >= iw {
			if a.op == OZext {
				return tt.Zext(a.a, w)
			}
			return tt.Sext(a.a, w)
		}
	case OExtract:
		l := int(a.k & 0xff)
		return tt.Extract(a.a, hi+l, lo+l)
	case OConcat:
		if hi < a.b.w {
			return tt.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tt.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
	case OOr, OAnd, OXor:
		return tt.Bin(a.op, tt.Extract(a.a, hi, lo), tt.Extract(a.b, hi, lo))
	case OShl:
		if isC(a.b) {
			s := int(a.b.k)
			if lo >= s {
				return tt.Extract(a.a, hi-s, lo-s)
			}
			if hi < s {
				return tt.Const(0, w)
			}
		}
	case OLshr:
		if isC(a.b) {
			s := int(a.b.k)
			if hi+s < a.w {
				return tt.Extract(a.a, hi+s, lo+s)
			}
			if lo+s >= a.w {
				return tt.Const(0, w)
			}
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tt.Bin(a.op, tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		}
	case OIte:
		if isC(a.b) || isC(a.c) {
			return tt.Ite(a.a, tt.Extract(a.b, hi, lo), tt.Extract(a.c, hi, lo))
		}
	}
	return tt.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (tt *TermTable) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if isC(a) {
		return tt.Const(a.k, w)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if a.op == OIte && isC(a.b) && isC(a.c) {
		return tt.Ite(a.a, tt.Zext(a.b, w), tt.Zext(a.c, w))
	}
	return tt.mk(OZext, w, a, nil, nil, 0, "")
}

func (tt *TermTable) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if isC(a) {
		return tt.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.umax <= mask(a.w)>>1 {
		return tt.Zext(a, w)
	}
	return tt.mk(OSext, w, a, nil, nil, 0, "")
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if isC(c) {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if isC(a) && isC(b) {
			if a.k == 1 {
				return c
			}
			return tt.Not(c)
		}
		if isC(a) {
			if a.k == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if isC(b) {
			if b.k == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if c.op == OBNot {
		return tt.Ite(c.a, b, a)
	}
	return tt.mk(OIte, a.w, c, a, b, 0, "")
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if isC(a) && isC(b) {
		return tt.Bool(a.k == b.k)
	}
	if isC(a) {
		a, b = b, a
	}
	if a.w == 0 {
		if isC(b) {
			if b.k == 1 {
				return a
			}
			return tt.Not(a)
		}
	} else if isC(b) {
		if b.k > a.umax {
			return tt.False
		}
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return tt.False
			}
			return tt.Eq(a.a, tt.Const(b.k, a.a.w))
		case OSext:
			if uint64(sext(b.k, a.a.w))&mask(a.w) != b.k {
				return tt.False
			}
			return tt.Eq(a.a, tt.Const(b.k, a.a.w))
		case OIte:
			if isC(a.b) && isC(a.c) {
				x, y := a.b.k == b.k, a.c.k == b.k
				switch {
				case x && y:
					return tt.True
				case x:
					return a.a
				case y:
					return tt.Not(a.a)
				default:
					return tt.False
				}
			}
			if isC(a.b) && a.b.k != b.k {
				return tt.And(tt.Not(a.a), tt.Eq(a.c, b))
			}
			if isC(a.c) && a.c.k != b.k {
				return tt.And(a.a, tt.Eq(a.b, b))
			}
		case OAdd:
			if isC(a.b) {
				return tt.Eq(a.a, tt.Const(b.k-a.b.k, a.w))
			}
		case OXor:
			if isC(a.b) {
				return tt.Eq(a.a, tt.Const(b.k^a.b.k, a.w))
			}
			if b.k == 0 {
				return tt.Eq(a.a, a.b)
			}
		case OConcat:
			return tt.And(tt.Eq(a.a, tt.Const(b.k>>uint(a.b.w), a.a.w)), tt.Eq(a.b, tt.Const(b.k, a.b.w)))
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && isC(a.b) && isC(b.b) && a.b == b.b {
			return tt.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tt.mk(OEq, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a == b {
		return tt.Bool(op == OUle || op == OSle)
	}
	if isC(a) && isC(b) {
		switch op {
		case OUlt:
			return tt.Bool(a.k < b.k)
		case OUle:
			return tt.Bool(a.k <= b.k)
		case OSlt:
			return tt.Bool(sext(a.k, w) < sext(b.k, w))
		case OSle:
			return tt.Bool(sext(a.k, w) <= sext(b.k, w))
		}
	}
	half := mask(w) >> 1
	if op == OSlt || op == OSle {
		if a.umax <= half && b.umax <= half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if isC(b) && b.k > half && a.umax <= half { // a>=0 > b
			return tt.False
		} else if isC(a) && a.k > half && b.umax <= half {
			return tt.True
		}
	}
	switch op {
	case OUlt:
		if isC(b) && b.k == 0 {
			return tt.False
		}
		if isC(b) && a.umax < b.k {
			return tt.True
		}
		if isC(a) && b.umax <= a.k {
			return tt.False
		}
		if isC(b) && b.k == 1 {
			return tt.Eq(a, tt.Const(0, w))
		}
		if isC(a) && a.k == 0 {
			return tt.Not(tt.Eq(b, a))
		}
	case OUle:
		if isC(b) && a.umax <= b.k {
			return tt.True
		}
		if isC(a) && a.k == 0 {
			return tt.True
		}
		if isC(a) && b.umax < a.k {
			return tt.False
		}
		// a<=b  ==  not (b<a)
		return tt.Not(tt.Cmp(OUlt, b, a))
	case OSle:
		return tt.Not(tt.Cmp(OSlt, b, a))
	}
	if op == OUlt {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Cmp(OUlt, a.a, b.a)
		}
		if a.op == OZext && isC(b) && b.k <= mask(a.a.w) {
			return tt.Cmp(OUlt, a.a, tt.Const(b.k, a.a.w))
		}
		if b.op == OZext && isC(a) && a.k <= mask(b.a.w) {
			return tt.Cmp(OUlt, tt.Const(a.k, b.a.w), b.a)
		}
	}
	return tt.mk(op, 0, a, b, nil, 0, "")
}

// ---- evaluation under a model (by variable name; missing = 0)

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[int]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m, map[int]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return e.m[t.name] & mask1(t.w)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var v uint64
	b2i := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OIte:
		if e.eval(t.a) == 1 {
			v = e.eval(t.b)
		} else {
			v = e.eval(t.c)
		}
	case OEq:
		v = b2i(e.eval(t.a) == e.eval(t.b))
	case OUlt:
		v = b2i(e.eval(t.a) < e.eval(t.b))
	case OUle:
		v = b2i(e.eval(t.a) <= e.eval(t.b))
	case OSlt:
		v = b2i(sext(e.eval(t.a), t.a.w) < sext(e.eval(t.b), t.a.w))
	case OSle:
		v = b2i(sext(e.eval(t.a), t.a.w) <= sext(e.eval(t.b), t.a.w))
	case OBAnd:
		v = e.eval(t.a)
		if v == 1 {
			v = e.eval(t.b)
		}
	case OBOr:
		v = e.eval(t.a)
		if v == 0 {
			v = e.eval(t.b)
		}
	case OBNot:
		v = 1 - e.eval(t.a)
	case ONot:
		v = ^e.eval(t.a) & mask(t.w)
	case ONeg:
		v = -e.eval(t.a) & mask(t.w)
	case OExtract:
		v = (e.eval(t.a) >> (t.k & 0xff)) & mask(t.w)
	case OConcat:
		v = e.eval(t.a)<<uint(t.b.w) | e.eval(t.b)
	case OZext:
		v = e.eval(t.a)
	case OSext:
		v = uint64(sext(e.eval(t.a), t.a.w)) & mask(t.w)
	default:
		r, ok := foldBin(t.op, e.eval(t.a), e.eval(t.b), t.w)
		if !ok {
			panic("eval: bad op")
		}
		v = r
	}
	e.memo[t.id] = v
	return v
}

func mask1(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing (nodes are named once by the solver session)

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) def() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.k>>8, t.k&0xff, t.a.ref())
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" " + x.ref())
			}
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// collectVars gathers the variables of a term.
func collectVars(t *Term, seen map[int]bool, out map[string]*Term) {
	if t == nil || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar {
		out[t.name] = t
	}
	collectVars(t.a, seen, out)
	collectVars(t.b, seen, out)
	collectVars(t.c, seen, out)
}
