package main

// Interval facts about terms, learned from the path condition. They decide
// many branches without the solver; they are consequences of the path
// condition, so nothing is assumed.

type bnd struct{ lo, hi uint64 }

func (m *Machine) rangeOf(t *Term) bnd { return m.rngD(t, 0) }

func (m *Machine) rngD(t *Term, d int) bnd {
	if t.op == OConst {
		return bnd{t.k, t.k}
	}
	if b, ok := m.rmemo[t.id]; ok {
		return b
	}
	r := bnd{0, t.umax}
	if t.w == 0 {
		return bnd{0, 1}
	}
	mk := mask(t.w)
	if d < 200 {
		switch t.op {
		case OAdd:
			a, b := m.rngD(t.a, d+1), m.rngD(t.b, d+1)
			lo, hi := a.lo+b.lo, a.hi+b.hi
			switch {
			case hi >= a.hi && hi <= mk: // no wrap
				r = meet(r, bnd{lo, hi})
			case isC(t.b) && a.lo >= (mk-t.b.k)+1: // always wraps
				r = meet(r, bnd{(a.lo + t.b.k) & mk, (a.hi + t.b.k) & mk})
			}
		case OMul:
			if isC(t.b) && t.b.k > 0 {
				a := m.rngD(t.a, d+1)
				if a.hi <= mk/t.b.k {
					r = meet(r, bnd{a.lo * t.b.k, a.hi * t.b.k})
				}
			}
		case OZext:
			r = meet(r, m.rngD(t.a, d+1))
		case OExtract:
			if t.k&0xff == 0 {
				if a := m.rngD(t.a, d+1); a.hi <= mk {
					r = meet(r, a)
				}
			}
		case ONeg:
			a := m.rngD(t.a, d+1)
			if a.lo > 0 {
				r = meet(r, bnd{mk - a.hi + 1, mk - a.lo + 1})
			}
		case OIte:
			a, b := m.rngD(t.b, d+1), m.rngD(t.c, d+1)
			if b.lo < a.lo {
				a.lo = b.lo
			}
			if b.hi > a.hi {
				a.hi = b.hi
			}
			r = meet(r, a)
		case OUdiv:
			if isC(t.b) && t.b.k > 0 {
				a := m.rngD(t.a, d+1)
				r = meet(r, bnd{a.lo / t.b.k, a.hi / t.b.k})
			}
		case OUrem:
			if isC(t.b) && t.b.k > 0 {
				a := m.rngD(t.a, d+1)
				if a.hi < t.b.k {
					r = meet(r, a)
				} else {
					r = meet(r, bnd{0, t.b.k - 1})
				}
			}
		}
	}
	if b, ok := m.bnds[t.id]; ok {
		r = meet(r, b)
	}
	m.rmemo[t.id] = r
	return r
}

func meet(a, b bnd) bnd {
	if b.lo > a.lo {
		a.lo = b.lo
	}
	if b.hi < a.hi {
		a.hi = b.hi
	}
	if a.lo > a.hi { // the path condition is contradictory; stay neutral
		return b
	}
	return a
}

func (m *Machine) addBnd(t *Term, b bnd) {
	if isC(t) || t.w == 0 {
		return
	}
	o, ok := m.bnds[t.id]
	if !ok {
		o = bnd{0, mask(t.w)}
	}
	n := meet(o, b)
	if ok && n == o {
		return
	}
	m.bnds[t.id] = n
	m.rmemo = map[int]bnd{}
	switch t.op {
	case OZext:
		if n.hi > mask(t.a.w) {
			n.hi = mask(t.a.w)
		}
		m.addBnd(t.a, n)
	case OAdd:
		if isC(t.b) && n.lo <= n.hi {
			mk := mask(t.w)
			lo, hi := (n.lo-t.b.k)&mk, (n.hi-t.b.k)&mk
			if lo <= hi {
				m.addBnd(t.a, bnd{lo, hi})
			}
		}
	}
}

// learnRange records what a comparison says.
func (m *Machine) learnRange(t *Term, v bool) {
	switch t.op {
	case OUlt:
		w := t.a.w
		mk := mask(w)
		a, b := m.rangeOf(t.a), m.rangeOf(t.b)
		if v { // a < b
			if b.hi > 0 {
				m.addBnd(t.a, bnd{0, b.hi - 1})
			}
			if a.lo < mk {
				m.addBnd(t.b, bnd{a.lo + 1, mk})
			}
		} else { // b <= a
			m.addBnd(t.a, bnd{b.lo, mk})
			m.addBnd(t.b, bnd{0, a.hi})
		}
	case OSlt:
		w := t.a.w
		half := mask(w) >> 1
		mk := mask(w)
		a, b := m.rangeOf(t.a), m.rangeOf(t.b)
		if v { // a < b
			if a.hi <= half { // both non-negative
				m.addBnd(t.b, bnd{a.lo + 1, half})
				if b2 := m.rangeOf(t.b); b2.hi > 0 {
					m.addBnd(t.a, bnd{0, b2.hi - 1})
				}
			} else if b.lo > half { // both negative
				m.addBnd(t.a, bnd{half + 1, b.hi - 1})
				m.addBnd(t.b, bnd{a.lo, mk})
			} else if isC(t.b) && t.b.k == 0 {
				m.addBnd(t.a, bnd{half + 1, mk})
			} else if isC(t.a) && t.a.k == mk { // -1 < b
				m.addBnd(t.b, bnd{0, half})
			}
		} else { // b <= a
			if b.hi <= half { // b >= 0
				m.addBnd(t.a, bnd{b.lo, half})
				m.addBnd(t.b, bnd{0, m.rangeOf(t.a).hi})
			} else if a.lo > half { // a < 0
				m.addBnd(t.b, bnd{half + 1, a.hi})
			}
		}
	case OEq:
		if t.a.w == 0 {
			return
		}
		a, b := m.rangeOf(t.a), m.rangeOf(t.b)
		if v {
			m.addBnd(t.a, b)
			m.addBnd(t.b, a)
		} else if isC(t.b) && a.lo < a.hi {
			if t.b.k == a.lo {
				m.addBnd(t.a, bnd{a.lo + 1, a.hi})
			} else if t.b.k == a.hi {
				m.addBnd(t.a, bnd{a.lo, a.hi - 1})
			}
		}
	}
}

// rangeKnown decides a comparison from intervals.
func (m *Machine) rangeKnown(t *Term) (bool, bool) {
	switch t.op {
	case OUlt, OSlt:
		a, b := m.rangeOf(t.a), m.rangeOf(t.b)
		half := mask(t.a.w) >> 1
		if t.op == OSlt {
			an, bn := a.lo > half, b.lo > half
			ap, bp := a.hi <= half, b.hi <= half
			switch {
			case an && bp:
				return true, true
			case ap && bn:
				return false, true
			case an && bn, ap && bp:
			default:
				return false, false
			}
		}
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
		// p+q < p without wrap-around
		if t.a.op == OAdd && (t.a.a == t.b || t.a.b == t.b) {
			p, q := m.rangeOf(t.a.a), m.rangeOf(t.a.b)
			s := p.hi + q.hi
			if s >= p.hi && s <= mask(t.a.w) && (t.op == OUlt || s <= half) {
				return false, true
			}
		}
	case OEq:
		if t.a.w == 0 {
			return false, false
		}
		a, b := m.rangeOf(t.a), m.rangeOf(t.b)
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		if a.lo == a.hi && b == a {
			return true, true
		}
	}
	return false, false
}
