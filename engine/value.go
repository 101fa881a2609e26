package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is any of: uint64|*Term (integers), bool|*Term (w==0), float64,
// string|*SymStr|*ViewStr, *Cell|*IdxPtr|*SlicePtr (pointers), *StructV, *ArrV,
// SliceV, *MapV, *ChanV, *Closure, Iface, UnsafePtr, Tuple, *StrHandle.
type Value = any

type Cell struct {
	v    Value // nil: the zero value of the static type
	meta *cellMeta
}

type StructV struct{ f []Cell }

type ArrV struct {
	e  []Cell
	ro bool // memory of a string: writing to it is a fault
	id int
}

type SliceV struct {
	arr         *ArrV
	off, n, cap int
}

type SymStr struct{ b []Value } // bytes: uint64|*Term(8)

type ViewStr struct { // string made from a slice by unsafe conversion: aliases the array
	arr    *ArrV
	off, n int
}

type StrHandle struct{ s Value } // data pointer of a string, seen as uintptr

type SlicePtr struct{ s SliceV } // unsafe.SliceData

type IdxPtr struct { // &a[i] with symbolic i, bounds already checked
	arr *ArrV
	off int
	n   int
	idx *Term
}

type UnsafePtr struct {
	p Value
	t types.Type // pointee type, nil for nil
}

type Tuple []Value

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	fv  []Value
	bi  string                                           // builtin name
	nat func(m *Machine, th *Thread, args []Value) Value // native closure
}

type mapEntry struct {
	k, v    Value
	deleted bool
	cell    Cell
}

type MapV struct {
	ents []*mapEntry
	idx  map[any]*mapEntry
	n    int
	symk int // number of symbolic keys ever inserted
	meta *cellMeta
	id   int
}

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kUnsafe
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
)

type typeInfo struct {
	t      types.Type
	u      types.Type
	kind   kind
	w      int
	signed bool
	n      int // array length
	elem   types.Type
	fields []types.Type
	ei     *typeInfo
	fi     []*typeInfo
}

var tiCache sync.Map

func ti(t types.Type) *typeInfo {
	if x, ok := tiCache.Load(t); ok {
		return x.(*typeInfo)
	}
	x := mkti(t)
	tiCache.Store(t, x)
	return x
}

func (x *typeInfo) el() *typeInfo {
	return ti(x.elem)
}

func mkti(t types.Type) *typeInfo {
	r := &typeInfo{t: t, u: t.Underlying()}
	switch u := r.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind = kBool
		case types.Int, types.Int64, types.UntypedInt:
			r.kind, r.w, r.signed = kInt, 64, true
		case types.Int8:
			r.kind, r.w, r.signed = kInt, 8, true
		case types.Int16:
			r.kind, r.w, r.signed = kInt, 16, true
		case types.Int32, types.UntypedRune:
			r.kind, r.w, r.signed = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			r.kind, r.w = kInt, 64
		case types.Uint8:
			r.kind, r.w = kInt, 8
		case types.Uint16:
			r.kind, r.w = kInt, 16
		case types.Uint32:
			r.kind, r.w = kInt, 32
		case types.Float32:
			r.kind, r.w = kFloat, 32
		case types.Float64, types.UntypedFloat:
			r.kind, r.w = kFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			r.kind = kComplex
		case types.String, types.UntypedString:
			r.kind = kString
		case types.UnsafePointer:
			r.kind = kUnsafe
		case types.UntypedNil:
			r.kind = kPtr
		}
	case *types.Pointer:
		r.kind, r.elem = kPtr, u.Elem()
	case *types.Struct:
		r.kind = kStruct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, u.Field(i).Type())
		}
	case *types.Array:
		r.kind, r.n, r.elem = kArray, int(u.Len()), u.Elem()
	case *types.Slice:
		r.kind, r.elem = kSlice, u.Elem()
	case *types.Map:
		r.kind, r.elem = kMap, u.Elem()
	case *types.Chan:
		r.kind, r.elem = kChan, u.Elem()
	case *types.Signature:
		r.kind = kFunc
	case *types.Interface:
		r.kind = kIface
	case *types.Tuple:
		r.kind = kTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, u.At(i).Type())
		}
	}
	return r
}

// zero builds the zero value of a type. Aggregates get lazily zeroed cells.
func zero(t *typeInfo) Value {
	switch t.kind {
	case kBool:
		return false
	case kInt:
		return uint64(0)
	case kFloat:
		return float64(0)
	case kComplex:
		return complex128(0)
	case kString:
		return ""
	case kPtr:
		return (*Cell)(nil)
	case kUnsafe:
		return UnsafePtr{}
	case kStruct:
		return &StructV{f: make([]Cell, len(t.fields))}
	case kArray:
		return &ArrV{e: make([]Cell, t.n)}
	case kSlice:
		return SliceV{}
	case kMap:
		return (*MapV)(nil)
	case kChan:
		return (*ChanV)(nil)
	case kFunc:
		return (*Closure)(nil)
	case kIface:
		return Iface{}
	case kTuple:
		r := make(Tuple, len(t.fields))
		for i, f := range t.fields {
			r[i] = zero(ti(f))
		}
		return r
	}
	panic(fmt.Sprintf("zero of %v", t.t))
}

// get reads a cell without copying; aggregates are materialised in place.
func (c *Cell) get(t *typeInfo) Value {
	if c.v == nil {
		z := zero(t)
		if t.kind == kStruct || t.kind == kArray {
			c.v = z
		}
		return z
	}
	return c.v
}

// copyVal copies an aggregate so that the result shares no cells.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Cell, len(x.f))}
		for i := range x.f {
			n.f[i].v = copyVal(x.f[i].v)
		}
		return n
	case *ArrV:
		n := &ArrV{e: make([]Cell, len(x.e))}
		for i := range x.e {
			n.e[i].v = copyVal(x.e[i].v)
		}
		return n
	}
	return v
}

// put stores into a cell, keeping the identity of nested cells.
func (c *Cell) put(v Value) {
	switch x := v.(type) {
	case *StructV:
		d, ok := c.v.(*StructV)
		if !ok || len(d.f) != len(x.f) {
			c.v = copyVal(v)
			return
		}
		if d == x {
			return
		}
		for i := range x.f {
			d.f[i].putNested(x.f[i].v)
		}
	case *ArrV:
		d, ok := c.v.(*ArrV)
		if !ok || len(d.e) != len(x.e) {
			c.v = copyVal(v)
			return
		}
		if d == x {
			return
		}
		for i := range x.e {
			d.e[i].putNested(x.e[i].v)
		}
	default:
		c.v = v
	}
}

func (c *Cell) putNested(v Value) {
	if v == nil { // zero of the static type; nested aggregates keep their cells
		switch d := c.v.(type) {
		case *StructV:
			for i := range d.f {
				d.f[i].putNested(nil)
			}
		case *ArrV:
			for i := range d.e {
				d.e[i].putNested(nil)
			}
		default:
			c.v = nil
		}
		return
	}
	c.put(v)
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *ViewStr:
		return s.n
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strByte(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	case *ViewStr:
		return byteCell(&s.arr.e[s.off+i])
	}
	panic("strByte")
}

func byteCell(c *Cell) Value {
	if c.v == nil {
		return uint64(0)
	}
	return c.v
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	case *ViewStr:
		r := make([]Value, s.n)
		for i := range r {
			r[i] = byteCell(&s.arr.e[s.off+i])
		}
		return r
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b: b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

// snapStr turns views into plain strings.
func snapStr(v Value) Value {
	switch s := v.(type) {
	case *ViewStr:
		return mkStr(strBytes(s))
	case *SymStr:
		return mkStr(s.b)
	}
	return v
}

func concStr(v Value) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *ViewStr, *SymStr:
		x := mkStr(strBytes(v))
		r, ok := x.(string)
		return r, ok
	}
	return "", false
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	case *ViewStr:
		return &ViewStr{s.arr, s.off + lo, hi - lo}
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return snapStr(b)
	}
	if ok2 && y == "" {
		return snapStr(a)
	}
	p, q := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(p)+len(q))
	r = append(append(r, p...), q...)
	return mkStr(r)
}

func (m *Machine) byteT(v Value) *Term { return m.term(v, 8) }

// term lifts an integer value to a term.
func (m *Machine) term(v Value, w int) *Term {
	switch x := v.(type) {
	case uint64:
		return m.tt.Const(x, w)
	case *Term:
		return x
	}
	m.unsupported(fmt.Sprintf("integer value of kind %T", v))
	return nil
}

func (m *Machine) bterm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return m.tt.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("bterm %T", v))
}

func lowerInt(t *Term) Value {
	if t.op == OConst {
		return t.k
	}
	return t
}

func lowerBool(t *Term) Value {
	if t.op == OConst {
		return t.k == 1
	}
	return t
}

func (m *Machine) strEq(a, b Value) Value {
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	p, q := strBytes(a), strBytes(b)
	return m.bytesEq(p, q)
}

func (m *Machine) bytesEq(p, q []Value) Value {
	r := m.tt.True
	for i := range p {
		c, ok1 := p[i].(uint64)
		d, ok2 := q[i].(uint64)
		if ok1 && ok2 {
			if c != d {
				return false
			}
			continue
		}
		r = m.tt.And(r, m.tt.Eq(m.byteT(p[i]), m.byteT(q[i])))
		if isC(r) && r.k == 0 {
			return false
		}
	}
	return lowerBool(r)
}

// strLess: a < b lexicographically.
func (m *Machine) strLess(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	p, q := strBytes(a), strBytes(b)
	r := m.tt.Bool(len(p) < len(q))
	n := min(len(p), len(q))
	for i := n - 1; i >= 0; i-- {
		u, v := m.byteT(p[i]), m.byteT(q[i])
		r = m.tt.Or(m.tt.Cmp(OUlt, u, v), m.tt.And(m.tt.Eq(u, v), r))
	}
	return lowerBool(r)
}

// bytes of a []byte slice value
func sliceBytes(s SliceV) []Value {
	r := make([]Value, s.n)
	for i := range r {
		r[i] = byteCell(&s.arr.e[s.off+i])
	}
	return r
}

func (m *Machine) newArr(n int) *ArrV {
	m.nextID++
	return &ArrV{e: make([]Cell, n), id: m.nextID}
}

func (m *Machine) bytesSlice(b []Value) SliceV {
	a := m.newArr(len(b))
	for i, x := range b {
		a.e[i].v = x
	}
	return SliceV{a, 0, len(b), len(b)}
}

func goBytes(b []byte) []Value {
	r := make([]Value, len(b))
	for i, x := range b {
		r[i] = uint64(x)
	}
	return r
}

func concBytes(b []Value) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(c)
	}
	return r, true
}

// ---- equality

// equal compares two values of static type t; the result is bool or *Term.
func (m *Machine) equal(t *typeInfo, a, b Value) Value {
	switch t.kind {
	case kBool:
		x, ok1 := a.(bool)
		y, ok2 := b.(bool)
		if ok1 && ok2 {
			return x == y
		}
		return lowerBool(m.tt.Eq(m.bterm(a), m.bterm(b)))
	case kInt:
		x, ok1 := a.(uint64)
		y, ok2 := b.(uint64)
		if ok1 && ok2 {
			return x == y
		}
		return lowerBool(m.tt.Eq(m.term(a, t.w), m.term(b, t.w)))
	case kFloat:
		return a.(float64) == b.(float64)
	case kString:
		return m.strEq(a, b)
	case kPtr, kUnsafe:
		return ptrEq(a, b)
	case kMap:
		return a.(*MapV) == b.(*MapV)
	case kChan:
		return a.(*ChanV) == b.(*ChanV)
	case kFunc:
		return a.(*Closure) == b.(*Closure)
	case kSlice: // only against nil
		x, y := a.(SliceV), b.(SliceV)
		return x.arr == nil && y.arr == nil
	case kIface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.equal(ti(x.t), x.v, y.v)
	case kStruct:
		x, y := a.(*StructV), b.(*StructV)
		r := m.tt.True
		for i, f := range t.fields {
			ft := ti(f)
			r = m.tt.And(r, m.bterm(m.equal(ft, x.f[i].get(ft), y.f[i].get(ft))))
			if isC(r) && r.k == 0 {
				return false
			}
		}
		return lowerBool(r)
	case kArray:
		x, y := a.(*ArrV), b.(*ArrV)
		et := t.el()
		r := m.tt.True
		for i := range x.e {
			r = m.tt.And(r, m.bterm(m.equal(et, x.e[i].get(et), y.e[i].get(et))))
			if isC(r) && r.k == 0 {
				return false
			}
		}
		return lowerBool(r)
	}
	panic(fmt.Sprintf("equal on %v", t.t))
}

func ptrEq(a, b Value) bool {
	norm := func(v Value) any {
		switch x := v.(type) {
		case *Cell:
			if x == nil {
				return nil
			}
			return x
		case UnsafePtr:
			if x.p == nil {
				return nil
			}
			if c, ok := x.p.(*Cell); ok {
				if c == nil {
					return nil
				}
				return c
			}
			return x.p
		case *SlicePtr:
			if x.s.arr == nil {
				return nil
			}
			if x.s.off < len(x.s.arr.e) {
				return &x.s.arr.e[x.s.off]
			}
			return x.s.arr
		}
		return v
	}
	return norm(a) == norm(b)
}

// ---- maps

// hashKey gives a comparable Go key for a concrete value, or ok=false.
func hashKey(t *typeInfo, v Value) (any, bool) {
	switch t.kind {
	case kBool:
		x, ok := v.(bool)
		return x, ok
	case kInt:
		x, ok := v.(uint64)
		return x, ok
	case kFloat:
		return v.(float64), true
	case kString:
		return concStrKey(v)
	case kPtr, kUnsafe:
		return v, true
	case kChan:
		return v, true
	case kIface:
		x := v.(Iface)
		if x.t == nil {
			return nil, true
		}
		k, ok := hashKey(ti(x.t), x.v)
		if !ok {
			return nil, false
		}
		return [2]any{typeKey(x.t), k}, true
	case kStruct:
		x := v.(*StructV)
		var sb strings.Builder
		for i, f := range t.fields {
			ft := ti(f)
			k, ok := hashKey(ft, x.f[i].get(ft))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "S" + sb.String(), true
	case kArray:
		x := v.(*ArrV)
		et := t.el()
		var sb strings.Builder
		for i := range x.e {
			k, ok := hashKey(et, x.e[i].get(et))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return "A" + sb.String(), true
	}
	return nil, false
}

func concStrKey(v Value) (any, bool) {
	s, ok := concStr(v)
	return s, ok
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (m *Machine) newMap() *MapV {
	m.nextID++
	return &MapV{idx: map[any]*mapEntry{}, id: m.nextID}
}

func (m *Machine) mapFind(mv *MapV, kt *typeInfo, k Value) *mapEntry {
	if mv == nil {
		return nil
	}
	if kt.kind == kIface {
		if x := k.(Iface); x.t != nil && !types.Comparable(x.t) {
			m.rtPanic("hash of unhashable type " + x.t.String())
		}
	}
	hk, conc := hashKey(kt, k)
	if conc {
		if e, ok := mv.idx[hk]; ok {
			return e
		}
		if mv.symk == 0 {
			return nil
		}
	}
	for _, e := range mv.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, c := hashKey(kt, e.k); c {
				continue // differs: not in idx
			}
		}
		if m.branchV(m.equal(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mv *MapV, kt *typeInfo, k, v Value) {
	if e := m.mapFind(mv, kt, k); e != nil {
		e.v = copyVal(v)
		return
	}
	if kt.kind == kString {
		k = snapStr(k)
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	mv.ents = append(mv.ents, e)
	mv.n++
	if hk, ok := hashKey(kt, k); ok {
		mv.idx[hk] = e
	} else {
		mv.symk++
	}
}

func (m *Machine) mapDel(mv *MapV, kt *typeInfo, k Value) {
	e := m.mapFind(mv, kt, k)
	if e == nil {
		return
	}
	e.deleted = true
	mv.n--
	if hk, ok := hashKey(kt, e.k); ok {
		delete(mv.idx, hk)
	} else {
		mv.symk--
	}
	if len(mv.ents) > 32 && mv.n < len(mv.ents)/4 {
		var ne []*mapEntry
		for _, x := range mv.ents {
			if !x.deleted {
				ne = append(ne, x)
			}
		}
		mv.ents = ne
	}
}
