package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// intrinsics replace the bodies of library functions the interpreter does not
// execute (assembly, runtime, scheduler, reflection, formatting).
var intrinsics map[string]intrinsic

const sha1Pkg = "crypto/sha1"

func cellField(m *Machine, v Value, i int) *Cell {
	c := m.deref(v)
	s, ok := c.v.(*StructV)
	if !ok {
		m.unsupported("field of an unmaterialised struct")
	}
	return &s.f[i]
}

// recvField reads field i of the receiver struct of fn.
func recvField(m *Machine, fn *cfn, v Value, i int) *Cell {
	c := m.deref(v)
	t := ti(fn.fn.Signature.Recv().Type()).el()
	s := c.get(t).(*StructV)
	return &s.f[i]
}

func tup(v ...Value) Value { return Tuple(v) }

func nilIface() Value { return Iface{} }

func (m *Machine) stringIface(s Value) Value { return Iface{types.Typ[types.String], s} }

// mkError builds an *errors.errorString.
func (m *Machine) mkError(s Value) Value {
	return m.callFn(m.cur, m.cur.fr, m.p.lookupFn("errors", "New"), []Value{s}, nil)
}

func i64(v int64) Value { return uint64(v) }

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	nop := func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return zeroResults(fn) }

	// ---- byte algorithms
	idxByte := func(m *Machine, b []Value, c Value) Value {
		for i, x := range b {
			if m.branchV(m.bytesEq([]Value{x}, []Value{c})) {
				return i64(int64(i))
			}
		}
		return i64(-1)
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return idxByte(m, sliceBytes(a[0].(SliceV)), a[1])
	}, "internal/bytealg.IndexByte")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return idxByte(m, strBytes(a[0]), a[1]) }, "internal/bytealg.IndexByteString")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		arr := &ArrV{e: make([]Cell, 1)}
		arr.e[0].put("p2pcrawler")
		return SliceV{arr, 0, 1, 1}
	}, "os.runtime_args")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return math.Float64bits(a[0].(float64))
	}, "internal/strconv.float64bits", "math.Float64bits")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x, ok := a[0].(uint64)
		if !ok {
			m.unsupported("symbolic floating point")
		}
		return math.Float64frombits(x)
	}, "internal/strconv.float64frombits", "math.Float64frombits")
	fmtFloat := func(m *Machine, a []Value) string {
		var x [3]uint64
		for i := range x {
			v, ok := a[i+1].(uint64)
			if !ok {
				m.unsupported("symbolic floating point format")
			}
			x[i] = v
		}
		return strconv.FormatFloat(a[0].(float64), byte(x[0]), int(x[1]), int(x[2]))
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return fmtFloat(m, a) }, "strconv.FormatFloat", "internal/strconv.FormatFloat")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		f := fmtFloat(m, a[1:])
		return m.appendCells(ti(types.Typ[types.Uint8]), a[0].(SliceV), len(f), func(i int) Value { return uint64(f[i]) })
	}, "strconv.AppendFloat", "internal/strconv.AppendFloat")
	count := func(m *Machine, b []Value, c Value) Value {
		n := int64(0)
		var r *Term
		for _, x := range b {
			switch e := m.bytesEq([]Value{x}, []Value{c}).(type) {
			case bool:
				if e {
					n++
				}
			case *Term:
				t := m.tt.Ite(e, m.tt.Const(1, 64), m.tt.Const(0, 64))
				if r == nil {
					r = t
				} else {
					r = m.tt.Bin(OAdd, r, t)
				}
			}
		}
		if r == nil {
			return i64(n)
		}
		return lowerInt(m.tt.Bin(OAdd, r, m.tt.Const(uint64(n), 64)))
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return count(m, sliceBytes(a[0].(SliceV)), a[1])
	}, "internal/bytealg.Count")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return count(m, strBytes(a[0]), a[1]) }, "internal/bytealg.CountString")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x, y := sliceBytes(a[0].(SliceV)), sliceBytes(a[1].(SliceV))
		if len(x) != len(y) {
			return false
		}
		return m.bytesEq(x, y)
	}, "internal/bytealg.Equal", "bytes.Equal")
	cmp := func(m *Machine, x, y Value) Value {
		eq := m.bterm(m.strEq(x, y))
		lt := m.bterm(m.strLess(x, y))
		return lowerInt(m.tt.Ite(eq, m.tt.Const(0, 64), m.tt.Ite(lt, m.tt.Const(^uint64(0), 64), m.tt.Const(1, 64))))
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return cmp(m, mkStr(sliceBytes(a[0].(SliceV))), mkStr(sliceBytes(a[1].(SliceV))))
	}, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return cmp(m, a[0], a[1]) }, "internal/bytealg.CompareString", "strings.Compare")
	index := func(m *Machine, s, p []Value) Value {
		for i := 0; i+len(p) <= len(s); i++ {
			if m.branchV(m.bytesEq(s[i:i+len(p)], p)) {
				return i64(int64(i))
			}
		}
		return i64(-1)
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return index(m, sliceBytes(a[0].(SliceV)), sliceBytes(a[1].(SliceV)))
	}, "internal/bytealg.Index", "bytes.Index")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return index(m, strBytes(a[0]), strBytes(a[1]))
	}, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		s, p := strBytes(a[0]), strBytes(a[1])
		for i := len(s) - len(p); i >= 0; i-- {
			if m.branchV(m.bytesEq(s[i:i+len(p)], p)) {
				return i64(int64(i))
			}
		}
		return i64(-1)
	}, "strings.LastIndex")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		n := int(m.concInt(a[0], tiInt))
		return SliceV{m.newArr(n), 0, n, n}
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return snapStr(a[0]) }, "strings.Clone", "internal/stringslite.Clone")
	reg(nop, "(*strings.Builder).copyCheck")

	// ---- bits
	lenN := func(w int) intrinsic {
		return func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			if c, ok := a[0].(uint64); ok {
				return uint64(bits.Len64(c))
			}
			t := a[0].(*Term)
			r := m.tt.Const(0, 64)
			for i := 0; i < t.w; i++ {
				r = m.tt.Ite(m.tt.Eq(m.tt.Extract(t, i, i), m.tt.Const(1, 1)), m.tt.Const(uint64(i+1), 64), r)
			}
			return lowerInt(r)
		}
	}
	for n, w := range map[string]int{"Len": 64, "Len8": 8, "Len16": 16, "Len32": 32, "Len64": 64} {
		reg(lenN(w), "math/bits."+n)
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		w := map[string]int{"TrailingZeros": 64, "TrailingZeros8": 8, "TrailingZeros16": 16, "TrailingZeros32": 32, "TrailingZeros64": 64}[fn.fn.Name()]
		if c, ok := a[0].(uint64); ok {
			if c == 0 {
				return uint64(w)
			}
			return uint64(bits.TrailingZeros64(c))
		}
		t := a[0].(*Term)
		r := m.tt.Const(uint64(w), 64)
		for i := t.w - 1; i >= 0; i-- {
			r = m.tt.Ite(m.tt.Eq(m.tt.Extract(t, i, i), m.tt.Const(1, 1)), m.tt.Const(uint64(i), 64), r)
		}
		return lowerInt(r)
	}, "math/bits.TrailingZeros", "math/bits.TrailingZeros8", "math/bits.TrailingZeros16", "math/bits.TrailingZeros32", "math/bits.TrailingZeros64")

	// ---- strconv
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.itoa(a[0], 64, true) }, "strconv.Itoa", "internal/itoa.Itoa")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		base, _ := a[1].(uint64)
		if x, ok := a[0].(uint64); ok {
			return strconv.FormatInt(int64(x), int(base))
		}
		if base != 10 {
			m.unsupported("FormatInt of a symbolic value in another base")
		}
		return m.itoa(a[0], 64, true)
	}, "strconv.FormatInt")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			base := uint64(10)
			if len(a) > 1 {
				base = a[1].(uint64)
			}
			return strconv.FormatUint(x, int(base))
		}
		return m.itoa(a[0], 64, false)
	}, "strconv.FormatUint", "internal/itoa.Uitoa")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		base, _ := a[2].(uint64)
		var s Value
		if x, ok := a[1].(uint64); ok {
			s = strconv.FormatInt(int64(x), int(base))
		} else {
			if base != 10 {
				m.unsupported("AppendInt in another base")
			}
			s = m.itoa(a[1], 64, true)
		}
		b := strBytes(s)
		return m.appendCells(tiByte, a[0].(SliceV), len(b), func(i int) Value { return b[i] })
	}, "strconv.AppendInt")

	// ---- runtime
	reg(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread", "internal/race.Disable",
		"internal/race.Enable", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/godebug.New",
		"(*internal/godebug.Setting).IncNonDefault")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		r := sigReg{c: a[0].(*ChanV)}
		sigs := a[1].(SliceV)
		for i := 0; i < sigs.n; i++ {
			if f, ok := sigs.arr.e[sigs.off+i].get(nil).(Iface); ok {
				if n, ok := f.v.(uint64); ok {
					r.sigs = append(r.sigs, n)
				}
			}
		}
		if sigs.n > 0 && len(r.sigs) != sigs.n {
			m.unsupported("signal.Notify with a signal of unknown number")
		}
		m.signals = append(m.signals, r)
		return nil
	}, "os/signal.Notify")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		c, _ := a[0].(*ChanV)
		var left []sigReg
		for _, r := range m.signals {
			if r.c != c {
				left = append(left, r)
			}
		}
		m.signals = left
		return nil
	}, "os/signal.Stop")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		if m.opt.explore {
			m.visible(th)
		} else if o := m.runnable(th); len(o) > 0 {
			m.switchTo(th, m.roundRobin(th, o))
		}
		return nil
	}, "runtime.Gosched")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		n := 0
		for _, t := range m.threads {
			if !t.dead {
				n++
			}
		}
		return uint64(n)
	}, "runtime.NumGoroutine")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return uint64(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return m.bytesSlice(goBytes([]byte("goroutine 1 [running]:\n")))
	}, "runtime/debug.Stack")
	// stack traces have no frames here
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return uint64(0) }, "runtime.Callers")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		panic(targetPanic{v: Iface{types.Typ[types.String], m.sprintArgs(a[0].(SliceV), false)}, where: m.where()})
	}, "log.Panic", "log.Panicln")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		panic(targetPanic{v: Iface{types.Typ[types.String], m.sprintf(a[0], a[1].(SliceV))}, where: m.where()})
	}, "log.Panicf")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.crash("process exit")
		return nil
	}, "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit")

	// ---- fmt
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.sprintf(a[0], a[1].(SliceV)) }, "fmt.Sprintf")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.sprintArgs(a[0].(SliceV), false) }, "fmt.Sprint")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.sprintArgs(a[0].(SliceV), true) }, "fmt.Sprintln")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		s := m.sprintf(a[0], a[1].(SliceV))
		m.stdout = append(m.stdout, s)
		return tup(uint64(strLen(s)), nilIface())
	}, "fmt.Printf")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		s := m.sprintArgs(a[0].(SliceV), false)
		m.stdout = append(m.stdout, s)
		return tup(uint64(strLen(s)), nilIface())
	}, "fmt.Print")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		s := m.sprintArgs(a[0].(SliceV), true)
		m.stdout = append(m.stdout, s)
		return tup(uint64(strLen(s)), nilIface())
	}, "fmt.Println")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		s := m.sprintf(a[0], a[1].(SliceV))
		// %w: keep the wrapped error reachable
		if f, ok := concStr(a[0]); ok && strings.Contains(f, "%w") {
			sl := a[1].(SliceV)
			for i := 0; i < sl.n; i++ {
				x := sl.arr.e[sl.off+i].get(tiAny).(Iface)
				if x.t != nil && implements(x.t, errorIface) {
					if wt := m.p.lookupType("fmt", "wrapError"); wt != nil {
						return Iface{types.NewPointer(wt), &Cell{v: &StructV{f: []Cell{{v: s}, {v: x}}}}}
					}
				}
			}
		}
		return m.mkError(s)
	}, "fmt.Errorf")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		var s Value
		if fn.fn.Name() == "Fprintf" {
			s = m.sprintf(a[1], a[2].(SliceV))
		} else {
			s = m.sprintArgs(a[1].(SliceV), fn.fn.Name() == "Fprintln")
		}
		w := a[0].(Iface)
		if w.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if strings.HasSuffix(w.t.String(), "os.File") {
			w := m.p.lookupFn(repoModule+"/zzverif/vnet", "FileWrite")
			return m.callFn(th, th.fr, w, []Value{a[0].(Iface).v, m.bytesSlice(append([]Value(nil), strBytes(s)...))}, nil)
		}
		it := m.p.lookupType("io", "Writer").Underlying().(*types.Interface)
		c := m.lookupMethod(w.t, it.Method(0))
		return m.callFn(th, th.fr, c, []Value{w.v, m.bytesSlice(append([]Value(nil), strBytes(s)...))}, nil)
	}, "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.stdout = append(m.stdout, m.convert(ti(types.Typ[types.String]), ti(types.NewSlice(types.Typ[types.Uint8])), a[0], nil))
		return nil
	}, repoModule+"/zzverif/vnet.printed")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		if b, ok := m.jsonText(a[0].(Iface)); ok {
			return tup(m.bytesSlice(goBytes([]byte(b))), nilIface())
		}
		return tup(m.bytesSlice(append([]Value(nil), strBytes(m.jsonSym(a[0].(Iface), 0))...)), nilIface())
	}, "encoding/json.Marshal", "encoding/json.MarshalIndent")

	// ---- reflect
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := a[0].(Iface)
		if x.t == nil {
			return nilIface()
		}
		return m.reflType(x.t)
	}, "reflect.TypeOf", "internal/reflectlite.TypeOf")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return lowerBool(m.bterm(m.deepEqual(a[0].(Iface), a[1].(Iface), 0)))
	}, "reflect.DeepEqual")
	// A reflect.Value holds the value with its static type; the type is an
	// interface type for an element of interface type.
	mkRV := func(t types.Type, v Value) Value {
		if t != nil && v == nil {
			v = zero(ti(t))
		}
		return &StructV{f: []Cell{{v: Iface{t, v}}, {}, {}}}
	}
	rv := func(m *Machine, a Value) Iface {
		s := a.(*StructV)
		x, _ := s.f[0].v.(Iface)
		return x
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return &StructV{f: []Cell{{v: a[0]}, {}, {}}}
	}, "reflect.ValueOf", "internal/reflectlite.ValueOf")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return kindOf(rv(m, a[0]).t) }, "(reflect.Value).Kind")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return rv(m, a[0]).t != nil }, "(reflect.Value).IsValid")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return rv(m, a[0]).t != nil }, "(reflect.Value).CanInterface")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		if x.t == nil {
			m.unsupported("reflect Interface of the zero Value")
		}
		if ti(x.t).kind == kIface {
			return x.v
		}
		return Value(x)
	}, "(reflect.Value).Interface")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		if x.t == nil {
			m.unsupported("reflect Type of the zero Value")
		}
		return m.reflType(x.t)
	}, "(reflect.Value).Type")
	num := func(name string, dst *typeInfo, ok func(t *typeInfo) bool) {
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			x := rv(m, a[0])
			if x.t == nil || !ok(ti(x.t)) {
				m.unsupported("reflect " + name + " of another kind")
			}
			return m.convert(dst, ti(x.t), x.v, nil)
		}, "(reflect.Value)."+name)
	}
	num("Int", ti(types.Typ[types.Int64]), func(t *typeInfo) bool { return t.kind == kInt && t.signed })
	num("Uint", ti(types.Typ[types.Uint64]), func(t *typeInfo) bool { return t.kind == kInt && !t.signed })
	num("Float", ti(types.Typ[types.Float64]), func(t *typeInfo) bool { return t.kind == kFloat })
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		if x.t == nil || ti(x.t).kind != kBool {
			m.unsupported("reflect Bool of another kind")
		}
		return x.v
	}, "(reflect.Value).Bool")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		if x.t == nil || ti(x.t).kind != kSlice || ti(x.t).el().w != 8 {
			m.unsupported("reflect Bytes of another kind")
		}
		return x.v
	}, "(reflect.Value).Bytes")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		if x.t == nil {
			return "<invalid Value>"
		}
		if ti(x.t).kind == kString {
			return x.v
		}
		return "<" + types.TypeString(x.t, func(p *types.Package) string { return p.Name() }) + " Value>"
	}, "(reflect.Value).String")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		switch v := x.v.(type) {
		case SliceV:
			return uint64(v.n)
		case *ArrV:
			return uint64(len(v.e))
		case *MapV:
			if v == nil {
				return uint64(0)
			}
			m.raceMap(v, false)
			return uint64(v.n)
		case string, *SymStr, *ViewStr:
			return uint64(strLen(v))
		}
		m.unsupported("reflect Len")
		return nil
	}, "(reflect.Value).Len", "(internal/reflectlite.Value).Len")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		if x.t != nil {
			switch ti(x.t).kind {
			case kPtr, kSlice, kMap, kChan, kFunc, kIface:
				return m.isNilV(x.v)
			}
		}
		m.unsupported("reflect IsNil of another kind")
		return nil
	}, "(reflect.Value).IsNil")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		i := m.concInt(a[1], tiInt)
		t := ti(x.t)
		switch v := x.v.(type) {
		case SliceV:
			if i >= 0 && int(i) < v.n {
				return mkRV(t.elem, copyVal(v.arr.e[v.off+int(i)].get(t.el())))
			}
		case *ArrV:
			if i >= 0 && int(i) < len(v.e) {
				return mkRV(t.elem, copyVal(v.e[i].get(t.el())))
			}
		case string, *SymStr, *ViewStr:
			if i >= 0 && int(i) < strLen(v) {
				return mkRV(types.Typ[types.Uint8], strByte(v, int(i)))
			}
		}
		m.unsupported("reflect Index")
		return nil
	}, "(reflect.Value).Index")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		if x.t != nil {
			switch ti(x.t).kind {
			case kIface:
				in := x.v.(Iface)
				return &StructV{f: []Cell{{v: in}, {}, {}}}
			case kPtr:
				if m.isNilV(x.v) == true {
					return &StructV{f: []Cell{{v: Iface{}}, {}, {}}}
				}
				return mkRV(ti(x.t).elem, copyVal(m.deref(x.v).get(ti(x.t).el())))
			}
		}
		m.unsupported("reflect Elem of another kind")
		return nil
	}, "(reflect.Value).Elem")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		mv, ok := x.v.(*MapV)
		if !ok {
			m.unsupported("reflect MapKeys of another kind")
		}
		arr := &ArrV{}
		if mv != nil {
			m.raceMap(mv, false)
			mt := ti(x.t).u.(*types.Map)
			it := &mapIter{m: mv, ents: append([]*mapEntry(nil), mv.ents...)}
			for {
				r := m.mapNext(it, ti(mt.Key()), ti(mt.Elem())).(Tuple)
				if r[0] != true {
					break
				}
				arr.e = append(arr.e, Cell{v: mkRV(mt.Key(), r[1])})
			}
		}
		return SliceV{arr: arr, n: len(arr.e), cap: len(arr.e)}
	}, "(reflect.Value).MapKeys")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		mv, ok := x.v.(*MapV)
		if !ok {
			m.unsupported("reflect MapIndex of another kind")
		}
		if mv != nil {
			m.raceMap(mv, false)
			mt := ti(x.t).u.(*types.Map)
			if e := m.mapFind(mv, ti(mt.Key()), rv(m, a[1]).v); e != nil {
				return mkRV(mt.Elem(), valOr(e.v, ti(mt.Elem())))
			}
		}
		return &StructV{f: []Cell{{v: Iface{}}, {}, {}}}
	}, "(reflect.Value).MapIndex")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := rv(m, a[0])
		mv, ok := x.v.(*MapV)
		if !ok {
			m.unsupported("reflect MapRange of another kind")
		}
		it := &reflIter{mapIter: mapIter{m: mv}, t: x.t}
		if mv != nil {
			m.raceMap(mv, false)
			it.ents = append(it.ents, mv.ents...)
		}
		return &Cell{v: it}
	}, "(reflect.Value).MapRange")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		it := m.deref(a[0]).v.(*reflIter)
		mt := ti(it.t).u.(*types.Map)
		r := m.mapNext(&it.mapIter, ti(mt.Key()), ti(mt.Elem())).(Tuple)
		it.k, it.v = mkRV(mt.Key(), r[1]), mkRV(mt.Elem(), r[2])
		return r[0]
	}, "(*reflect.MapIter).Next")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.deref(a[0]).v.(*reflIter).k }, "(*reflect.MapIter).Key")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.deref(a[0]).v.(*reflIter).v }, "(*reflect.MapIter).Value")

	// ---- sorting through reflection
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		x := a[0].(Iface)
		s, ok := x.v.(SliceV)
		if !ok {
			m.unsupported("sort.Slice")
		}
		et := ti(x.t).el()
		for i := 1; i < s.n; i++ {
			for j := i; j > 0; j-- {
				if !m.branchV(m.callValue(th, th.fr, a[1], []Value{uint64(j), uint64(j - 1)})) {
					break
				}
				p, q := &s.arr.e[s.off+j], &s.arr.e[s.off+j-1]
				pv, qv := copyVal(p.get(et)), copyVal(q.get(et))
				p.put(qv)
				q.put(pv)
			}
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")

	// ---- sync
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.lock(th, m.deref(a[0])); return nil }, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.unlock(th, m.deref(a[0]), "mutex")
		return nil
	}, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.unlock(th, m.deref(a[0]), "RWMutex")
		return nil
	}, "(*sync.RWMutex).Unlock")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.tryLock(th, m.deref(a[0])) }, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.rlock(th, m.deref(a[0])); return nil }, "(*sync.RWMutex).RLock")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.runlock(th, m.deref(a[0])); return nil }, "(*sync.RWMutex).RUnlock")
	wgAdd := func(m *Machine, th *Thread, c *Cell, d int64) {
		m.visible(th)
		s := m.mst(c)
		s.count += d
		if m.race {
			s.vc.join(th.vc)
			th.vc.inc(th.id)
		}
		if s.count < 0 {
			panic(targetPanic{v: Iface{types.Typ[types.String], "sync: negative WaitGroup counter"}, where: m.where()})
		}
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		wgAdd(m, th, m.deref(a[0]), m.concInt(a[1], tiInt))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { wgAdd(m, th, m.deref(a[0]), -1); return nil }, "(*sync.WaitGroup).Done")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.visible(th)
		s := m.mst(m.deref(a[0]))
		for s.count > 0 {
			m.block(th, "wait group", func() bool { return s.count == 0 })
		}
		if m.race {
			th.vc.join(s.vc)
		}
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		c := m.deref(a[0])
		wgAdd(m, th, c, 1)
		f := a[1]
		m.spawn(th, &Closure{nat: func(m *Machine, th *Thread, _ []Value) Value {
			m.callValue(th, th.fr, f, nil)
			wgAdd(m, th, c, -1)
			return nil
		}}, nil, th.fr)
		return nil
	}, "(*sync.WaitGroup).Go")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.visible(th)
		c := m.deref(a[0])
		s := m.mst(c)
		if s.count == 2 {
			m.acqRel(th, &s.vc)
			return nil
		}
		if s.count == 1 {
			m.block(th, "once", func() bool { return s.count == 2 })
			m.acqRel(th, &s.vc)
			return nil
		}
		s.count = 1
		defer func() {
			s.count = 2
			m.acqRel(th, &s.vc)
		}()
		m.callValue(th, th.fr, a[1], nil)
		return nil
	}, "(*sync.Once).Do")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		// Wait: release L, wait for a signal, take L again
		c := m.deref(a[0])
		s := m.mst(c)
		L := m.condL(fn, a[0])
		w := &selState{}
		s.waiters = append(s.waiters, w)
		m.callIface(th, L, "Unlock")
		m.block(th, "cond", func() bool { return w.fired })
		if m.race {
			th.vc.join(w.vc)
		}
		m.callIface(th, L, "Lock")
		return nil
	}, "(*sync.Cond).Wait")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.visible(th)
		s := m.mst(m.deref(a[0]))
		n := 1
		if fn.fn.Name() == "Broadcast" {
			n = len(s.waiters)
		}
		for ; n > 0 && len(s.waiters) > 0; n-- {
			w := s.waiters[0]
			s.waiters = s.waiters[1:]
			w.fired = true
			if m.race {
				w.vc = th.vc.copy()
			}
		}
		if m.race {
			th.vc.inc(th.id)
		}
		return nil
	}, "(*sync.Cond).Signal", "(*sync.Cond).Broadcast")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.visible(th)
		s := m.mst(m.deref(a[0]))
		m.acqRel(th, &s.vc)
		q, _ := s.val.([]Value)
		if len(q) > 0 {
			v := q[len(q)-1]
			s.val = q[:len(q)-1]
			return v
		}
		t := ti(fn.fn.Signature.Recv().Type()).el()
		sv := m.deref(a[0]).get(t).(*StructV)
		st := t.u.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := sv.f[i].v
				if cl, ok := f.(*Closure); ok && cl != nil {
					return m.callValue(th, th.fr, cl, nil)
				}
			}
		}
		return nilIface()
	}, "(*sync.Pool).Get")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.visible(th)
		s := m.mst(m.deref(a[0]))
		m.acqRel(th, &s.vc)
		if a[1].(Iface).t != nil {
			q, _ := s.val.([]Value)
			s.val = append(q[:len(q):len(q)], a[1])
		}
		return nil
	}, "(*sync.Pool).Put")

	smap := func(m *Machine, th *Thread, c Value) *MapV {
		m.visible(th)
		s := m.mst(m.deref(c))
		m.acqRel(th, &s.vc)
		mv, _ := s.val.(*MapV)
		if mv == nil {
			mv = m.newMap()
			s.val = mv
		}
		return mv
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		if e := m.mapFind(smap(m, th, a[0]), tiAny, a[1]); e != nil {
			return tup(e.v, true)
		}
		return tup(nilIface(), false)
	}, "(*sync.Map).Load")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.mapSet(smap(m, th, a[0]), tiAny, a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		mv := smap(m, th, a[0])
		if e := m.mapFind(mv, tiAny, a[1]); e != nil {
			return tup(e.v, true)
		}
		m.mapSet(mv, tiAny, a[1], a[2])
		return tup(a[2], false)
	}, "(*sync.Map).LoadOrStore")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		mv := smap(m, th, a[0])
		e := m.mapFind(mv, tiAny, a[1])
		m.mapSet(mv, tiAny, a[1], a[2])
		if e != nil {
			return tup(e.v, true)
		}
		return tup(nilIface(), false)
	}, "(*sync.Map).Swap")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		mv := smap(m, th, a[0])
		e := m.mapFind(mv, tiAny, a[1])
		var v Value = nilIface()
		if e != nil {
			v = e.v
			m.mapDel(mv, tiAny, a[1])
		}
		if fn.fn.Name() == "Delete" {
			return nil
		}
		return tup(v, e != nil)
	}, "(*sync.Map).Delete", "(*sync.Map).LoadAndDelete")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		mv := smap(m, th, a[0])
		for _, e := range append([]*mapEntry(nil), mv.ents...) {
			if !e.deleted {
				if !m.branchV(m.callValue(th, th.fr, a[1], []Value{e.k, e.v})) {
					break
				}
			}
		}
		return nil
	}, "(*sync.Map).Range")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.mst(m.deref(a[0])).val = nil
		return nil
	}, "(*sync.Map).Clear")

	// ---- sync/atomic
	for _, ty := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := ty.w
		// the field type is known from the pointer argument
		el := func(fn *cfn) *typeInfo { return ti(fn.fn.Params[0].Type()).el() }
		pre := func(m *Machine, th *Thread, fn *cfn, p Value) *Cell {
			m.visible(th)
			c := m.deref(p)
			m.acqRel(th, &m.mst(c).vc)
			return c
		}
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			return copyVal(pre(m, th, fn, a[0]).get(el(fn)))
		}, "sync/atomic.Load"+ty.n)
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			pre(m, th, fn, a[0]).put(a[1])
			return nil
		}, "sync/atomic.Store"+ty.n)
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			c := pre(m, th, fn, a[0])
			old := c.get(el(fn))
			c.put(a[1])
			return old
		}, "sync/atomic.Swap"+ty.n)
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			c := pre(m, th, fn, a[0])
			if m.branchV(m.equal(el(fn), c.get(el(fn)), a[1])) {
				c.put(a[2])
				return true
			}
			return false
		}, "sync/atomic.CompareAndSwap"+ty.n)
		if w > 0 {
			reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
				c := pre(m, th, fn, a[0])
				v := lowerInt(m.tt.Bin(OAdd, m.term(c.get(el(fn)), w), m.term(a[1], w)))
				c.put(v)
				return v
			}, "sync/atomic.Add"+ty.n)
		}
	}
	aval := func(m *Machine, th *Thread, fn *cfn, a []Value) *Cell {
		m.visible(th)
		f := recvField(m, fn, a[0], 0)
		m.acqRel(th, &m.mst(f).vc)
		return f
	}
	chk := func(m *Machine, op string, f *Cell, v Iface) {
		if v.t == nil {
			panic(targetPanic{v: Iface{types.Typ[types.String], "sync/atomic: " + op + " of nil value into Value"}, where: m.where()})
		}
		if o, ok := f.v.(Iface); ok && o.t != nil && !types.Identical(o.t, v.t) {
			panic(targetPanic{v: Iface{types.Typ[types.String], "sync/atomic: " + op + " of inconsistently typed value into Value"}, where: m.where()})
		}
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return aval(m, th, fn, a).get(tiAny)
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		f := aval(m, th, fn, a)
		chk(m, "store", f, a[1].(Iface))
		f.v = a[1]
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		f := aval(m, th, fn, a)
		chk(m, "swap", f, a[1].(Iface))
		old := f.get(tiAny)
		f.v = a[1]
		return old
	}, "(*sync/atomic.Value).Swap")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		f := aval(m, th, fn, a)
		chk(m, "compare and swap", f, a[2].(Iface))
		if m.branchV(m.equal(tiAny, f.get(tiAny), a[1])) {
			f.v = a[2]
			return true
		}
		return false
	}, "(*sync/atomic.Value).CompareAndSwap")

	// ---- time
	nowT := func(m *Machine) Value {
		return tup(uint64(m.clock/1e9), uint64(m.clock%1e9), uint64(m.clock-1_600_000_000_000_000_000))
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return nowT(m) }, "time.now", "time.runtimeNow")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return uint64(m.clock - 1_600_000_000_000_000_000)
	}, "time.runtimeNano")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return false }, "time.runtimeIsBubbled")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		d := m.concInt(a[0], tiInt)
		if d <= 0 {
			m.visible(th)
			return nil
		}
		fired := false
		m.addTimer(d, func() { fired = true })
		m.block(th, "sleep", func() bool { return fired })
		return nil
	}, "time.Sleep")
	mkTimer := func(m *Machine, th *Thread, d int64, f Value, period int64) (*Cell, *ChanV) {
		ch := m.newChan(1)
		tc := &Cell{}
		tc.v = &StructV{f: []Cell{{v: ch}, {v: true}}}
		s := m.mst(tc)
		var fire func()
		hb := th.vc.copy()
		fire = func() {
			if f != nil {
				tt := &Thread{m: m, id: 0, vc: hb.copy()}
				if m.race {
					m.spawn(tt, f, nil, nil)
				} else {
					m.spawn(th, f, nil, nil)
				}
			} else {
				m.trySendRaw(ch, m.timeValue(th))
			}
			if period > 0 {
				s.val = m.addTimer(period, fire)
			}
		}
		s.val = m.addTimer(d, fire)
		s.signals = 1
		m.objs[tc] = fire
		return tc, ch
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		_, ch := mkTimer(m, th, m.concInt(a[0], tiInt), nil, 0)
		return ch
	}, "time.After")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		tc, _ := mkTimer(m, th, m.concInt(a[0], tiInt), nil, 0)
		return tc
	}, "time.NewTimer")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		tc, _ := mkTimer(m, th, m.concInt(a[0], tiInt), a[1], 0)
		return tc
	}, "time.AfterFunc")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		d := m.concInt(a[0], tiInt)
		if d <= 0 {
			panic(targetPanic{v: Iface{types.Typ[types.String], "non-positive interval for NewTicker"}, where: m.where()})
		}
		tc, _ := mkTimer(m, th, d, nil, d)
		return tc
	}, "time.NewTicker")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		_, ch := mkTimer(m, th, m.concInt(a[0], tiInt), nil, m.concInt(a[0], tiInt))
		return ch
	}, "time.Tick")
	stop := func(m *Machine, c *Cell) bool {
		s := m.mst(c)
		t, _ := s.val.(*timerSt)
		r := t != nil && m.delTimer(t)
		if sv, ok := c.v.(*StructV); ok { // stale values are not received after Stop (Go 1.23)
			if ch, ok := sv.f[0].v.(*ChanV); ok && ch != nil {
				ch.buf = nil
			}
		}
		return r
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return stop(m, m.deref(a[0])) }, "(*time.Timer).Stop")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { stop(m, m.deref(a[0])); return nil }, "(*time.Ticker).Stop")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		c := m.deref(a[0])
		r := stop(m, c)
		if f, ok := m.objs[c].(func()); ok {
			m.mst(c).val = m.addTimer(m.concInt(a[1], tiInt), f)
		}
		return r
	}, "(*time.Timer).Reset")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		// formatting goes through the calendar of UTC
		return m.p.utcLoc(m)
	}, "(*time.Location).get")

	// ---- unique / weak (net/netip)
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		key := "unique"
		mv, _ := m.objs[key].(*MapV)
		if mv == nil {
			mv = m.newMap()
			m.objs[key] = mv
		}
		pt := ti(fn.fn.Params[0].Type())
		k := Iface{pt.t, a[0]}
		if e := m.mapFind(mv, tiAny, k); e != nil {
			return copyVal(e.v)
		}
		h := &StructV{f: []Cell{{v: &Cell{v: copyVal(a[0])}}}}
		m.mapSet(mv, tiAny, k, h)
		return copyVal(h)
	}, "unique.Make")

	// ---- crypto/sha1
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.sha1(sliceBytes(a[0].(SliceV))) }, "crypto/sha1.Sum")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		var buf []Value
		nf := &natIface{name: "sha1"}
		nf.call = func(m *Machine, th *Thread, meth string, args []Value) Value {
			switch meth {
			case "Write":
				b := sliceBytes(args[0].(SliceV))
				buf = append(buf, b...)
				return tup(uint64(len(b)), nilIface())
			case "WriteString":
				b := strBytes(args[0])
				buf = append(buf, b...)
				return tup(uint64(len(b)), nilIface())
			case "Sum":
				d := m.sha1(append([]Value(nil), buf...)).(*ArrV)
				return m.appendCells(tiByte, args[0].(SliceV), 20, func(i int) Value { return byteCell(&d.e[i]) })
			case "Reset":
				buf = nil
				return nil
			case "Size":
				return uint64(20)
			case "BlockSize":
				return uint64(64)
			}
			m.unsupported("hash method " + meth)
			return nil
		}
		return Iface{types.Typ[types.UnsafePointer], nf}
	}, "crypto/sha1.New")

	regViper(reg)
	regSym(reg)
	regVnet(reg)
}

var tiAny = ti(types.NewInterfaceType(nil, nil))
var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (m *Machine) condL(fn *cfn, c Value) Iface {
	t := ti(fn.fn.Signature.Recv().Type()).el()
	sv := m.deref(c).get(t).(*StructV)
	st := t.u.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return sv.f[i].get(ti(st.Field(i).Type())).(Iface)
		}
	}
	m.unsupported("sync.Cond layout")
	return Iface{}
}

// callIface calls a method of an interface value by name.
func (m *Machine) callIface(th *Thread, x Iface, name string, args ...Value) Value {
	if x.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if nf, ok := x.v.(*natIface); ok {
		return nf.call(m, th, name, args)
	}
	lookupMu.Lock()
	ms := m.p.prog.MethodSets.MethodSet(x.t)
	var fn *cfn
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn = m.p.cfn(m.p.prog.MethodValue(ms.At(i)))
			break
		}
	}
	lookupMu.Unlock()
	if fn == nil {
		m.unsupported("no method " + name + " on " + x.t.String())
	}
	return m.callFn(th, th.fr, fn, append([]Value{copyVal(x.v)}, args...), nil)
}

func (p *Program) utcLoc(m *Machine) Value {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "time" {
			g := pk.Var("utcLoc")
			return m.globalCell(p.globalID(g))
		}
	}
	return (*Cell)(nil)
}

// timeValue builds a time.Time for the virtual clock.
func (m *Machine) timeValue(th *Thread) Value {
	return m.callFn(th, th.fr, m.p.lookupFn("time", "Now"), nil, nil)
}

// ---- decimal text of a symbolic integer

func (m *Machine) itoa(v Value, w int, signed bool) Value {
	if x, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(sext(x, w), 10)
		}
		return strconv.FormatUint(x, 10)
	}
	t := v.(*Term)
	if c, ok := m.known1(t); ok {
		return m.itoa(c, w, signed)
	}
	c := func(x uint64) *Term { return m.tt.Const(x, 64) }
	key := fmt.Sprintf("itoa%d", t.id)
	if s, ok := m.objs[key]; ok {
		return s
	}
	neg := false
	x := t
	if signed && m.branch(m.tt.Cmp(OSlt, t, c(0))) {
		neg = true
		x = m.tt.Neg(t)
	}
	n := 1
	p := uint64(10)
	for ; n < 20; n++ {
		if m.branch(m.tt.Cmp(OUlt, x, c(p))) {
			break
		}
		if n == 19 {
			n = 20
			break
		}
		p *= 10
	}
	// digits as fresh variables tied to x by x == sum d_i 10^i
	xv := m.ev.eval(x)
	ds := strconv.FormatUint(xv, 10)
	if len(ds) != n {
		m.unsupported("itoa: model out of step")
	}
	var out []Value
	if neg {
		out = append(out, uint64('-'))
	}
	if n == 1 {
		out = append(out, lowerInt(m.tt.Bin(OAdd, m.tt.Extract(x, 7, 0), m.tt.Const('0', 8))))
		r := mkStr(out)
		m.objs[key] = r
		return r
	}
	// Horner form, as strconv reads it back
	sum := c(0)
	dig := make([]*Term, n)
	for i := 0; i < n; i++ {
		d := m.defVar(fmt.Sprintf("!d%d", i), 8, uint64(ds[i]-'0'))
		dig[i] = d
		m.addPC(m.tt.Cmp(OUle, d, m.tt.Const(9, 8)))
		if i == 0 {
			m.addPC(m.tt.Cmp(OUlt, m.tt.Const(0, 8), d))
			if n == 20 {
				m.addPC(m.tt.Eq(d, m.tt.Const(1, 8)))
			}
			sum = m.tt.Zext(d, 64)
			continue
		}
		sum = m.tt.Bin(OAdd, m.tt.Bin(OMul, sum, c(10)), m.tt.Zext(d, 64))
	}
	fix := func(ev *evaluator, mod Model) {
		ds := strconv.FormatUint(ev.eval(x), 10)
		if len(ds) != n {
			return
		}
		for i := range dig {
			mod[dig[i].name] = uint64(ds[i] - '0')
		}
	}
	m.addLazy(m.tt.Eq(x, sum), fix)
	if neg {
		m.learn(m.tt.Eq(t, m.tt.Neg(sum)), true)
	}
	for _, d := range dig {
		out = append(out, lowerInt(m.tt.Bin(OAdd, d, m.tt.Const('0', 8))))
	}
	r := mkStr(out)
	m.objs[key] = r
	return r
}

// ---- formatting

// goVal converts a concrete value to a Go value for fmt and encoding/json.
func (m *Machine) goVal(x Iface, depth int) (any, bool) {
	if x.t == nil {
		return nil, true
	}
	if depth > 8 {
		return nil, false
	}
	t := ti(x.t)
	switch t.kind {
	case kBool:
		b, ok := x.v.(bool)
		return b, ok
	case kInt:
		u, ok := x.v.(uint64)
		if !ok {
			if tm, o := x.v.(*Term); o {
				u, ok = m.known1(tm)
			}
		}
		if !ok {
			return nil, false
		}
		if t.signed {
			s := sext(u, t.w)
			switch t.w {
			case 8:
				return int8(s), true
			case 16:
				return int16(s), true
			case 32:
				return int32(s), true
			}
			return int(s), true
		}
		switch t.w {
		case 8:
			return uint8(u), true
		case 16:
			return uint16(u), true
		case 32:
			return uint32(u), true
		}
		return uint64(u), true
	case kFloat:
		f, ok := x.v.(float64)
		return f, ok
	case kString:
		s, ok := concStr(x.v)
		return s, ok
	case kSlice:
		s := x.v.(SliceV)
		et := t.el()
		if et.kind == kInt && et.w == 8 {
			b, ok := concBytes(sliceBytes(s))
			return b, ok
		}
		if s.arr == nil {
			return []any(nil), true
		}
		r := make([]any, s.n)
		for i := range r {
			v := s.arr.e[s.off+i].get(et)
			e := Iface{et.t, v}
			if et.kind == kIface {
				e = v.(Iface)
			}
			g, ok := m.goVal(e, depth+1)
			if !ok {
				return nil, false
			}
			r[i] = g
		}
		return r, true
	case kMap:
		mv := x.v.(*MapV)
		mt := t.u.(*types.Map)
		if ti(mt.Key()).kind != kString {
			return nil, false
		}
		r := map[string]any{}
		if mv != nil {
			for _, e := range mv.ents {
				if e.deleted {
					continue
				}
				k, ok := concStr(e.k)
				if !ok {
					return nil, false
				}
				v := Iface{mt.Elem(), e.v}
				if ti(mt.Elem()).kind == kIface {
					v, _ = e.v.(Iface)
				}
				g, ok := m.goVal(v, depth+1)
				if !ok {
					return nil, false
				}
				r[k] = g
			}
		}
		return r, true
	}
	return nil, false
}

// logging tells whether the running code formats a log message nobody looks
// at, which is not worth any case distinction.
func (m *Machine) logging() bool {
	if m.capture {
		return false
	}
	for fr := m.cur.fr; fr != nil; fr = fr.caller {
		if strings.HasPrefix(fr.c.name, "(*"+repoModule+"/misc.") && strings.Contains(fr.c.name, "Logger).") {
			return true
		}
	}
	return false
}

// jsonSym renders a value with symbolic parts. What it cannot render (strings
// that need escapes, other types) becomes "?".
func (m *Machine) jsonSym(x Iface, depth int) Value {
	if s, ok := m.jsonText(x); ok {
		return s
	}
	if x.t == nil || depth > 6 || m.logging() {
		return "\"?\""
	}
	t := ti(x.t)
	cat := func(vs ...Value) Value {
		var out Value = ""
		for _, v := range vs {
			out = strConcat(out, v)
		}
		return out
	}
	elem := func(et *typeInfo, v Value) Value {
		if et.kind == kIface {
			e, _ := v.(Iface)
			return m.jsonSym(e, depth+1)
		}
		return m.jsonSym(Iface{et.t, v}, depth+1)
	}
	switch t.kind {
	case kInt:
		return m.itoa(m.convert(tiInt, t, x.v, nil), 64, t.signed)
	case kBool:
		if m.branch(m.bterm(x.v)) {
			return "true"
		}
		return "false"
	case kString:
		c := m.tt.True
		for _, b := range strBytes(x.v) {
			bt := m.term(b, 8)
			c = m.tt.And(c, m.tt.And(m.tt.Cmp(OUle, m.tt.Const(0x20, 8), bt), m.tt.Cmp(OUle, bt, m.tt.Const(0x7e, 8))))
			for _, q := range []byte("\"\\<>&") {
				c = m.tt.And(c, m.tt.Not(m.tt.Eq(bt, m.tt.Const(uint64(q), 8))))
			}
		}
		if m.branch(c) {
			return cat("\"", x.v, "\"")
		}
	case kSlice:
		s := x.v.(SliceV)
		et := t.el()
		if et.kind == kInt && et.w == 8 {
			break
		}
		var out Value = "["
		for i := 0; i < s.n; i++ {
			if i > 0 {
				out = cat(out, ",")
			}
			out = cat(out, elem(et, s.arr.e[s.off+i].get(et)))
		}
		return cat(out, "]")
	case kMap:
		mv := x.v.(*MapV)
		mt := t.u.(*types.Map)
		rows := map[string]Value{}
		for _, e := range mv.ents {
			if e.deleted {
				continue
			}
			k, ok := concStr(e.k)
			if !ok {
				return "\"?\""
			}
			rows[k] = elem(ti(mt.Elem()), e.v)
		}
		var out Value = "{"
		for i, k := range sortedKeys(rows) {
			if i > 0 {
				out = cat(out, ",")
			}
			kb, _ := json.Marshal(k)
			out = cat(out, string(kb), ":", rows[k])
		}
		return cat(out, "}")
	}
	return "\"?\""
}

func (m *Machine) jsonText(x Iface) (s string, ok bool) {
	g, ok := m.goVal(x, 0)
	if !ok {
		return "", false
	}
	defer func() {
		if recover() != nil {
			s, ok = "", false
		}
	}()
	b, err := json.Marshal(g)
	if err != nil {
		return "", false
	}
	return string(b), true
}

// textOf gives the %v text of a value.
func (m *Machine) textOf(x Iface, verb byte, spec string) Value {
	if x.t == nil {
		return fmt.Sprintf(spec, nil)
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if _, isNat := x.v.(*natIface); !isNat {
			if implements(x.t, errorIface) {
				if !m.isNilV(x.v) {
					return m.padText(m.callIface(m.cur, x, "Error"), spec)
				}
			} else if st := m.p.lookupType("fmt", "Stringer"); st != nil {
				if it := st.Underlying().(*types.Interface); implements(x.t, it) && !m.isNilV(x.v) {
					return m.padText(m.callIface(m.cur, x, "String"), spec)
				}
			}
		}
	}
	t := ti(x.t)
	if g, ok := m.goVal(x, 0); ok && verb != 'T' {
		if t.kind == kMap || t.kind == kSlice && !(t.el().kind == kInt && t.el().w == 8) {
			return fmt.Sprintf(strings.Replace(spec, "+", "", 1), g)
		}
		return fmt.Sprintf(strings.Replace(spec, "w", "v", 1), g)
	}
	switch {
	case verb == 'T':
		return types.TypeString(x.t, func(p *types.Package) string { return p.Name() })
	case t.kind == kString && (verb == 's' || verb == 'v'):
		return m.padText(snapStr(x.v), spec)
	case t.kind == kSlice && verb == 's' && t.el().w == 8:
		return mkStr(sliceBytes(x.v.(SliceV)))
	case t.kind == kInt && (verb == 'd' || verb == 'v') && len(spec) == 2:
		v := m.convert(tiInt, t, x.v, nil)
		return m.itoa(v, 64, t.signed)
	case (t.kind == kString || t.kind == kSlice && t.el().w == 8) && (verb == 'x' || verb == 'X') && len(spec) == 2:
		var b []Value
		if t.kind == kString {
			b = strBytes(x.v)
		} else {
			b = sliceBytes(x.v.(SliceV))
		}
		var out []Value
		for _, e := range b {
			out = append(out, m.hexDigit(e, 4, verb == 'X'), m.hexDigit(e, 0, verb == 'X'))
		}
		return mkStr(out)
	case t.kind == kInt && t.w == 8 && (verb == 'x' || verb == 'X') && spec == "%02"+string(verb):
		return mkStr([]Value{m.hexDigit(x.v, 4, verb == 'X'), m.hexDigit(x.v, 0, verb == 'X')})
	case verb == 'p':
		return "0xc000000000"
	}
	return "?"
}

func (m *Machine) hexDigit(b Value, sh int, up bool) Value {
	t := m.tt.Zext(m.tt.Extract(m.byteT(b), sh+3, sh), 8)
	a := uint64('a')
	if up {
		a = 'A'
	}
	return lowerInt(m.tt.Ite(m.tt.Cmp(OUlt, t, m.tt.Const(10, 8)), m.tt.Bin(OAdd, t, m.tt.Const('0', 8)), m.tt.Bin(OAdd, t, m.tt.Const(a-10, 8))))
}

func (m *Machine) padText(s Value, spec string) Value {
	if len(spec) == 2 {
		return snapStr(s)
	}
	if c, ok := concStr(s); ok {
		return fmt.Sprintf(strings.Replace(strings.Replace(spec, "w", "s", 1), "v", "s", 1), c)
	}
	return snapStr(s)
}

func (m *Machine) isNilV(v Value) bool {
	switch x := v.(type) {
	case *Cell:
		return x == nil
	case *MapV:
		return x == nil
	case *ChanV:
		return x == nil
	case *Closure:
		return x == nil
	case SliceV:
		return x.arr == nil
	case Iface:
		return x.t == nil
	case UnsafePtr:
		return x.p == nil
	}
	return false
}

func (m *Machine) sprintf(f Value, args SliceV) Value {
	fs, ok := concStr(f)
	if !ok {
		fs = m.formatShape(f)
	}
	var out Value = ""
	ai := 0
	arg := func() (Iface, bool) {
		if ai >= args.n {
			return Iface{}, false
		}
		x := args.arr.e[args.off+ai].get(tiAny).(Iface)
		ai++
		return x, true
	}
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			out = strConcat(out, strSlice(f, i, i+j))
			i += j
			continue
		}
		j := i + 1
		spec := "%"
		for j < len(fs) && strings.IndexByte("0123456789+-# .*", fs[j]) >= 0 {
			if fs[j] == '*' {
				x, _ := arg()
				n, _ := x.v.(uint64)
				spec += strconv.Itoa(int(int64(n)))
			} else {
				spec += string(fs[j])
			}
			j++
		}
		if j >= len(fs) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		verb := fs[j]
		spec += string(verb)
		i = j + 1
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		x, ok := arg()
		if !ok {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = strConcat(out, m.textOf(x, verb, spec))
	}
	if ai < args.n {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out
}

// formatShape forks on where a symbolic format has its verbs. Its other
// symbolic bytes are NUL in the result.
func (m *Machine) formatShape(f Value) string {
	var sb strings.Builder
	inSpec := false
	for _, b := range strBytes(f) {
		var c byte
		switch x := b.(type) {
		case uint64:
			c = byte(x)
		case *Term:
			if inSpec {
				c = byte(m.concretize(x, 256))
			} else if m.branch(m.tt.Eq(x, m.tt.Const('%', x.w))) {
				c = '%'
			}
		}
		sb.WriteByte(c)
		switch {
		case !inSpec:
			inSpec = c == '%'
		case strings.IndexByte("0123456789+-# .*", c) < 0:
			inSpec = false
		}
	}
	return sb.String()
}

func (m *Machine) sprintArgs(args SliceV, ln bool) Value {
	var out Value = ""
	prevStr := true
	for i := 0; i < args.n; i++ {
		x := args.arr.e[args.off+i].get(tiAny).(Iface)
		isStr := x.t != nil && ti(x.t).kind == kString
		if i > 0 && (ln || !isStr && !prevStr) {
			out = strConcat(out, " ")
		}
		out = strConcat(out, m.textOf(x, 'v', "%v"))
		prevStr = isStr
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}

// ---- reflection

type reflIter struct {
	mapIter
	t    types.Type
	k, v Value
}

func kindOf(t types.Type) Value {
	if t == nil {
		return uint64(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7,
			types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14,
			types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return k[u.Kind()]
	case *types.Array:
		return uint64(17)
	case *types.Chan:
		return uint64(18)
	case *types.Signature:
		return uint64(19)
	case *types.Interface:
		return uint64(20)
	case *types.Map:
		return uint64(21)
	case *types.Pointer:
		return uint64(22)
	case *types.Slice:
		return uint64(23)
	case *types.Struct:
		return uint64(25)
	}
	return uint64(0)
}

func (m *Machine) reflType(t types.Type) Value {
	if v, ok := m.objs["rt:"+typeKey(t)]; ok {
		return v
	}
	nf := &natIface{name: "reflect.Type", data: t}
	nf.call = func(m *Machine, th *Thread, meth string, args []Value) Value {
		switch meth {
		case "Kind":
			return kindOf(t)
		case "String":
			return types.TypeString(t, func(p *types.Package) string { return p.Name() })
		case "Name":
			if n, ok := t.(*types.Named); ok {
				return n.Obj().Name()
			}
			if b, ok := t.(*types.Basic); ok {
				return b.Name()
			}
			return ""
		case "Elem":
			return m.reflType(ti(t).elem)
		case "Comparable":
			return types.Comparable(t)
		}
		m.unsupported("reflect.Type." + meth)
		return nil
	}
	v := Iface{types.Typ[types.UnsafePointer], nf}
	m.objs["rt:"+typeKey(t)] = v
	return v
}

func (m *Machine) deepEqual(a, b Iface, depth int) Value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !types.Identical(a.t, b.t) {
		return false
	}
	return m.deepEq(ti(a.t), a.v, b.v, depth)
}

func (m *Machine) deepEq(t *typeInfo, a, b Value, depth int) Value {
	if depth > 40 {
		m.unsupported("DeepEqual too deep")
	}
	if a == nil {
		a = zero(t)
	}
	if b == nil {
		b = zero(t)
	}
	and := func(r *Term, v Value) *Term { return m.tt.And(r, m.bterm(v)) }
	switch t.kind {
	case kIface:
		return m.deepEqual(a.(Iface), b.(Iface), depth+1)
	case kSlice:
		x, y := a.(SliceV), b.(SliceV)
		if (x.arr == nil) != (y.arr == nil) || x.n != y.n {
			return false
		}
		r := m.tt.True
		for i := 0; i < x.n; i++ {
			r = and(r, m.deepEq(t.el(), x.arr.e[x.off+i].v, y.arr.e[y.off+i].v, depth+1))
			if isC(r) && r.k == 0 {
				return false
			}
		}
		return lowerBool(r)
	case kArray:
		x, y := a.(*ArrV), b.(*ArrV)
		r := m.tt.True
		for i := range x.e {
			r = and(r, m.deepEq(t.el(), x.e[i].v, y.e[i].v, depth+1))
		}
		return lowerBool(r)
	case kStruct:
		x, y := a.(*StructV), b.(*StructV)
		r := m.tt.True
		for i, f := range t.fields {
			r = and(r, m.deepEq(ti(f), x.f[i].v, y.f[i].v, depth+1))
		}
		return lowerBool(r)
	case kMap:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		mt := t.u.(*types.Map)
		r := m.tt.True
		for _, e := range x.ents {
			if e.deleted {
				continue
			}
			o := m.mapFind(y, ti(mt.Key()), e.k)
			if o == nil {
				return false
			}
			r = and(r, m.deepEq(ti(mt.Elem()), e.v, o.v, depth+1))
			if isC(r) && r.k == 0 {
				return false
			}
		}
		return lowerBool(r)
	case kPtr:
		if ptrEq(a, b) {
			return true
		}
		x, ok1 := a.(*Cell)
		y, ok2 := b.(*Cell)
		if !ok1 || !ok2 || x == nil || y == nil {
			return false
		}
		return m.deepEq(t.el(), x.v, y.v, depth+1)
	case kFunc:
		return a.(*Closure) == nil && b.(*Closure) == nil
	}
	return m.equal(t, a, b)
}

// ---- sha1: exact on concrete input, otherwise an uninterpreted
// collision-free function (fresh output bytes, tied to earlier applications).

func (m *Machine) sha1(in []Value) Value {
	out := &ArrV{e: make([]Cell, 20)}
	if b, ok := concBytes(in); ok {
		d := sha1.Sum(b)
		var ts []*Term
		for i := range d {
			out.e[i].v = uint64(d[i])
			ts = append(ts, m.tt.Const(uint64(d[i]), 8))
		}
		m.shaLink(in, ts)
		return out
	}
	conc := make([]byte, len(in))
	for i, v := range in {
		conc[i] = byte(m.ev.eval(m.byteT(v)))
	}
	d := sha1.Sum(conc)
	var ts []*Term
	for i := range d {
		v := m.defVar(fmt.Sprintf("!sha%d", i), 8, uint64(d[i]))
		out.e[i].v = v
		ts = append(ts, v)
	}
	m.shaLink(in, ts)
	return out
}

func (m *Machine) shaLink(in []Value, out []*Term) {
	for _, ap := range m.shaApps {
		oeq := m.tt.True
		for i := range out {
			oeq = m.tt.And(oeq, m.tt.Eq(out[i], ap.out[i]))
		}
		ieq := m.tt.False
		if len(ap.in) == len(in) {
			ieq = m.bterm(m.bytesEq(ap.in, in))
		}
		// ieq <=> oeq
		c := m.tt.Or(m.tt.And(ieq, oeq), m.tt.And(m.tt.Not(ieq), m.tt.Not(oeq)))
		if !isC(c) {
			if m.ev.eval(c) != 1 {
				// the inherited model gives other digests: find one that fits
				res, mod := m.check(c)
				if res != "sat" {
					panic(pathEnd{"limit", "sha1 model"})
				}
				m.setModel(mod)
			}
			m.addPC(c)
		}
	}
	m.shaApps = append(m.shaApps, shaApp{in, out})
}
