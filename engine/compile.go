package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	oNone opKind = iota
	oReg
	oConst
	oGlobal
	oFreeVar
)

type opnd struct {
	k opKind
	i int
	v Value
	t *typeInfo
}

type cins struct {
	ins  ssa.Instruction
	x    []opnd
	dst  int // -1 if none
	t    *typeInfo
	call *ccall
	flds []int
}

type ccall struct {
	static *cfn // statically known callee
	invoke *types.Func
	bi     string
}

type cphi struct {
	dst int
	x   []opnd
}

type cblock struct {
	phis []cphi
	ins  []cins
	b    *ssa.BasicBlock
}

type intrinsic func(m *Machine, th *Thread, fn *cfn, args []Value) Value

type cfn struct {
	fn       *ssa.Function
	name     string
	pkg      string
	nregs    int
	blocks   []cblock
	hasDefer bool
	intr     intrinsic
	redirect *cfn
	once     sync.Once
	opaque   bool
	third    bool // from a third-party module: opaque unless the harness asks for it
	repo     bool
	vnet     bool // part of the network and file model
	xfer     bool // ... moving bytes from or to a buffer of the code under test
	results  *typeInfo
	// coverage of this run
	mu sync.Mutex
}

type Program struct {
	prog      *ssa.Program
	fns       sync.Map // *ssa.Function -> *cfn
	gmu       sync.Mutex
	gidx      map[*ssa.Global]int
	globals   []*ssa.Global
	module    string
	rtErr     types.Type
	bindInv   sync.Map
	redirects map[string]*ssa.Function
	entered   sync.Map // repo functions entered: name -> true
	opaqueHit sync.Map
	intrHit   sync.Map
}

func (p *Program) globalID(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.globals)
	p.gidx[g] = i
	p.globals = append(p.globals, g)
	return i
}

func (p *Program) cfn(fn *ssa.Function) *cfn {
	if c, ok := p.fns.Load(fn); ok {
		return c.(*cfn)
	}
	c := &cfn{fn: fn, name: fnName(fn)}
	if pk := fnPkg(fn); pk != nil {
		c.pkg = pk.Path()
	}
	c.repo = strings.HasPrefix(c.pkg, p.module)
	c.vnet = strings.HasPrefix(c.pkg, p.module+"/zzverif/vnet")
	c.xfer = c.vnet && (strings.HasSuffix(c.name, ".xfer") || strings.HasSuffix(c.name, ".dup"))
	c.results = ti(fn.Signature.Results())
	act, _ := p.fns.LoadOrStore(fn, c)
	return act.(*cfn)
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// prepare resolves intrinsics and compiles the body once.
func (p *Program) prepare(c *cfn) {
	c.once.Do(func() {
		if c.fn.Synthetic == "" || c.fn.Origin() != nil || strings.HasPrefix(c.fn.Synthetic, "instance of") {
			if in, ok := intrinsics[c.name]; ok {
				c.intr = in
				return
			}
			if r, ok := p.redirects[c.name]; ok {
				c.redirect = p.cfn(r)
				return
			}
		}
		if isOpaque(c.pkg, p.module) {
			c.opaque = true
			if c.third = isThird(c.pkg); !c.third || c.fn.Blocks == nil {
				return
			}
		}
		if strings.HasPrefix(c.name, "(reflect.Value).") || strings.HasPrefix(c.name, "(*reflect.MapIter).") {
			// its fields are not those of the real one
			name := c.name
			c.intr = func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
				m.unsupported(name)
				return nil
			}
			return
		}
		if c.fn.Blocks == nil {
			return
		}
		p.compile(c)
	})
}

func (p *Program) compile(c *cfn) {
	fn := c.fn
	regs := map[ssa.Value]int{}
	n := 0
	for _, x := range fn.Params {
		regs[x] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	fvs := map[*ssa.FreeVar]int{}
	for i, f := range fn.FreeVars {
		fvs[f] = i
	}
	c.nregs = n
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			t := ti(v.Type())
			return opnd{k: oConst, v: constVal(v, t), t: t}
		case *ssa.Global:
			return opnd{k: oGlobal, i: p.globalID(v), t: ti(v.Type())}
		case *ssa.Function:
			return opnd{k: oConst, v: &Closure{fn: v}, t: ti(v.Type())}
		case *ssa.Builtin:
			return opnd{k: oConst, v: &Closure{bi: v.Name()}, t: nil}
		case *ssa.FreeVar:
			return opnd{k: oFreeVar, i: fvs[v], t: ti(v.Type())}
		}
		i, ok := regs[v]
		if !ok {
			panic("no register for " + v.Name() + " in " + fn.String())
		}
		return opnd{k: oReg, i: i, t: ti(v.Type())}
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.b = b
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: regs[ph]}
				for _, e := range ph.Edges {
					cp.x = append(cp.x, op(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t = ti(v.Type())
			}
			for _, o := range in.Operands(nil) {
				ci.x = append(ci.x, op(*o))
			}
			var cc *ssa.CallCommon
			switch in := in.(type) {
			case *ssa.Call:
				cc = &in.Call
			case *ssa.Go:
				cc = &in.Call
			case *ssa.Defer:
				cc = &in.Call
				// Operands of Defer: call operands, then DeferStack
			}
			if cc != nil {
				k := &ccall{}
				if cc.IsInvoke() {
					k.invoke = cc.Method
				} else if f, ok := cc.Value.(*ssa.Function); ok {
					k.static = p.cfn(f)
				} else if b, ok := cc.Value.(*ssa.Builtin); ok {
					k.bi = b.Name()
				}
				ci.call = k
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

func constVal(c *ssa.Const, t *typeInfo) Value {
	if c.Value == nil {
		if _, ok := t.u.(*types.TypeParam); ok {
			return nil
		}
		return zero(t)
	}
	switch t.kind {
	case kBool:
		return constant.BoolVal(c.Value)
	case kInt:
		v := constant.ToInt(c.Value)
		if x, ok := constant.Int64Val(v); ok {
			return uint64(x) & mask(t.w)
		}
		x, _ := constant.Uint64Val(v)
		return x & mask(t.w)
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if t.w == 32 {
			f = float64(float32(f))
		}
		return f
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		x, _ := constant.Int64Val(c.Value)
		return string(rune(x))
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case kIface:
		// constant converted to an interface type parameter: not produced
	}
	_ = math.Pi
	return zero(t)
}

var opaquePrefixes = []string{
	"net/http", "net/http/pprof", "log", "os/signal", "encoding/json", "runtime/debug", "testing", "os/exec",
	"runtime/pprof", "runtime/trace", "crypto/tls",
}

func isOpaque(pkg, module string) bool {
	if pkg == "" {
		return false
	}
	if strings.HasPrefix(pkg, module) {
		return false
	}
	for _, o := range opaquePrefixes {
		if pkg == o || strings.HasPrefix(pkg, o+"/") {
			return true
		}
	}
	return isThird(pkg)
}

// third party: the first path element has a dot
func isThird(pkg string) bool {
	first := pkg
	if i := strings.IndexByte(pkg, '/'); i >= 0 {
		first = pkg[:i]
	}
	return strings.Contains(first, ".")
}
