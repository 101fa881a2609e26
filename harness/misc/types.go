package misc

import (
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// accVal is any kind of value a container can hold.
// kind 0 int, 1 string, 2 List, 3 Dict, 4 nil, 5 bool, 6 []byte
func accVal(name string) (interface{}, int) {
	k := sym.Pick(name+".kind", sym.Bound(6, 7))
	switch k {
	case 0:
		return sym.Int(name + ".int"), 0
	case 1:
		return sym.Str(name+".str", sym.Pick(name+".len", 3)), 1
	case 2:
		return List{sym.Int(name + ".elem")}, 2
	case 3:
		return Dict{"x": sym.Int(name + ".elem")}, 3
	case 4:
		return nil, 4
	case 5:
		return sym.Bool(name + ".bool"), 5
	}
	return sym.Bytes(name+".b", 1), 6
}

func sameAcc(a, b interface{}) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case List:
		y, ok := b.(List)
		return ok && len(x) == len(y) && (len(x) == 0 || sameAcc(x[0], y[0]))
	case Dict:
		y, ok := b.(Dict)
		return ok && len(x) == len(y) && (len(x) == 0 || sameAcc(x["x"], y["x"]))
	}
	return false
}

// accCheck judges one access: want when the value is there with the type,
// the library's own error otherwise.
func accCheck(what string, there bool, want interface{}, get func() interface{}) {
	var got interface{}
	p := sym.Caught(func() { got = get() })
	if there {
		sym.Assert(p == nil, what+": a stored value of the asked type is returned")
		sym.Assert(sameAcc(want, got), what+": the stored value is returned")
		sym.Reach(what + " ok")
		return
	}
	sym.Assert(p != nil, what+": no value is made up")
	e, ok := p.(*Error)
	sym.Assert(ok, what+": the library's own error is raised")
	sym.Assert(e != nil, what+": the library's own error is raised")
	sym.Reach(what + " refused")
}

func accDict() (Dict, string, interface{}, int) {
	k1 := sym.Str("k1", sym.Pick("k1.len", sym.Bound(3, 4)))
	d := Dict{}
	v1, n1 := accVal("v1")
	d[k1] = v1
	if sym.Pick("two", 2) == 1 {
		k2 := sym.Str("k2", sym.Pick("k2.len", 2))
		sym.Assume(k1 != k2)
		v2 := sym.Int("v2")
		d[k2] = v2
	}
	k := sym.Str("k", sym.Pick("k.len", sym.Bound(3, 4)))
	v, ok := d[k]
	if !ok {
		return d, k, nil, -1
	}
	if k == k1 {
		return d, k, v, n1
	}
	return d, k, v, 0
}

// VH_T01_dict reads a dictionary of one or two entries by any key.
//
//verif:opts weight=3
func VH_T01_dict() {
	d, k, v, kind := accDict()
	sym.Assert(d.Exist(k) == (kind >= 0), "Exist tells whether the key is there")
	accCheck("GetInteger", kind == 0, v, func() interface{} { return d.GetInteger(k) })
	accCheck("GetString", kind == 1, v, func() interface{} { return d.GetString(k) })
	accCheck("GetList", kind == 2, v, func() interface{} { return d.GetList(k) })
	accCheck("GetDict", kind == 3, v, func() interface{} { return d.GetDict(k) })
	if kind < 4 {
		accCheck("GetVal", kind >= 0, v, func() interface{} { return d.GetVal(k) })
	}
	sym.Assert(len(d) <= 2, "reading stores nothing")
}

// VH_T01_default reads with a default.
//
//verif:opts weight=3
func VH_T01_default() {
	d, k, v, kind := accDict()
	di := sym.Int("di")
	ds := sym.Str("ds", sym.Pick("ds.len", 3))
	gi := d.GetIntegerOrDefault(k, di)
	gs := d.GetStringOrDefault(k, ds)
	if kind == 0 {
		sym.Assert(gi == v.(int), "GetIntegerOrDefault returns the stored integer")
	} else {
		sym.Assert(gi == di, "GetIntegerOrDefault returns the default")
	}
	if kind == 1 {
		sym.Assert(gs == v.(string), "GetStringOrDefault returns the stored string")
	} else {
		sym.Assert(gs == ds, "GetStringOrDefault returns the default")
	}
	var nilDict Dict
	sym.Assert(nilDict.GetIntegerOrDefault(k, di) == di, "an absent dictionary gives the default")
	if kind < 4 {
		gv := d.GetValOrDefault(k, ds)
		if kind >= 0 {
			sym.Assert(sameAcc(v, gv), "GetValOrDefault returns the stored value")
		} else {
			sym.Assert(sameAcc(gv, ds), "GetValOrDefault returns the default")
		}
	}
}

// VH_T01_list reads a list of up to three elements by any index.
//
//verif:opts weight=2
func VH_T01_list() {
	n := sym.Pick("n", sym.Bound(3, 4))
	l := List{}
	kinds := []int{}
	for i := 0; i < n; i++ {
		v, k := accVal("v")
		l = append(l, v)
		kinds = append(kinds, k)
	}
	i := sym.Int("i")
	kind := -1
	var v interface{}
	for j := 0; j < n; j++ {
		if i == j {
			kind, v = kinds[j], l[j]
		}
	}
	sym.Assert(l.Exist(i) == (kind >= 0), "Exist tells whether the index is there")
	accCheck("List.GetInteger", kind == 0, v, func() interface{} { return l.GetInteger(i) })
	accCheck("List.GetString", kind == 1, v, func() interface{} { return l.GetString(i) })
	accCheck("List.GetList", kind == 2, v, func() interface{} { return l.GetList(i) })
	accCheck("List.GetDict", kind == 3, v, func() interface{} { return l.GetDict(i) })
	if kind < 4 {
		accCheck("List.GetVal", kind >= 0, v, func() interface{} { return l.GetVal(i) })
	}
}

// errText is a message whose bytes cannot be mistaken for a stack trace.
func errText(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != 'g')
	}
	// long texts too
	return strings.Repeat("ab %d ", []int{0, 20, 200}[sym.Pick("long", sym.Bound(2, 3))]) + s
}

const stackMark = "goroutine "

func checkErrText(e *Error, code, msg, par string, n int, stack bool) {
	sym.Assert(e != nil, "the error is there")
	t := e.Error()
	sym.Assert(strings.HasPrefix(t, code), "the text holds the code")
	rest := t[len(code):]
	at := strings.Index(rest, msg)
	sym.Assert(at >= 0, "the text holds the message")
	if par != "" {
		sym.Assert(strings.Contains(rest[at+len(msg):], par), "the text holds the parameters")
	}
	if n >= 0 {
		sym.Assert(strings.Contains(rest[at+len(msg):], "-7"), "the text holds the parameters")
	}
	if stack {
		sym.Assert(strings.Contains(t, stackMark), "a system error shows the stack")
		sym.Reach("with stack")
	} else {
		sym.Assert(!strings.Contains(t, stackMark), "no stack trace in a protocol error")
		sym.Assert(!strings.Contains(t, ".go:"), "no stack trace in a protocol error")
		sym.Reach("without stack")
	}
}

type plainErr struct{ s string }

func (p plainErr) Error() string { return p.s }

// VH_K08_text makes errors in every way the library offers.
//
//verif:opts weight=2
func VH_K08_text() {
	msg := errText("msg", 1+sym.Pick("msg.len", sym.Bound(3, 5)))
	par := errText("par", 1+sym.Pick("par.len", sym.Bound(2, 3)))
	how := sym.Pick("how", 6)
	var e *Error
	stack := false
	code := "201"
	n := -1
	switch how {
	case 0:
		stack = sym.Pick("stack", 2) == 1
		c := sym.Pick("code", 5)
		code = []string{"200", "201", "202", "203", "204"}[c]
		switch sym.Pick("nparams", 3) {
		case 0:
			e = NewError(ErrCode(200+c), msg, stack)
			par = ""
		case 1:
			e = NewError(ErrCode(200+c), msg, stack, par)
		case 2:
			e = NewError(ErrCode(200+c), msg, stack, -7, par)
			n = 1
		}
	case 1:
		e, _ = sym.Caught(func() { PanicSysErr(msg, par) }).(*Error)
		stack = true
	case 2:
		e, _ = sym.Caught(func() { PanicSysErrNonNil(plainErr{par}, msg, -7) }).(*Error)
		stack = true
	case 3:
		switch sym.Pick("nparams", 3) {
		case 0:
			e, _ = sym.Caught(func() { PanicBizErr(msg) }).(*Error)
			par = ""
		case 1:
			e, _ = sym.Caught(func() { PanicBizErr(msg, par) }).(*Error)
		case 2:
			e, _ = sym.Caught(func() { PanicBizErr(msg, -7, par) }).(*Error)
			n = 1
		}
	case 4:
		e, _ = sym.Caught(func() { PanicBizErrNonNil(plainErr{par}, msg) }).(*Error)
	case 5:
		sym.Assert(sym.Caught(func() { PanicBizErrNonNil(nil, msg, par) }) == nil, "no error, no panic")
		sym.Assert(sym.Caught(func() { PanicSysErrNonNil(nil, msg, par) }) == nil, "no error, no panic")
		return
	}
	checkErrText(e, code, msg, par, n, stack)
}

// VH_K08_access looks at the errors a remote node can provoke by a message
// with missing or wrong fields.
func VH_K08_access() {
	key := errText("key", 1+sym.Pick("key.len", 3))
	d := Dict{}
	if sym.Pick("there", 2) == 1 {
		d[key] = List{}
	}
	var e *Error
	switch sym.Pick("what", 4) {
	case 0:
		e, _ = sym.Caught(func() { d.GetInteger(key) }).(*Error)
	case 1:
		e, _ = sym.Caught(func() { d.GetString(key) }).(*Error)
	case 2:
		e, _ = sym.Caught(func() { d.GetDict(key) }).(*Error)
	case 3:
		l := List{1, "x"}
		i := sym.Pick("i", 2)
		if i == 0 {
			e, _ = sym.Caught(func() { l.GetString(i) }).(*Error)
		} else {
			e, _ = sym.Caught(func() { l.GetDict(i) }).(*Error)
		}
		checkErrText(e, "201", "val", "", -1, false)
		return
	}
	checkErrText(e, "201", key, "", -1, false)
}
