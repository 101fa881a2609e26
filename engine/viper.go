package main

import (
	"go/types"
	"strconv"
	"strings"
)

// A model of github.com/spf13/viper: defaults per section, and configuration
// files which the harness writes with sym.WriteConfig. A section that the file
// has hides the default of the whole section, as viper does.

type vconf map[string]map[string]Iface // section -> field (lower case) -> value

const vipDefPath = "./conf/config.json"

func vipPath(p string) string { return strings.TrimPrefix(p, "./") }

func (m *Machine) vipFile() (string, bool) {
	if p, ok := m.env["vip:file"].(string); ok {
		return p, true
	}
	return vipDefPath, false
}

// vipTouch counts a call as an access to viper's own state, which has no lock.
func (m *Machine) vipTouch(write bool) {
	if !m.race || m.lenient > 0 {
		return
	}
	mt, ok := m.env["vip:meta"].(*cellMeta)
	if !ok {
		mt = &cellMeta{epoch: m.epoch, wT: -1}
		m.env["vip:meta"] = mt
	}
	m.raceMeta(mt, write, "viper's state")
}

func (m *Machine) vipGet(key string) (Iface, bool) {
	key = strings.ToLower(key)
	cur, _ := m.env["vip:cur"].(vconf)
	sec, field, nested := strings.Cut(key, ".")
	if f, ok := cur[sec]; ok {
		if nested {
			v, ok := f[field]
			return v, ok
		}
		return Iface{}, true
	}
	if d, ok := m.env["vip:def:"+key].(Iface); ok {
		return d, true
	}
	return Iface{}, false
}

// vipDecode stores a configured value as mapstructure does with weak typing.
func (m *Machine) vipDecode(c *Cell, t *typeInfo, v Iface) (ok bool) {
	st := ti(v.t)
	switch {
	case t.kind == kInt && st.kind == kString:
		x, conc := concStr(v.v)
		if !conc {
			m.unsupported("symbolic text for a number")
		}
		n, err := strconv.ParseInt(x, 0, t.w)
		if err != nil {
			return false
		}
		c.put(m.convert(t, ti(types.Typ[types.Int]), uint64(n), nil))
	case t.kind == kInt && st.kind == kSlice, t.kind == kBool && st.kind == kSlice, t.kind == kString && st.kind == kSlice:
		return false
	case t.kind == kInt && st.kind == kInt:
		c.put(m.convert(t, st, v.v, nil))
	case t.kind == kString && st.kind == kString, t.kind == kBool && st.kind == kBool:
		c.put(v.v)
	case t.kind == kSlice && st.kind == kSlice:
		src := v.v.(SliceV)
		old := c.get(t).(SliceV)
		n := src.n
		if old.n > n {
			n = old.n // the elements beyond those configured stay
		}
		arr := &ArrV{e: make([]Cell, n)}
		for i := range arr.e {
			if i < src.n {
				e := src.arr.e[src.off+i].get(st.el())
				x, ok := e.(Iface)
				if !ok {
					x = Iface{st.el().t, e}
				}
				if !m.vipDecode(&arr.e[i], t.el(), x) {
					return false
				}
			} else {
				arr.e[i].put(copyVal(old.arr.e[old.off+i].get(t.el())))
			}
		}
		c.put(SliceV{arr, 0, n, n})
	default:
		m.unsupported("configuration value of another type")
	}
	return true
}

// vipBroken marks a configuration file that does not parse.
const vipBroken = "\x00broken"

func (m *Machine) vipError(name string) Value {
	for _, pk := range m.p.prog.AllPackages() {
		if pk.Pkg.Path() == "github.com/spf13/viper" {
			if t := pk.Type(name); t != nil {
				return Iface{t.Type(), zero(ti(t.Type()))}
			}
		}
	}
	m.unsupported("viper." + name)
	return nil
}

func (m *Machine) vipHas(p string) bool {
	if _, ok := m.env["vip:disk:"+vipPath(p)]; ok {
		return true
	}
	return vipPath(p) == vipPath(vipDefPath) && !m.h.Opt.fresh && m.env["vip:gone"] == nil
}

func (m *Machine) vipRemove(p string) {
	p = vipPath(p)
	delete(m.env, "vip:disk:"+p)
	delete(m.env, "vip:state:"+p)
	if p == vipPath(vipDefPath) {
		m.env["vip:gone"] = true
	}
}

func (m *Machine) vipPut(p string, c vconf) {
	m.env["vip:disk:"+vipPath(p)] = c
	n, _ := m.env["vip:writes"].(int)
	m.env["vip:writes"] = n + 1
	m.env["vip:state:"+vipPath(p)] = "written " + strconv.Itoa(n+1)
}

// vipSave writes what viper holds: the sections read, and the defaults of the
// others.
func (m *Machine) vipSave(p string) {
	c := vconf{}
	for k, v := range m.env {
		sec, ok := strings.CutPrefix(k, "vip:def:")
		if !ok {
			continue
		}
		x := v.(Iface)
		f := map[string]Iface{}
		c[sec] = f
		pt := ti(x.t)
		if pt.kind != kPtr || pt.el().kind != kStruct {
			m.unsupported("default of another type")
		}
		st := pt.el()
		sv := m.deref(x.v).get(st).(*StructV)
		u := st.u.(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			f[strings.ToLower(u.Field(i).Name())] = Iface{ft, copyVal(sv.f[i].get(ti(ft)))}
		}
	}
	cur, _ := m.env["vip:cur"].(vconf)
	for sec, f := range cur {
		c[sec] = f
	}
	m.vipPut(p, c)
}

func regViper(reg func(f intrinsic, names ...string)) {
	vp := "github.com/spf13/viper."
	key := func(m *Machine, v Value) string {
		k, ok := concStr(v)
		if !ok {
			m.unsupported("symbolic configuration key")
		}
		return strings.ToLower(k)
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipTouch(true)
		m.env["vip:def:"+key(m, a[0])] = a[1]
		return nil
	}, vp+"SetDefault")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.unsupported("viper.Set")
		return nil
	}, vp+"Set")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		p, ok := concStr(a[0])
		if !ok {
			m.unsupported("symbolic path")
		}
		m.vipTouch(true)
		if p != "" {
			m.env["vip:file"] = p
		}
		return nil
	}, vp+"SetConfigFile")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipTouch(false)
		p, _ := m.vipFile()
		return p
	}, vp+"ConfigFileUsed")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipTouch(true)
		p, set := m.vipFile()
		c, ok := m.env["vip:disk:"+vipPath(p)].(vconf)
		if !ok && set {
			return m.mkError("open " + p + ": no such file or directory")
		}
		if !ok && !m.vipHas(p) {
			return m.vipError("ConfigFileNotFoundError")
		}
		if _, bad := c[vipBroken]; bad {
			e := m.vipError("ConfigParseError").(Iface)
			e.v.(*StructV).f[0].put(m.mkError("unexpected end of JSON input"))
			return e
		}
		m.env["vip:cur"] = c
		return nilIface()
	}, vp+"ReadInConfig")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { m.vipTouch(true); return nil }, vp+"SetConfigPermissions", vp+"AddConfigPath",
		vp+"SetConfigType", vp+"SetConfigName", vp+"AutomaticEnv")
	vn := repoModule + "/zzverif/vnet."
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipTouch(false)
		p, set := m.vipFile()
		if ok := m.vipHas(p); !ok && !set {
			return m.vipError("ConfigFileNotFoundError")
		}
		m.vipSave(p)
		return nilIface()
	}, vp+"WriteConfig")
	path := func(m *Machine, v Value) string {
		p, ok := concStr(v)
		if !ok {
			m.unsupported("symbolic path of a configuration file")
		}
		return p
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		p, ok := concStr(a[0])
		return ok && m.vipHas(p)
	}, vn+"vipHas")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipTouch(false)
		m.vipSave(path(m, a[0]))
		return nil
	}, vn+"vipSave")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		from, to := path(m, a[0]), path(m, a[1])
		c, ok := m.env["vip:disk:"+vipPath(from)].(vconf)
		if !ok {
			c = vconf{}
		}
		m.vipRemove(from)
		m.vipPut(to, c)
		return nil
	}, vn+"vipMove")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipRemove(path(m, a[0]))
		return nil
	}, vn+"vipDel")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return m.h.Opt.fresh }, vn+"vipFresh")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipTouch(false)
		return &MapV{idx: map[any]*mapEntry{}}
	}, vp+"AllSettings")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.vipTouch(false)
		_, ok := m.vipGet(key(m, a[0]))
		return ok
	}, vp+"IsSet")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		cur, _ := m.env["vip:cur"].(vconf)
		m.vipTouch(false)
		_, ok := cur[key(m, a[0])]
		return ok
	}, vp+"InConfig")
	for n, t := range map[string]types.BasicKind{"GetInt": types.Int, "GetString": types.String, "GetBool": types.Bool} {
		tt := ti(types.Typ[t])
		reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
			m.vipTouch(false)
			v, ok := m.vipGet(key(m, a[0]))
			if !ok || v.t == nil || ti(v.t).kind != tt.kind {
				return zero(tt)
			}
			return v.v
		}, vp+n)
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		k := key(m, a[0])
		x := a[1].(Iface)
		if x.t == nil {
			m.unsupported("UnmarshalKey to nil")
		}
		m.vipTouch(false)
		pt := ti(x.t)
		if pt.kind != kPtr || pt.el().kind != kStruct {
			m.unsupported("UnmarshalKey to " + x.t.String())
		}
		st := pt.el()
		cur, _ := m.env["vip:cur"].(vconf)
		if sec, ok := cur[k]; ok {
			c := m.deref(x.v)
			sv := c.get(st).(*StructV)
			u := st.u.(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				name := u.Field(i).Name()
				if tag := u.Tag(i); tag != "" {
					m.unsupported("configuration field with a tag")
				}
				if v, ok := sec[strings.ToLower(name)]; ok {
					ft := ti(u.Field(i).Type())
					sv.f[i].get(ft)
					if !m.vipDecode(&sv.f[i], ft, v) {
						return m.mkError("1 error(s) decoding: '" + name + "' expected another type")
					}
				}
			}
			return nilIface()
		}
		d, ok := m.env["vip:def:"+k].(Iface)
		if ok && d.t != nil && types.Identical(d.t, x.t) {
			if p, ok := d.v.(*Cell); ok {
				t := ti(d.t).el()
				m.deref(x.v).get(t)
				m.deref(x.v).put(copyVal(p.get(t)))
			}
		} else if ok {
			m.unsupported("default of another type")
		}
		return nilIface()
	}, vp+"UnmarshalKey")

	// sym.WriteConfig(path, sections)
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		p, _ := concStr(a[0])
		mv := a[1].(*MapV)
		c := vconf{}
		for _, e := range mv.ents {
			if e.deleted {
				continue
			}
			sec, ok := concStr(e.k)
			if !ok {
				m.unsupported("symbolic section")
			}
			f := map[string]Iface{}
			in := e.v.(*MapV)
			for _, y := range in.ents {
				if y.deleted {
					continue
				}
				k, ok := concStr(y.k)
				if !ok {
					m.unsupported("symbolic field")
				}
				f[strings.ToLower(k)] = m.deepCopy(y.v, 0).(Iface)
			}
			c[strings.ToLower(sec)] = f
		}
		m.vipPut(p, c)
		return nil
	}, repoModule+"/zzverif/sym.WriteConfig")
	// sym.BreakConfig(path)
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		p, _ := concStr(a[0])
		m.vipPut(p, vconf{vipBroken: nil})
		return nil
	}, repoModule+"/zzverif/sym.BreakConfig")
	// sym.ConfigState(path)
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		p, _ := concStr(a[0])
		if s, ok := m.env["vip:state:"+vipPath(p)].(string); ok {
			return s
		}
		if m.vipHas(p) {
			return "there"
		}
		return ""
	}, repoModule+"/zzverif/sym.ConfigState")
}
