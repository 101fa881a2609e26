package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/GalaIO/P2Pcrawler"

// Source of one harness file.
type hfile struct {
	path  string // under /verif/harness
	rel   string // package directory relative to the repository
	funcs map[string]Options
}

var optErr error

func parseOpts(o *Options, line string) {
	for _, f := range strings.Fields(line) {
		k, v, _ := strings.Cut(f, "=")
		n, _ := strconv.Atoi(v)
		switch k {
		case "explore":
			o.explore = true
		case "preempt":
			o.preempt = n
		case "real":
			o.real = true
		case "fresh":
			o.fresh = true
		case "race":
			o.race = true
			o.raceRun = true
		case "timers":
			o.timers = v
		case "steps":
			o.steps = n
		case "depth":
			o.depth = n
		case "maporder":
			o.mapOrder = true
		case "paths":
			o.maxPaths = n
		case "solver":
			o.solver = v
		case "alloc":
			o.allocMax = int64(n)
		case "select":
			o.selectAll = true
		case "replays":
			o.replays = n
		case "timeout":
			o.timeout = n
		case "queue":
			o.queue = n
		case "weight":
			o.weight = n
		case "tier":
			o.tier = v
		case "tpreempt":
			o.tpreempt = n
		default:
			optErr = fmt.Errorf("unknown option %q", k)
		}
	}
}

// scanHarness lists the harness files and their entry points.
func scanHarness(dir string) ([]*hfile, error) {
	var r []*hfile
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, filepath.Dir(p))
		h := &hfile{path: p, rel: rel, funcs: map[string]Options{}}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VH_") {
				continue
			}
			o := defaultOpts()
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//verif:opts "); ok {
						parseOpts(&o, s)
					}
				}
			}
			h.funcs[fd.Name.Name] = o
		}
		r = append(r, h)
		return nil
	})
	if err == nil {
		err = optErr
	}
	sort.Slice(r, func(i, j int) bool { return r[i].path < r[j].path })
	return r, err
}

func propOf(name string) string {
	p := strings.SplitN(name, "_", 3)
	if len(p) < 2 {
		return ""
	}
	return p[1]
}

// overlayPath is where a harness file appears inside the repository.
func overlayPath(repo string, h *hfile) string {
	return filepath.Join(repo, h.rel, "zz_verif_"+filepath.Base(h.path))
}

type Loaded struct {
	prog    *Program
	harness []*Harness
	dropped []string // harness files that do not compile against this tree
	files   []*hfile
	overlay map[string]string // virtual path -> real path
	repo    string
}

func overlaySet(repo, verif string, files []*hfile) map[string]string {
	ov := map[string]string{}
	for _, h := range files {
		ov[overlayPath(repo, h)] = h.path
	}
	for _, lib := range []string{"sym", "vnet"} {
		ms, _ := filepath.Glob(filepath.Join(verif, "overlay", lib, "*.go"))
		for _, p := range ms {
			ov[filepath.Join(repo, "zzverif", lib, filepath.Base(p))] = p
		}
	}
	return ov
}

func load(repo, verif string, props map[string]bool) (*Loaded, error) {
	all, err := scanHarness(filepath.Join(verif, "harness"))
	if err != nil {
		return nil, err
	}
	// a file is wanted when it has an entry point of a wanted property; files
	// without entry points hold shared helpers of their package
	want := map[string]bool{}
	for _, h := range all {
		for n := range h.funcs {
			if props[propOf(n)] {
				want[h.rel] = true
			}
		}
	}
	var files []*hfile
	for _, h := range all {
		if !want[h.rel] {
			continue
		}
		ok := len(h.funcs) == 0
		for n := range h.funcs {
			if props[propOf(n)] {
				ok = true
			}
		}
		if ok {
			files = append(files, h)
		}
	}
	L := &Loaded{repo: repo}
	for try := 0; ; try++ {
		ov := overlaySet(repo, verif, files)
		content := map[string][]byte{}
		for k, v := range ov {
			b, err := os.ReadFile(v)
			if err != nil {
				return nil, err
			}
			content[k] = b
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: content, Env: append(os.Environ(), "CGO_ENABLED=0")}
		pats := []string{"./zzverif/sym", "./zzverif/vnet"}
		seen := map[string]bool{}
		for _, h := range files {
			if !seen[h.rel] {
				seen[h.rel] = true
				pats = append(pats, "./"+h.rel)
			}
		}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, repoModule) {
				return
			}
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.IndexByte(file, ':'); i >= 0 {
					file = file[:i]
				}
				if strings.Contains(filepath.Base(file), "zz_verif_") {
					bad[file] = e.Msg
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 && try < 6 {
			var keep []*hfile
			for _, h := range files {
				if msg, b := bad[overlayPath(repo, h)]; b {
					L.dropped = append(L.dropped, h.path+": "+msg)
					continue
				}
				keep = append(keep, h)
			}
			if len(keep) < len(files) {
				files = keep
				continue
			}
		}
		if len(other) > 0 || len(bad) > 0 {
			return nil, fmt.Errorf("the tree does not type-check: %v %v", other, bad)
		}
		L.files, L.overlay = files, ov
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		P := &Program{prog: prog, gidx: map[*ssa.Global]int{}, module: repoModule, redirects: map[string]*ssa.Function{}}
		var vn *ssa.Package
		for _, pk := range prog.AllPackages() {
			switch pk.Pkg.Path() {
			case repoModule + "/zzverif/vnet":
				vn = pk
			case "runtime":
				if t := pk.Type("errorString"); t != nil {
					P.rtErr = t.Type()
				}
			}
		}
		if P.rtErr == nil {
			P.rtErr = types.Typ[types.String]
		}
		for k, v := range redirects {
			f := vn.Func(v)
			if f == nil {
				return nil, fmt.Errorf("no vnet.%s", v)
			}
			P.redirects[k] = f
		}
		L.prog = P
		for _, h := range files {
			for _, pk := range prog.AllPackages() {
				if pk.Pkg.Path() != repoModule+"/"+h.rel && !(h.rel == "." && pk.Pkg.Path() == repoModule) {
					continue
				}
				for n, o := range h.funcs {
					if !props[propOf(n)] {
						continue
					}
					f := pk.Func(n)
					if f == nil {
						return nil, fmt.Errorf("no function %s", n)
					}
					L.harness = append(L.harness, &Harness{Name: n, Prop: propOf(n), Pkg: h.rel, Fn: f, Opt: o})
				}
			}
		}
		sort.Slice(L.harness, func(i, j int) bool { return L.harness[i].Name < L.harness[j].Name })
		return L, nil
	}
}

var redirects = map[string]string{
	"net.DialTimeout":                   "DialTimeout",
	"net.Dial":                          "Dial",
	"(*net/http.ServeMux).Handle":       "HTTPHandle",
	"(*net/http.ServeMux).HandleFunc":   "HTTPHandleFunc",
	"(*net/http.Server).ListenAndServe": "HTTPServerListen",
	"(*net/http.Server).Serve":          "HTTPServe",
	"(*net/http.Server).Close":          "HTTPClose",
	"(*net/http.Server).Shutdown":       "HTTPShutdown",
	"net/http.ListenAndServe":           "HTTPListenAndServe",
	"net.Listen":                        "Listen",
	"net.ResolveUDPAddr":                "ResolveUDPAddr",
	"net.ListenUDP":                     "ListenUDP",
	"(*net.UDPConn).ReadFromUDP":        "UDPReadFrom",
	"(*net.UDPConn).ReadFrom":           "UDPReadFromAddr",
	"(*net.UDPConn).WriteToUDP":         "UDPWriteTo",
	"(*net.UDPConn).WriteTo":            "UDPWriteToAddr",
	"os.OpenFile":                       "OpenFile",
	"os.Create":                         "Create",
	"os.Open":                           "Open",
	"os.CreateTemp":                     "CreateTemp",
	"(*os.File).Write":                  "FileWrite",
	"(*os.File).WriteString":            "FileWriteString",
	"(*os.File).Read":                   "FileRead",
	"(*os.File).Close":                  "FileClose",
	"(*os.File).Sync":                   "FileSync",
	"(*os.File).Name":                   "FileName",
	"os.WriteFile":                      "WriteFile",
	"os.ReadFile":                       "ReadFile",
	"os.MkdirAll":                       "MkdirAll",
	"os.Mkdir":                          "Mkdir",
	"os.Remove":                         "Remove",
	"os.RemoveAll":                      "RemoveAll",
	"os.Rename":                         "Rename",
	"os.Stat":                           "Stat",
	"os.Lstat":                          "Stat",
	"os.Symlink":                        "Symlink",
	"io/ioutil.ReadDir":                 "IoReadDir",
	"(*net.Dialer).Dial":                "DialerDial",
	"(*net.Dialer).DialContext":         "DialerDialContext",

	"(*os.File).WriteAt":                     "FileWriteAt",
	"(*os.File).Seek":                        "FileSeek",
	"(*os.File).Truncate":                    "FileTruncate",
	"(*os.File).ReadFrom":                    "FileReadFrom",
	"(*os.File).Stat":                        "FileStat",
	"(*os.File).Chmod":                       "FileChmod",
	"os.Chmod":                               "Chmod",
	"os.Truncate":                            "Truncate",
	"os.Link":                                "Link",
	"github.com/spf13/viper.SafeWriteConfig": "SafeWriteConfig",
	"github.com/spf13/viper.SafeWriteConfigAs": "SafeWriteConfigAs",
	"github.com/spf13/viper.WriteConfigAs":     "WriteConfigAs",
	"os.ReadDir":                               "ReadDir",

	repoModule + "/zzverif/sym.BlackHole": "BlackHole",
	repoModule + "/zzverif/sym.OnFile":    "OnFile",
	repoModule + "/zzverif/sym.OpenFiles": "OpenFiles",
	repoModule + "/zzverif/sym.FileLimit": "FileLimit",
}

func regVnet(reg func(f intrinsic, names ...string)) {
	p := repoModule + "/zzverif/vnet."
	key := func(m *Machine, v Value) any {
		x := v.(Iface)
		if s, ok := concStr2(x.v); ok {
			return "vnet:" + s
		}
		return x.v
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		k := key(m, a[0])
		m.objs[k] = a[1]
		// a connection is also found through its embedded conn field
		if c, ok := k.(*Cell); ok && c != nil {
			t := ti(a[0].(Iface).t).el()
			if sv, ok := c.get(t).(*StructV); ok && len(sv.f) > 0 {
				m.objs[connKey{&sv.f[0]}] = c
			}
		}
		return nil
	}, p+"bind")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		if v, ok := m.objs[key(m, a[0])].(Iface); ok {
			return v
		}
		return nilIface()
	}, p+"find")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		m.logSched(th, "file")
		m.visible(th)
		return nil
	}, p+"mark")
	owner := func(m *Machine, v Value) Value {
		if c, ok := v.(*Cell); ok {
			if o, ok := m.objs[connKey{c}]; ok {
				return o
			}
		}
		m.unsupported("a network connection that is not virtual")
		return nil
	}
	vn := func(m *Machine, th *Thread, name string, args ...Value) Value {
		return m.callFn(th, th.fr, m.p.lookupFn(repoModule+"/zzverif/vnet", name), args, nil)
	}
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return vn(m, th, "UDPClose", owner(m, a[0])) }, "(*net.conn).Close")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return vn(m, th, "UDPSetReadDeadline", owner(m, a[0]), a[1])
	}, "(*net.conn).SetReadDeadline", "(*net.conn).SetDeadline")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value { return nilIface() }, "(*net.conn).SetWriteDeadline", "(*net.conn).SetReadBuffer", "(*net.conn).SetWriteBuffer")
	reg(func(m *Machine, th *Thread, fn *cfn, a []Value) Value {
		return vn(m, th, "UDPLocalAddr", owner(m, a[0]))
	}, "(*net.conn).LocalAddr")
}

type connKey struct{ c *Cell }
