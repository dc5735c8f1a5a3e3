// Rewrite turns the Go package in a source tree into an equivalent one whose
// concurrency, clock and system calls go through the simulator (dst/sim, dst/sx).
//
//	rewrite -repo /repo -src /verif/src -out DIR [-goos linux] [-accessor FILE]
//
// It judges types, not text: any program that compiles is handled, and a construct
// it cannot put under the simulator is reported loudly.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var sx = map[string]string{
	"sync":                     "dst/sx/simsync",
	"context":                  "dst/sx/simcontext",
	"sync/atomic":              "dst/sx/simatomic",
	"time":                     "dst/sx/simtime",
	"os":                       "dst/sx/simos",
	"io/ioutil":                "dst/sx/simioutil",
	"path/filepath":            "dst/sx/simfilepath",
	"golang.org/x/sys/unix":    "dst/sx/simunix",
	"golang.org/x/sys/windows": "dst/sx/simwindows",
	"syscall":                  "dst/sx/simsyscall",
	"runtime":                  "dst/sx/simruntime",
	"math/rand":                "dst/sx/simrand",
	"math/rand/v2":             "dst/sx/simrand",
}

var pure = map[string]bool{
	"errors": true, "fmt": true, "strings": true, "bytes": true, "sort": true, "strconv": true,
	"io": true, "io/fs": true, "unsafe": true, "reflect": true, "slices": true, "log": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true, "path": true,
	"cmp": true, "container/list": true, "container/heap": true, "container/ring": true,
	"encoding/binary": true, "encoding/hex": true, "hash/fnv": true, "hash/crc32": true, "hash/maphash": false, "regexp": true,
	"bufio": true, "text/tabwriter": true, "iter": false, "internal/bytealg": false,
}

var pureFuncs = map[string]map[string]bool{
	"path/filepath":            set("Base Clean Dir Ext FromSlash ToSlash IsAbs Join Match Rel Split SplitList VolumeName HasPrefix IsLocal Localize"),
	"os":                       set("IsNotExist IsExist IsPermission IsTimeout IsPathSeparator NewSyscallError"),
	"time":                     set("Unix UnixMilli Date ParseDuration FixedZone"),
	"runtime":                  set("Callers Caller FuncForPC CallersFrames Stack Version"),
	"maps":                     set("Copy Clone Equal EqualFunc"),
	"golang.org/x/sys/unix":    set("ErrnoName SignalName ByteSliceFromString BytePtrFromString BytePtrToString ByteSliceToString"),
	"syscall":                  set("ByteSliceFromString BytePtrFromString UTF16FromString UTF16ToString UTF16PtrFromString"),
	"golang.org/x/sys/windows": set("UTF16FromString UTF16ToString"),
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

type rw struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	sxNames  map[string]map[string]bool
	captured map[types.Object]bool
	sites    []string
	imports  map[string]string // alias -> path needed by the current file
	file     *ast.File
	n        int
	gotos    map[string]bool
	inits    []string
	nInit    int
}

func main() {
	repo := flag.String("repo", "/repo", "")
	src := flag.String("src", "", "directory of the dst module")
	out := flag.String("out", "", "output directory")
	goos := flag.String("goos", "linux", "")
	goarch := flag.String("goarch", "amd64", "")
	tags := flag.String("tags", "", "")
	accessor := flag.String("accessor", "", "file added to the package verbatim")
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	modDir, err := os.MkdirTemp("", "rewrite")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(modDir)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, f))
		if err != nil && f == "go.mod" {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(modDir, f), b, 0o644)
	}
	args := []string{"list", "-modfile=" + filepath.Join(modDir, "go.mod"), "-mod=mod", "-export", "-deps", "-json=ImportPath,Export,GoFiles,Module,Dir,Error,DepOnly"}
	if *tags != "" {
		args = append(args, "-tags="+*tags)
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOOS="+*goos, "GOARCH="+*goarch, "CGO_ENABLED=0", "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	type lp struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
		DepOnly                 bool
		Module                  *struct{ GoVersion string }
	}
	exports := map[string]string{}
	var self *lp
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p lp
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			q := p
			self = &q
		}
	}
	if self == nil {
		die("no package")
	}
	r := &rw{fset: token.NewFileSet(), sxNames: map[string]map[string]bool{}, captured: map[types.Object]bool{}}
	for _, dir := range sx {
		r.sxNames[dir] = exportedNames(filepath.Join(*src, strings.TrimPrefix(dir, "dst/")))
	}
	var files []*ast.File
	for _, f := range self.GoFiles {
		a, err := parser.ParseFile(r.fset, filepath.Join(*repo, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	goVersion := "1.21"
	if self.Module != nil && self.Module.GoVersion != "" {
		goVersion = self.Module.GoVersion
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: importer.ForCompiler(r.fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}), Sizes: types.SizesFor("gc", *goarch)}
	r.pkg, err = conf.Check(self.ImportPath, r.fset, files, r.info)
	if err != nil {
		die("type check: %v", err)
	}
	for _, f := range files {
		r.findCaptured(f)
	}
	lang := "go1.21"
	if v := minor(goVersion); v > 21 {
		lang = fmt.Sprintf("go1.%d", v)
	}
	// initialisers, per file, in the order the language prescribes
	initOf := map[*ast.File][]string{}
	_ = initOf
	initFns := map[*types.Initializer]string{}
	perFile := map[*ast.File][]*types.Initializer{}
	for i, in := range r.info.InitOrder {
		initFns[in] = fmt.Sprintf("simInit_%d", i)
		for _, f := range files {
			if in.Rhs.Pos() >= f.FileStart && in.Rhs.Pos() < f.FileEnd {
				perFile[f] = append(perFile[f], in)
			}
		}
	}
	nInits := 0
	var initCalls []string
	var zero []string
	for _, f := range files {
		r.file = f
		r.imports = map[string]string{}
		r.prepass(f)
		var decls []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i := range vs.Values {
							vs.Values[i] = r.expr(vs.Values[i])
						}
						for _, n := range vs.Names {
							if n.Name != "_" {
								zero = append(zero, n.Name)
							}
						}
					}
				}
				decls = append(decls, d)
			case *ast.FuncDecl:
				nd := *d
				if d.Recv == nil && d.Name.Name == "init" {
					nm := fmt.Sprintf("simInitFunc_%d", nInits)
					nInits++
					nd.Name = ast.NewIdent(nm)
					initCalls = append(initCalls, nm)
				}
				if d.Body != nil {
					nd.Body = r.funcBody(d.Body)
				}
				decls = append(decls, &nd)
			}
		}
		for _, in := range perFile[f] {
			as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{r.expr(in.Rhs)}}
			for _, v := range in.Lhs {
				as.Lhs = append(as.Lhs, ast.NewIdent(v.Name()))
			}
			decls = append(decls, &ast.FuncDecl{Name: ast.NewIdent(initFns[in]), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{as}}})
		}
		// imports
		keep := r.usedImports(f)
		var imp []string
		for alias, path := range r.imports {
			imp = append(imp, fmt.Sprintf("import %s %q\n", alias, path))
		}
		for _, is := range f.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			nm := ""
			if is.Name != nil {
				nm = is.Name.Name
			}
			if nm == "." {
				die("%s: dot import of %s", r.fset.Position(is.Pos()), path)
			}
			if path == "C" {
				die("%s: cgo", r.fset.Position(is.Pos()))
			}
			if nm == "_" || keep[importName(r, is)] {
				imp = append(imp, fmt.Sprintf("import %s %q\n", nm, path))
			}
		}
		sort.Strings(imp)
		var o bytes.Buffer
		fmt.Fprintf(&o, "//go:build %s\n\npackage %s\n\nimport sim \"dst/sim\"\n\n%s\nvar _ = sim.Y\n\n", lang, f.Name.Name, strings.Join(imp, ""))
		for _, d := range decls {
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&o, r.fset, d); err != nil {
				die("print: %v", err)
			}
			o.WriteString("\n\n")
		}
		name := strings.TrimSuffix(filepath.Base(r.fset.Position(f.FileStart).Filename), ".go")
		// avoid GOOS/GOARCH suffixes being interpreted
		if err := os.WriteFile(filepath.Join(*out, "z_"+name+"_gen.go"), o.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	var o bytes.Buffer
	fmt.Fprintf(&o, "package %s\n\nimport sim \"dst/sim\"\n\n// SimReset re-initialises the package as at program start.\nfunc SimReset() {\n", files[0].Name.Name)
	for _, z := range zero {
		fmt.Fprintf(&o, "\tsim.Zero(&%s)\n", z)
	}
	for _, in := range r.info.InitOrder {
		fmt.Fprintf(&o, "\t%s()\n", initFns[in])
	}
	for _, c := range initCalls {
		fmt.Fprintf(&o, "\t%s()\n", c)
	}
	o.WriteString("}\n\nfunc init() {\n\tsim.Sites = []string{\n")
	for _, s := range r.sites {
		fmt.Fprintf(&o, "\t\t%q,\n", s)
	}
	o.WriteString("\t}\n}\n")
	os.WriteFile(filepath.Join(*out, "z_sim_reset_gen.go"), o.Bytes(), 0o644)
	if *accessor != "" {
		b, err := os.ReadFile(*accessor)
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(*out, "z_sim_accessor_gen.go"), b, 0o644)
	}
	fmt.Printf("rewrite: %d files, %d access sites, lang %s\n", len(files), len(r.sites), lang)
}

func minor(v string) int {
	p := strings.Split(v, ".")
	if len(p) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(p[1])
	return n
}

func importName(r *rw, is *ast.ImportSpec) string {
	if is.Name != nil {
		return is.Name.Name
	}
	if o, ok := r.info.Implicits[is].(*types.PkgName); ok {
		return o.Name()
	}
	return ""
}

func exportedNames(dir string) map[string]bool {
	m := map[string]bool{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return m
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() {
							m[s.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.IsExported() {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return m
}

// prepass redirects package references in place.
func (r *rw) prepass(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		path, name := pn.Imported().Path(), s.Sel.Name
		if dir, ok := sx[path]; ok && r.sxNames[dir][name] {
			alias := "sx_" + filepath.Base(dir)
			r.imports[alias] = dir
			nid := ast.NewIdent(alias)
			nid.NamePos = id.NamePos
			r.info.Uses[nid] = pn
			s.X = nid
			return true
		}
		switch r.info.Uses[s.Sel].(type) {
		case *types.Func:
			if pure[path] && path+"."+name != "reflect.Select" || pureFuncs[path][name] {
				return true
			}
			die("%s: call of %s.%s is not under the simulator", r.fset.Position(s.Pos()), path, name)
		}
		return true
	})
}

func (r *rw) usedImports(f *ast.File) map[string]bool {
	m := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					m[id.Name] = true
				}
			}
		}
		return true
	})
	return m
}

func (r *rw) findCaptured(f *ast.File) {
	var lits []*ast.FuncLit
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
			ast.Inspect(n.Body, visit)
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && !v.IsField() && len(lits) > 0 {
				l := lits[len(lits)-1]
				if v.Parent() != r.pkg.Scope() && v.Pkg() == r.pkg && (v.Pos() < l.Pos() || v.Pos() >= l.End()) {
					r.captured[v] = true
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
}

func (r *rw) site(p token.Pos) ast.Expr {
	po := r.fset.Position(p)
	r.sites = append(r.sites, fmt.Sprintf("%s:%d", filepath.Base(po.Filename), po.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(r.sites) - 1)}
}

func (r *rw) posName(p token.Pos) string {
	po := r.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(po.Filename), po.Line)
}

func simSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("sim"), Sel: ast.NewIdent(name)}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: simSel(name), Args: args}
}

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("sim_%s%d", p, r.n))
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isMap(t types.Type) bool {
	if tp, ok := t.(*types.TypeParam); ok {
		die("map operation through type parameter %v", tp)
	}
	_, ok := core(t).(*types.Map)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// shared reports whether the addressable expression e may denote memory another
// task can reach.
func (r *rw) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok {
			v, ok = r.info.Defs[e].(*types.Var)
		}
		if !ok || v == nil {
			return false
		}
		return v.Parent() == r.pkg.Scope() || r.captured[v]
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if _, ok := core(r.typ(e.X)).(*types.Pointer); ok || sel.Indirect() {
			return true
		}
		return r.shared(e.X)
	case *ast.IndexExpr:
		switch t := core(r.typ(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = t
			return r.shared(e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// simple reports whether e can be evaluated again without effects.
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return simple(e.X)
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.StarExpr:
		return simple(e.X)
	case *ast.IndexExpr:
		return simple(e.X) && simple(e.Index)
	case *ast.BinaryExpr:
		return simple(e.X) && simple(e.Y)
	}
	return false
}

func idents(e ast.Expr, m map[string]bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			m[id.Name] = true
		}
		return true
	})
}

func (r *rw) exprs(es []ast.Expr) []ast.Expr {
	out := make([]ast.Expr, len(es))
	for i, e := range es {
		out[i] = r.expr(e)
	}
	return out
}

func (r *rw) isBuiltin(f ast.Expr) string {
	if id, ok := unparen(f).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) chanDir(e ast.Expr) types.ChanDir {
	if c, ok := core(r.typ(e)).(*types.Chan); ok {
		return c.Dir()
	}
	die("%s: channel expected", r.fset.Position(e.Pos()))
	return 0
}

// expr rewrites an expression evaluated for its value.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok {
		if tv.IsType() || tv.Value != nil || tv.IsNil() {
			if tv.Value != nil || tv.IsNil() {
				return e
			}
			return e
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(e.X)}
	case *ast.Ident:
		if r.shared(e) {
			return r.read(e, e)
		}
		return e
	case *ast.BasicLit:
		return e
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil { // qualified identifier
			return e
		}
		switch sel.Kind() {
		case types.MethodExpr:
			return e
		case types.MethodVal:
			return &ast.SelectorExpr{X: r.recv(e.X, sel), Sel: e.Sel}
		}
		if r.shared(e) {
			return r.read(r.lval(e), e)
		}
		return &ast.SelectorExpr{X: r.base(e.X), Sel: e.Sel}
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.X]; ok && !tv.IsValue() { // instantiation
			return e
		}
		if _, ok := core(r.typ(e.X)).(*types.Signature); ok {
			return e
		}
		if isMap(r.typ(e.X)) {
			return &ast.IndexExpr{X: call("MR", r.expr(e.X), r.site(e.Pos())), Index: r.expr(e.Index)}
		}
		if r.shared(e) {
			return r.read(r.lval(e), e)
		}
		return &ast.IndexExpr{X: r.base(e.X), Index: r.expr(e.Index)}
	case *ast.IndexListExpr:
		return e
	case *ast.StarExpr:
		return &ast.ParenExpr{X: &ast.StarExpr{X: call("R", r.expr(e.X), r.site(e.Pos()))}}
	case *ast.SliceExpr:
		x := r.expr
		if _, ok := core(r.typ(e.X)).(*types.Array); ok {
			x = r.lval
		}
		return &ast.SliceExpr{X: x(e.X), Low: r.expr(e.Low), High: r.expr(e.High), Max: r.expr(e.Max), Slice3: e.Slice3}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(e.X), Type: e.Type}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			if _, ok := unparen(e.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: e.Op, X: r.expr(e.X)}
			}
			return &ast.UnaryExpr{Op: e.Op, X: r.lval(e.X)}
		case token.ARROW:
			return call("Recv", r.expr(e.X))
		}
		return &ast.UnaryExpr{Op: e.Op, X: r.expr(e.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(e.X), Op: e.Op, Y: r.expr(e.Y)}
	case *ast.CompositeLit:
		out := &ast.CompositeLit{Type: e.Type}
		_, isStruct := core(r.typ(e)).(*types.Struct)
		if p, ok := core(r.typ(e)).(*types.Pointer); ok { // elided &T in a composite
			_, isStruct = core(p.Elem()).(*types.Struct)
		}
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = r.expr(k)
				}
				out.Elts = append(out.Elts, &ast.KeyValueExpr{Key: k, Value: r.expr(kv.Value)})
				continue
			}
			out.Elts = append(out.Elts, r.expr(el))
		}
		return out
	case *ast.FuncLit:
		return &ast.FuncLit{Type: e.Type, Body: r.funcBody(e.Body)}
	case *ast.CallExpr:
		return r.call(e)
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: e.Key, Value: r.expr(e.Value)}
	}
	die("%s: unhandled expression %T", r.fset.Position(e.Pos()), e)
	return nil
}

func (r *rw) read(lv ast.Expr, orig ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call("R", &ast.UnaryExpr{Op: token.AND, X: lv}, r.site(orig.Pos()))}}
}

// base rewrites the operand of a selector or index: the value when it is a pointer,
// slice or call, the place when it is addressable storage.
func (r *rw) base(e ast.Expr) ast.Expr {
	switch core(r.typ(e)).(type) {
	case *types.Struct, *types.Array:
		return r.lval(e)
	}
	return r.expr(e)
}

// recv rewrites a method receiver operand.
func (r *rw) recv(e ast.Expr, sel *types.Selection) ast.Expr {
	f, _ := sel.Obj().(*types.Func)
	if f != nil {
		sig := f.Type().(*types.Signature)
		if sig.Recv() != nil {
			_, ptr := core(sig.Recv().Type()).(*types.Pointer)
			if _, isPtr := core(r.typ(e)).(*types.Pointer); !isPtr && ptr {
				return r.lval(e) // implicitly addressed
			}
			if len(sel.Index()) > 1 { // promoted through embedded fields
				return r.base(e)
			}
		}
	}
	return r.expr(e)
}

// lval rewrites an expression used as a place, leaving the outermost access alone.
func (r *rw) lval(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.lval(e.X)}
	case *ast.Ident:
		return e
	case *ast.SelectorExpr:
		if r.info.Selections[e] == nil {
			return e
		}
		return &ast.SelectorExpr{X: r.base(e.X), Sel: e.Sel}
	case *ast.IndexExpr:
		if isMap(r.typ(e.X)) {
			return &ast.IndexExpr{X: r.expr(e.X), Index: r.mapKey(e)}
		}
		return &ast.IndexExpr{X: r.base(e.X), Index: r.expr(e.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(e.X)}
	}
	return r.expr(e)
}

func (r *rw) mapKey(e *ast.IndexExpr) ast.Expr {
	k := r.expr(e.Index)
	m := core(r.typ(e.X)).(*types.Map)
	switch core(m.Key()).(type) {
	case *types.Pointer, *types.Interface:
		if tv, ok := r.info.Types[e.Index]; ok && !tv.IsNil() && tv.Value == nil {
			return call("Key", k)
		}
	}
	return k
}

func (r *rw) call(e *ast.CallExpr) ast.Expr {
	if tv, ok := r.info.Types[e.Fun]; ok && tv.IsType() { // conversion
		return &ast.CallExpr{Fun: e.Fun, Args: r.exprs(e.Args)}
	}
	switch b := r.isBuiltin(e.Fun); b {
	case "":
	case "close":
		return call("CloseCh", r.expr(e.Args[0]))
	case "len":
		switch t := core(r.typ(e.Args[0])).(type) {
		case *types.Chan:
			if t.Dir() == types.SendOnly {
				return call("LenChS", r.expr(e.Args[0]))
			}
			return call("LenCh", r.expr(e.Args[0]))
		case *types.Map:
			return &ast.CallExpr{Fun: e.Fun, Args: []ast.Expr{call("MR", r.expr(e.Args[0]), r.site(e.Pos()))}}
		case *types.Array:
			return e
		}
		return &ast.CallExpr{Fun: e.Fun, Args: r.exprs(e.Args)}
	case "make":
		out := &ast.CallExpr{Fun: e.Fun, Args: append([]ast.Expr{e.Args[0]}, r.exprs(e.Args[1:])...)}
		if c, ok := core(r.typ(e)).(*types.Chan); ok {
			switch c.Dir() {
			case types.SendOnly:
				return call("RegS", out)
			case types.RecvOnly:
				return call("RegR", out)
			}
			return call("Reg", out)
		}
		return out
	case "new":
		return e
	default:
		return &ast.CallExpr{Fun: e.Fun, Args: r.exprs(e.Args), Ellipsis: e.Ellipsis}
	}
	return &ast.CallExpr{Fun: r.expr(e.Fun), Args: r.exprs(e.Args), Ellipsis: e.Ellipsis}
}

func (r *rw) funcBody(b *ast.BlockStmt) *ast.BlockStmt {
	saved := r.gotos
	r.gotos = map[string]bool{}
	ast.Inspect(b, func(n ast.Node) bool {
		if br, ok := n.(*ast.BranchStmt); ok && br.Tok == token.GOTO {
			r.gotos[br.Label.Name] = true
		}
		return true
	})
	out := r.block(b)
	r.gotos = saved
	return out
}

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.list(b.List)}
}

func yield() ast.Stmt { return &ast.ExprStmt{X: call("Y")} }

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		pre, m, post := r.stmt(s)
		out = append(out, yield())
		out = append(out, pre...)
		if m != nil {
			out = append(out, m)
		}
		out = append(out, post...)
	}
	return out
}

// writes lists the statements recording the writes an assignment performed.
func (r *rw) writes(lhs []ast.Expr, define bool) []ast.Stmt {
	assigned := map[string]bool{}
	for _, l := range lhs {
		if id, ok := unparen(l).(*ast.Ident); ok {
			assigned[id.Name] = true
		}
	}
	var out []ast.Stmt
	for _, l := range lhs {
		l = unparen(l)
		if id, ok := l.(*ast.Ident); ok {
			if id.Name != "_" && r.shared(id) {
				out = append(out, &ast.ExprStmt{X: call("W", &ast.UnaryExpr{Op: token.AND, X: id}, r.site(l.Pos()))})
			}
			continue
		}
		if !simple(l) {
			continue
		}
		used := map[string]bool{}
		idents(l, used)
		clash := false
		for n := range used {
			clash = clash || assigned[n]
		}
		if clash {
			continue
		}
		if ix, ok := l.(*ast.IndexExpr); ok && isMap(r.typ(ix.X)) {
			out = append(out, &ast.ExprStmt{X: call("MW", ix.X, r.site(l.Pos()))})
			continue
		}
		if r.shared(l) {
			out = append(out, &ast.ExprStmt{X: call("W", &ast.UnaryExpr{Op: token.AND, X: l}, r.site(l.Pos()))})
		}
	}
	return out
}

func (r *rw) simpleStmt(s ast.Stmt) (ast.Stmt, []ast.Stmt) {
	if s == nil {
		return nil, nil
	}
	pre, m, post := r.stmt(s)
	if len(pre) > 0 {
		die("%s: statement cannot be hoisted here", r.fset.Position(s.Pos()))
	}
	return m, post
}

func (r *rw) stmt(s ast.Stmt) (pre []ast.Stmt, m ast.Stmt, post []ast.Stmt) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				out := &ast.AssignStmt{Tok: s.Tok, Rhs: []ast.Expr{call("Recv2", r.expr(u.X))}}
				for _, l := range s.Lhs {
					out.Lhs = append(out.Lhs, r.lval(l))
				}
				return nil, out, r.writes(s.Lhs, s.Tok == token.DEFINE)
			}
		}
		out := &ast.AssignStmt{Tok: s.Tok, Rhs: r.exprs(s.Rhs)}
		for _, l := range s.Lhs {
			out.Lhs = append(out.Lhs, r.lval(l))
		}
		return nil, out, r.writes(s.Lhs, s.Tok == token.DEFINE)
	case *ast.IncDecStmt:
		return nil, &ast.IncDecStmt{X: r.lval(s.X), Tok: s.Tok}, r.writes([]ast.Expr{s.X}, false)
	case *ast.BlockStmt:
		return nil, r.block(s), nil
	case *ast.BranchStmt:
		return nil, &ast.BranchStmt{Tok: s.Tok, Label: s.Label}, nil
	case *ast.EmptyStmt:
		return nil, s, nil
	case *ast.ExprStmt:
		if c, ok := unparen(s.X).(*ast.CallExpr); ok {
			if b := r.isBuiltin(c.Fun); b == "delete" || b == "clear" {
				out := &ast.ExprStmt{X: &ast.CallExpr{Fun: c.Fun, Args: r.exprs(c.Args)}}
				if simple(c.Args[0]) && isMap(r.typ(c.Args[0])) {
					post = append(post, &ast.ExprStmt{X: call("MW", c.Args[0], r.site(c.Pos()))})
				}
				return nil, out, post
			}
		}
		return nil, &ast.ExprStmt{X: r.expr(s.X)}, nil
	case *ast.SendStmt:
		return nil, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: call("SendTo", r.expr(s.Chan)), Sel: ast.NewIdent("Do")}, Args: []ast.Expr{r.expr(s.Value)}}}, nil
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		if g.Tok != token.VAR {
			return nil, s, nil
		}
		out := &ast.GenDecl{Tok: g.Tok, TokPos: g.TokPos, Lparen: g.Lparen, Rparen: g.Rparen}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			nv := &ast.ValueSpec{Names: v.Names, Type: v.Type, Values: r.exprs(v.Values)}
			if len(v.Values) == 1 && len(v.Names) == 2 {
				if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					nv.Values = []ast.Expr{call("Recv2", r.expr(u.X))}
				}
			}
			if len(v.Values) == 0 {
				nv.Values = nil
			}
			out.Specs = append(out.Specs, nv)
		}
		return nil, &ast.DeclStmt{Decl: out}, nil
	case *ast.DeferStmt:
		return nil, &ast.DeferStmt{Call: r.asCall(s.Call)}, nil
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.IfStmt:
		return nil, r.ifStmt(s), nil
	case *ast.ForStmt:
		in, w := r.simpleStmt(s.Init)
		po, _ := r.simpleStmt(s.Post)
		f := &ast.ForStmt{Init: in, Cond: r.expr(s.Cond), Post: po, Body: r.loopBody(s.Body)}
		_ = w
		return nil, f, nil
	case *ast.LabeledStmt:
		pre, m, post = r.stmt(s.Stmt)
		if len(pre) > 0 && r.gotos[s.Label.Name] {
			die("%s: goto to a rewritten statement", r.fset.Position(s.Pos()))
		}
		if m == nil {
			m = &ast.EmptyStmt{}
		}
		return pre, &ast.LabeledStmt{Label: s.Label, Stmt: m}, post
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.ReturnStmt:
		return nil, &ast.ReturnStmt{Results: r.exprs(s.Results)}, nil
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.SwitchStmt:
		in, w := r.simpleStmt(s.Init)
		out := &ast.SwitchStmt{Init: in, Tag: r.expr(s.Tag), Body: &ast.BlockStmt{}}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			nc := &ast.CaseClause{List: r.exprs(cc.List), Body: r.list(cc.Body)}
			if cc.List == nil {
				nc.List = nil
			}
			out.Body.List = append(out.Body.List, nc)
		}
		_ = w
		return nil, out, nil
	case *ast.TypeSwitchStmt:
		in, _ := r.simpleStmt(s.Init)
		out := &ast.TypeSwitchStmt{Init: in, Body: &ast.BlockStmt{}}
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			out.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{r.expr(a.Rhs[0])}}
		case *ast.ExprStmt:
			out.Assign = &ast.ExprStmt{X: r.expr(a.X)}
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			out.Body.List = append(out.Body.List, &ast.CaseClause{List: cc.List, Body: r.list(cc.Body)})
		}
		return nil, out, nil
	}
	die("%s: unhandled statement %T", r.fset.Position(s.Pos()), s)
	return
}

func (r *rw) loopBody(b *ast.BlockStmt) *ast.BlockStmt {
	o := r.block(b)
	if len(o.List) == 0 {
		o.List = []ast.Stmt{yield()}
	}
	return o
}

func (r *rw) asCall(c *ast.CallExpr) *ast.CallExpr {
	x := r.expr(c)
	for {
		switch y := x.(type) {
		case *ast.CallExpr:
			return y
		case *ast.ParenExpr:
			x = y.X
		default:
			// e.g. a receive expression: wrap
			return &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}}}}
		}
	}
}

func (r *rw) ifStmt(s *ast.IfStmt) ast.Stmt {
	in, w := r.simpleStmt(s.Init)
	out := &ast.IfStmt{Cond: r.expr(s.Cond), Body: r.block(s.Body)}
	switch e := s.Else.(type) {
	case *ast.IfStmt:
		out.Else = r.ifStmt(e)
	case *ast.BlockStmt:
		out.Else = r.block(e)
	}
	if len(w) > 0 {
		l := append([]ast.Stmt{in}, w...)
		return &ast.BlockStmt{List: append(l, out)}
	}
	out.Init = in
	return out
}

func (r *rw) goStmt(s *ast.GoStmt) (pre []ast.Stmt, m ast.Stmt, post []ast.Stmt) {
	c := s.Call
	var b bytes.Buffer
	if _, ok := unparen(c.Fun).(*ast.FuncLit); ok {
		b.WriteString("func")
	} else {
		printer.Fprint(&b, r.fset, c.Fun)
	}
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(b.String() + "@" + r.posName(s.Pos()))}
	var defs []ast.Stmt
	def := func(e ast.Expr) ast.Expr {
		id := r.tmp("g")
		defs = append(defs, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id
	}
	inner := &ast.CallExpr{Ellipsis: c.Ellipsis}
	builtin := r.isBuiltin(c.Fun)
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		inner.Fun = &ast.ParenExpr{X: r.expr(f)}
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); ok || builtin != "" {
			inner.Fun = f
		} else {
			inner.Fun = def(r.expr(f))
		}
	case *ast.SelectorExpr:
		if r.info.Selections[f] == nil {
			inner.Fun = f
		} else {
			inner.Fun = def(r.expr(f))
		}
	default:
		inner.Fun = def(r.expr(c.Fun))
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			inner.Args = append(inner.Args, a)
			continue
		}
		inner.Args = append(inner.Args, def(r.expr(a)))
	}
	if builtin == "close" {
		inner.Fun = simSel("CloseCh")
	} else if builtin != "" && builtin != "print" && builtin != "println" && builtin != "panic" && builtin != "delete" {
		die("%s: go %s", r.fset.Position(s.Pos()), builtin)
	}
	goCall := &ast.ExprStmt{X: call("Go", name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
	if len(defs) == 0 {
		return nil, goCall, nil
	}
	return nil, &ast.BlockStmt{List: append(defs, goCall)}, nil
}

func (r *rw) rangeStmt(s *ast.RangeStmt) (pre []ast.Stmt, m ast.Stmt, post []ast.Stmt) {
	t := r.typ(s.X)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	amp := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
	switch core(t).(type) {
	case *types.Map:
		it := r.tmp("it")
		mx := call("MR", r.expr(s.X), r.site(s.Pos()))
		next := func(k, v ast.Expr) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{k, v}}
		}
		nilid := ast.NewIdent("nil")
		if s.Tok == token.DEFINE && !(blank(s.Key) && blank(s.Value)) {
			lhs, fn := []ast.Expr{it}, "IterKV"
			k, v := ast.Expr(nilid), ast.Expr(nilid)
			switch {
			case blank(s.Value):
				fn = "IterK"
				lhs = append(lhs, s.Key)
				k = amp(s.Key)
			case blank(s.Key):
				fn = "IterV"
				lhs = append(lhs, s.Value)
				v = amp(s.Value)
			default:
				lhs = append(lhs, s.Key, s.Value)
				k, v = amp(s.Key), amp(s.Value)
			}
			return nil, &ast.ForStmt{Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(fn, mx)}}, Cond: next(k, v), Body: r.loopBody(s.Body)}, nil
		}
		k, v := ast.Expr(nilid), ast.Expr(nilid)
		if !blank(s.Key) {
			k = amp(r.lval(s.Key))
		}
		if !blank(s.Value) {
			v = amp(r.lval(s.Value))
		}
		return nil, &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Iter", mx)}}, Cond: next(k, v), Body: r.loopBody(s.Body)}, nil
	case *types.Chan:
		ch, ok := r.tmp("c"), r.tmp("ok")
		var key ast.Expr = ast.NewIdent("_")
		if !blank(s.Key) {
			if s.Tok != token.DEFINE {
				die("%s: range over channel assigning to an existing variable", r.fset.Position(s.Pos()))
			}
			key = s.Key
		}
		return nil, &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ch, key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("RangeRecv", r.expr(s.X))}},
			Cond: ok,
			Post: &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call("Recv2", ch)}},
			Body: r.loopBody(s.Body)}, nil
	}
	out := &ast.RangeStmt{Key: s.Key, Value: s.Value, Tok: s.Tok, X: r.expr(s.X), Body: r.loopBody(s.Body)}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			out.Key = r.lval(s.Key)
		}
		if s.Value != nil {
			out.Value = r.lval(s.Value)
		}
	}
	return nil, out, nil
}

func (r *rw) selectStmt(s *ast.SelectStmt) (pre []ast.Stmt, m ast.Stmt, post []ast.Stmt) {
	hasDef := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	args := []ast.Expr{nil}
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef = "true"
			nc.Body = r.list(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		id := r.tmp("s")
		var body []ast.Stmt
		recvOf := func(e ast.Expr) ast.Expr {
			u, ok := unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				die("%s: receive expected", r.fset.Position(e.Pos()))
			}
			return call("OnRecvCase", r.expr(u.X))
		}
		var def ast.Expr
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			def = &ast.CallExpr{Fun: &ast.SelectorExpr{X: call("OnSendCase", r.expr(x.Chan)), Sel: ast.NewIdent("V")}, Args: []ast.Expr{r.expr(x.Value)}}
		case *ast.ExprStmt:
			def = recvOf(x.X)
		case *ast.AssignStmt:
			def = recvOf(x.Rhs[0])
			as := &ast.AssignStmt{Tok: x.Tok}
			for _, l := range x.Lhs {
				as.Lhs = append(as.Lhs, r.lval(l))
			}
			if len(x.Lhs) == 1 {
				as.Rhs = []ast.Expr{&ast.SelectorExpr{X: id, Sel: ast.NewIdent("Val")}}
			} else {
				as.Rhs = []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: id, Sel: ast.NewIdent("Get")}}}
			}
			body = append(body, as)
			body = append(body, r.writes(x.Lhs, x.Tok == token.DEFINE)...)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{def}})
		args = append(args, id)
		nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		nc.Body = append(body, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
		idx++
	}
	args[0] = ast.NewIdent(hasDef)
	sw.Tag = call("Select", args...)
	if hasDef == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"sim: select"`}}}}}})
	}
	return pre, sw, nil
}
