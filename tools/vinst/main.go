// vinst instruments the repository's non-test sources for the explorer and writes a go build overlay.
//
// usage: vinst -repo /repo -verif /verif -out DIR [-raw]
//
// It rewrites what the code does with goroutines, locks, atomics, channels, clocks and map iteration into
// calls of the explorer's runtime, adds step counters, and makes package-level variables resettable.
// With -raw only the harness is laid over the repository and the sources stay as they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/zijiren233/gencontainer"
const vrt = module + "/zz_verif/vrt/"

var shimPath = map[string]string{
	"sync":                  vrt + "sync",
	"sync/atomic":           vrt + "atomic",
	"time":                  vrt + "time",
	"runtime":               vrt + "runtime",
	"maps":                  vrt + "maps",
	"golang.org/x/exp/maps": vrt + "xmaps",
}

var shimSyms = map[string]map[string]bool{}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vinst:", err)
		os.Exit(3)
	}
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	out := flag.String("out", "", "")
	raw := flag.Bool("raw", false, "")
	flag.Parse()
	overlay := map[string]string{}
	must(os.MkdirAll(*out, 0o755))

	// the runtime and the harness, as virtual directories of the module
	for _, d := range []string{"vrt", "harness"} {
		root := filepath.Join(*verif, d)
		must(filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			rel, _ := filepath.Rel(*verif, p)
			overlay[filepath.Join(*repo, "zz_verif", rel)] = p
			return nil
		}))
	}
	mode := filepath.Join(*out, "mode.go")
	must(os.WriteFile(mode, []byte(fmt.Sprintf("package core\n\nconst Instrumented = %v\n", !*raw)), 0o644))
	overlay[filepath.Join(*repo, "zz_verif/vrt/core/mode.go")] = mode

	if !*raw {
		loadShims(filepath.Join(*verif, "vrt"))
		instrument(*repo, *out, overlay)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func loadShims(dir string) {
	for orig, p := range shimPath {
		syms := map[string]bool{}
		d := filepath.Join(dir, strings.TrimPrefix(p, vrt))
		fset := token.NewFileSet()
		es, err := os.ReadDir(d)
		must(err)
		for _, e := range es {
			f, err := parser.ParseFile(fset, filepath.Join(d, e.Name()), nil, 0)
			must(err)
			for _, dec := range f.Decls {
				switch dec := dec.(type) {
				case *ast.FuncDecl:
					if dec.Recv == nil && dec.Name.IsExported() {
						syms[dec.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range dec.Specs {
						if t, ok := s.(*ast.TypeSpec); ok && t.Name.IsExported() {
							syms[t.Name.Name] = true
						}
					}
				}
			}
		}
		shimSyms[orig] = syms
	}
}

func instrument(repo, out string, overlay map[string]string) {
	cmd := exec.Command("go", "list", "-mod=readonly", "-e=false", "-export", "-deps", "-json=ImportPath,Dir,Export,Standard,GoFiles", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "GOFLAGS=-buildvcs=false")
	b, err := cmd.Output()
	must(err)
	exports := map[string]string{}
	var mine []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/") {
			mine = append(mine, p)
		}
	}
	for _, p := range mine {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if e := exports[path]; e != "" {
				return os.Open(e)
			}
			return nil, fmt.Errorf("no export data for %s", path)
		})
		var files []*ast.File
		var names []string
		for _, n := range p.GoFiles {
			if ok, _ := build.Default.MatchFile(p.Dir, n); !ok {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
			must(err)
			files = append(files, f)
			names = append(names, n)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.22"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		must(err)
		for i, f := range files {
			r := &rewriter{info: info, pkg: tp, file: f, imports: map[string]string{}, fset: fset}
			r.run()
			src := r.print(i)
			rel, _ := filepath.Rel(repo, filepath.Join(p.Dir, names[i]))
			dst := filepath.Join(out, "inst", rel)
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, src, 0o644))
			overlay[filepath.Join(p.Dir, names[i])] = dst
		}
	}
}

type rewriter struct {
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	fset    *token.FileSet
	imports map[string]string // shim alias -> path
	n       int
	core    bool
	resets  []reset

	replaced  map[ast.Expr]ast.Expr
	two       map[*ast.UnaryExpr]bool
	comm      map[ast.Node]bool
	kept      map[string]bool
	chanArgs  map[*ast.CallExpr]bool
	rangeKind map[*ast.RangeStmt]byte
	goFun     map[*ast.GoStmt]types.Object
	goMethod  map[*ast.GoStmt]bool
	goConst   map[*ast.GoStmt]map[int]bool
}

type reset struct {
	idx int
	lhs []string
	rhs ast.Expr // nil: zero value of typ
	typ ast.Expr
}

const coreAlias = "zzcore"

func (r *rewriter) tmp(s string) string { r.n++; return fmt.Sprintf("zz%s%d", s, r.n) }
func id(s string) *ast.Ident            { return ast.NewIdent(s) }
func (r *rewriter) coreSel(s string) ast.Expr {
	r.core = true
	return &ast.SelectorExpr{X: id(coreAlias), Sel: id(s)}
}
func (r *rewriter) coreCall(s string, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.coreSel(s), Args: a}
}
func sel(x ast.Expr, s string) ast.Expr            { return &ast.SelectorExpr{X: x, Sel: id(s)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func es(e ast.Expr) ast.Stmt                       { return &ast.ExprStmt{X: e} }
func define(l []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rhs}
}
func assign(l []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: rhs}
}
func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || (ok && i.Name == "_")
}

// coreType is the underlying type, looking through type parameters with a single underlying type.
func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		var u types.Type
		iface := tp.Constraint().Underlying().(*types.Interface)
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			e := iface.EmbeddedType(i)
			if un, ok := e.(*types.Union); ok {
				if un.Len() == 1 {
					u = un.Term(0).Type().Underlying()
				}
			} else if _, isI := e.Underlying().(*types.Interface); !isI {
				u = e.Underlying()
			} else if ii := e.Underlying().(*types.Interface); ii.NumEmbeddeds() == 1 {
				if un, ok := ii.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
					u = un.Term(0).Type().Underlying()
				}
			}
		}
		if u != nil {
			return u
		}
	}
	return t.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := coreType(r.info.TypeOf(e)).(*types.Chan)
	return ok
}
func (r *rewriter) isMap(e ast.Expr) bool {
	_, ok := coreType(r.info.TypeOf(e)).(*types.Map)
	return ok
}

func (r *rewriter) run() {
	r.replaced, r.two, r.comm, r.kept = map[ast.Expr]ast.Expr{}, map[*ast.UnaryExpr]bool{}, map[ast.Node]bool{}, map[string]bool{}
	r.chanArgs, r.rangeKind = map[*ast.CallExpr]bool{}, map[*ast.RangeStmt]byte{}
	r.goFun, r.goMethod, r.goConst = map[*ast.GoStmt]types.Object{}, map[*ast.GoStmt]bool{}, map[*ast.GoStmt]map[int]bool{}
	// package-level variables, in initialisation order
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name != "_" {
						r.resets = append(r.resets, reset{-1, []string{n.Name}, nil, vs.Type})
					}
				}
			}
		}
	}
	for i, in := range r.info.InitOrder {
		if len(in.Lhs) == 0 || in.Lhs[0].Pos() < r.file.FileStart || in.Lhs[0].Pos() > r.file.FileEnd {
			continue
		}
		var ns []string
		use := false
		for _, v := range in.Lhs {
			ns = append(ns, v.Name())
			use = use || v.Name() != "_"
		}
		if use {
			r.resets = append(r.resets, reset{i, ns, in.Rhs, nil})
		}
	}
	// rewrite
	v := reflect.ValueOf(r.file)
	r.walk(v)
	for i := range r.resets { // initialisers that were replaced as a whole
		if r.resets[i].rhs != nil {
			if e, ok := r.replaced[r.resets[i].rhs]; ok {
				r.resets[i].rhs = e
			}
		} else if e, ok := r.replaced[r.resets[i].typ]; ok {
			r.resets[i].typ = e
		}
	}
	r.fixImports()
}

// walk visits the tree and rewrites every expression and statement after its children.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return
		case *ast.File:
			for _, d := range n.Decls {
				r.walk(reflect.ValueOf(d))
			}
			return
		case ast.Node:
			r.pre(n)
			if v.Kind() == reflect.Pointer {
				r.walkStruct(v.Elem())
			} else {
				r.walkStruct(v.Elem().Elem())
			}
			r.post(n)
			if v.Kind() == reflect.Interface && v.CanSet() {
				switch n := v.Interface().(type) {
				case ast.Expr:
					if e := r.expr(n); e != n {
						if !reflect.TypeOf(e).AssignableTo(v.Type()) {
							must(fmt.Errorf("cannot replace %T", n))
						}
						v.Set(reflect.ValueOf(e))
						r.replaced[n] = e
					}
				case ast.Stmt:
					if s := r.stmt(n); s != n {
						v.Set(reflect.ValueOf(s))
					}
				}
			}
		default:
			if v.Kind() == reflect.Pointer {
				r.walkStruct(v.Elem())
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Struct:
		r.walkStruct(v)
	}
}

func (r *rewriter) walkStruct(v reflect.Value) {
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Struct:
			r.walk(f)
		}
	}
}

func (r *rewriter) pre(n ast.Node) {
	switch n := n.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			r.mark2(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.mark2(n.Values[0])
		}
	case *ast.CallExpr:
		if b := r.builtin(n.Fun); (b == "len" || b == "cap") && r.isChan(n.Args[0]) {
			r.chanArgs[n] = true
		}
	case *ast.RangeStmt:
		if r.isMap(n.X) {
			r.rangeKind[n] = 'm'
		} else if r.isChan(n.X) {
			r.rangeKind[n] = 'c'
		}
	case *ast.GoStmt:
		r.goFun[n] = r.callee(n.Call)
		if se, ok := unparen(n.Call.Fun).(*ast.SelectorExpr); ok && r.info.Selections[se] != nil {
			r.goMethod[n] = true
		}
		r.goConst[n] = map[int]bool{}
		for i, a := range n.Call.Args {
			tv := r.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				r.goConst[n][i] = true
			}
		}
	case *ast.SelectStmt:
		for _, c := range n.Body.List {
			cc := c.(*ast.CommClause)
			switch s := cc.Comm.(type) {
			case *ast.ExprStmt:
				r.markComm(s.X)
			case *ast.AssignStmt:
				r.markComm(s.Rhs[0])
			case *ast.SendStmt:
				r.comm[s] = true
			}
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) mark2(e ast.Expr) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.two[u] = true
	}
}
func (r *rewriter) markComm(e ast.Expr) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.comm[u] = true
	}
}

// post handles nodes rewritten in place.
func (r *rewriter) post(n ast.Node) {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Body != nil {
			n.Body.List = append([]ast.Stmt{es(r.coreCall("Call"))}, n.Body.List...)
		}
	case *ast.FuncLit:
		n.Body.List = append([]ast.Stmt{es(r.coreCall("Call"))}, n.Body.List...)
	case *ast.ForStmt:
		n.Body.List = append([]ast.Stmt{es(r.coreCall("Loop"))}, n.Body.List...)
	}
}

func (r *rewriter) pkgName(e ast.Expr) *types.PkgName {
	i, ok := e.(*ast.Ident)
	if !ok {
		return nil
	}
	p, _ := r.info.Uses[i].(*types.PkgName)
	return p
}

func (r *rewriter) builtin(e ast.Expr) string {
	i, ok := unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	b, ok := r.info.Uses[i].(*types.Builtin)
	if !ok {
		return ""
	}
	return b.Name()
}

func (r *rewriter) callee(c *ast.CallExpr) types.Object {
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		return r.info.Uses[f]
	case *ast.SelectorExpr:
		return r.info.Uses[f.Sel]
	}
	return nil
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		if p := r.pkgName(e.X); p != nil {
			path := p.Imported().Path()
			if shimSyms[path][e.Sel.Name] {
				alias := "zzv" + strings.NewReplacer("/", "", ".", "", "golangorg", "").Replace(path)
				r.imports[alias] = shimPath[path]
				return sel(id(alias), e.Sel.Name)
			}
			r.kept[p.Imported().Path()] = true
		}
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.coreSel("Chan"), Index: e.Value}}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			if r.comm[e] {
				return e
			}
			if r.two[e] {
				return call(sel(e.X, "Recv2"))
			}
			return call(sel(e.X, "Recv"))
		}
	case *ast.CallExpr:
		switch r.builtin(e.Fun) {
		case "make":
			if _, ok := coreType(r.info.TypeOf(e)).(*types.Chan); ok {
				n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
				if len(e.Args) > 1 {
					n = call(id("int"), e.Args[1])
				}
				st, ok := e.Args[0].(*ast.StarExpr)
				if !ok {
					must(fmt.Errorf("make of a named channel type"))
				}
				return call(&ast.IndexExpr{X: r.coreSel("NewChan"), Index: st.X.(*ast.IndexExpr).Index}, n)
			}
		case "close":
			return call(sel(e.Args[0], "Close"))
		case "len":
			if r.chanArg(e) {
				return call(sel(e.Args[0], "Len"))
			}
		case "cap":
			if r.chanArg(e) {
				return call(sel(e.Args[0], "Cap"))
			}
		case "":
			if tv, ok := r.info.Types[ast.Expr(e)]; ok && tv.Type != nil {
				if ch, ok := tv.Type.Underlying().(*types.Chan); ok && ch != nil {
					if o := r.callee(e); o != nil && o.Pkg() != nil && shimPath[o.Pkg().Path()] == "" &&
						o.Pkg().Path() != module && !strings.HasPrefix(o.Pkg().Path(), module+"/") {
						return r.coreCall("Ext", e)
					}
				}
			}
		}
	}
	return e
}

func (r *rewriter) chanArg(e *ast.CallExpr) bool { return r.chanArgs[e] }

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		if !r.comm[s] {
			return es(call(sel(s.Chan, "Send"), s.Value))
		}
	case *ast.GoStmt:
		c := s.Call
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			return es(r.coreCall("Go", fl))
		}
		b := &ast.BlockStmt{}
		fun := c.Fun
		if _, isFunc := r.goFun[s].(*types.Func); !isFunc || r.goMethod[s] {
			t := r.tmp("f")
			b.List = append(b.List, define([]ast.Expr{id(t)}, c.Fun))
			fun = id(t)
		}
		nc := &ast.CallExpr{Fun: fun, Ellipsis: c.Ellipsis}
		for i, a := range c.Args {
			if r.goConst[s] != nil && r.goConst[s][i] {
				nc.Args = append(nc.Args, a)
				continue
			}
			t := r.tmp("a")
			b.List = append(b.List, define([]ast.Expr{id(t)}, a))
			nc.Args = append(nc.Args, id(t))
		}
		b.List = append(b.List, es(r.coreCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{es(nc)}}})))
		return b
	case *ast.RangeStmt:
		loop := es(r.coreCall("Loop"))
		switch r.rangeKind[s] {
		case 'm':
			t := r.tmp("e")
			var pre []ast.Stmt
			pre = append(pre, loop, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call(sel(id(t), "Live"))},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
			var l, rh []ast.Expr
			if !blank(s.Key) {
				l, rh = append(l, s.Key), append(rh, sel(id(t), "K"))
			}
			if !blank(s.Value) {
				l, rh = append(l, s.Value), append(rh, call(sel(id(t), "V")))
			}
			if len(l) > 0 {
				if s.Tok == token.DEFINE {
					pre = append(pre, define(l, rh...))
				} else {
					pre = append(pre, assign(l, rh...))
				}
			}
			return &ast.RangeStmt{Key: id("_"), Value: id(t), Tok: token.DEFINE, X: r.coreCall("MapEntries", s.X),
				Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}}
		case 'c':
			c, ok := r.tmp("c"), r.tmp("ok")
			var pre []ast.Stmt
			var key ast.Expr = id("_")
			if !blank(s.Key) {
				key = s.Key
			}
			if s.Tok == token.DEFINE || blank(s.Key) {
				pre = append(pre, define([]ast.Expr{key, id(ok)}, call(sel(id(c), "Recv2"))))
			} else {
				pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}},
					assign([]ast.Expr{key, id(ok)}, call(sel(id(c), "Recv2"))))
			}
			pre = append(pre, loop, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			return &ast.ForStmt{Init: define([]ast.Expr{id(c)}, s.X), Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}}
		default:
			s.Body.List = append([]ast.Stmt{loop}, s.Body.List...)
		}
	case *ast.SelectStmt:
		sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
		var ls, rs, args []ast.Expr
		hasDef := "false"
		n := 0
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			nc := &ast.CaseClause{}
			if cc.Comm == nil {
				hasDef = "true"
				nc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
				nc.Body = cc.Body
				sw.Body.List = append(sw.Body.List, nc)
				continue
			}
			t := r.tmp("s")
			ls, args = append(ls, id(t)), append(args, id(t))
			nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
			n++
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				rs = append(rs, r.coreCall("S", m.Chan, m.Value))
			case *ast.ExprStmt:
				rs = append(rs, r.coreCall("R", unparen(m.X).(*ast.UnaryExpr).X))
			case *ast.AssignStmt:
				rs = append(rs, r.coreCall("R", unparen(m.Rhs[0]).(*ast.UnaryExpr).X))
				rh := []ast.Expr{sel(id(t), "Val")}
				if len(m.Lhs) == 2 {
					rh = append(rh, sel(id(t), "OK"))
				}
				nc.Body = append(nc.Body, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rh})
			}
			nc.Body = append(nc.Body, cc.Body...)
			sw.Body.List = append(sw.Body.List, nc)
		}
		if len(ls) > 0 {
			sw.Init = define(ls, rs...)
		}
		sw.Tag = r.coreCall("Select", append([]ast.Expr{id(hasDef)}, args...)...)
		return sw
	}
	return s
}

func (r *rewriter) fixImports() {
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			if shimPath[p] != "" && !r.kept[p] && (is.Name == nil || (is.Name.Name != "." && is.Name.Name != "_")) {
				is.Name = id("_")
			}
		}
	}
	add := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1}
	var as []string
	for a := range r.imports {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		add.Specs = append(add.Specs, &ast.ImportSpec{Name: id(a), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.imports[a])}})
	}
	if len(r.resets) > 0 {
		r.core = true
	}
	if r.core {
		add.Specs = append(add.Specs, &ast.ImportSpec{Name: id(coreAlias), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vrt + "core")}})
	}
	if len(add.Specs) > 0 {
		r.file.Decls = append([]ast.Decl{add}, r.file.Decls...)
	}
}

func (r *rewriter) print(fi int) []byte {
	stripComments(r.file)
	r.file.Comments = nil
	var b bytes.Buffer
	cfg := printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}
	// positions of moved nodes would confuse the printer's line logic: print with a fresh file set
	must(cfg.Fprint(&b, token.NewFileSet(), r.file))
	if len(r.resets) > 0 {
		sort.SliceStable(r.resets, func(i, j int) bool { return r.resets[i].idx < r.resets[j].idx })
		fmt.Fprintf(&b, "\n\nfunc init() {\n")
		for _, x := range r.resets {
			fmt.Fprintf(&b, "\t%s.RegisterReset(%q, %d, func() { %s = ", coreAlias, r.pkg.Path(), x.idx, strings.Join(x.lhs, ", "))
			if x.rhs == nil {
				b.WriteString("*new(")
				must(cfg.Fprint(&b, token.NewFileSet(), x.typ))
				b.WriteString(")")
			} else {
				must(cfg.Fprint(&b, token.NewFileSet(), x.rhs))
			}
			b.WriteString(" })\n")
		}
		b.WriteString("}\n")
	}
	return b.Bytes()
}

func stripComments(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}
