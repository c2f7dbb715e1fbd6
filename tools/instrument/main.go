// Command instrument type-checks packages of wego and writes a copy of their sources in which every
// goroutine start, channel operation, use of sync, sync/atomic and math/rand, map iteration and (unless
// -mem=false) access to shared memory goes through the runtime in lib/vs. It also writes the overlay file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rt = "github.com/ynqa/wego/verifrt/"

var (
	repo    = flag.String("repo", "/repo", "root of wego")
	out     = flag.String("out", "", "scratch directory")
	libdir  = flag.String("lib", "/verif/lib", "runtime")
	mem     = flag.Bool("mem", true, "instrument memory accesses")
	harness = flag.String("harness", "", "comma-separated NAME=DIR of harness packages")
	none    = flag.Bool("none", false, "no instrumentation at all, only the overlay")
	cmds    = flag.Bool("cmds", false, "also the packages of the commands; their file operations become scheduling points")
	extra   = flag.String("extra", "", "comma-separated TARGET=FILE of further overlay entries")
)

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(1)
}

var sites []string
var siteNum []bool

func main() {
	flag.Parse()
	replace := map[string]string{}
	rtdir := filepath.Join(*repo, "verifrt")
	addTree := func(dst, src string) {
		filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
				rel, _ := filepath.Rel(src, p)
				replace[filepath.Join(dst, rel)] = p
			}
			return nil
		})
	}
	addTree(rtdir, *libdir)
	for _, h := range strings.Split(*harness, ",") {
		if k, v, ok := strings.Cut(h, "="); ok {
			addTree(filepath.Join(rtdir, k), v)
		}
	}
	for _, h := range strings.Split(*extra, ",") {
		if k, v, ok := strings.Cut(h, "="); ok {
			replace[k] = v
		}
	}
	if !*none {
		instrument(replace, rtdir)
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
}

func instrument(replace map[string]string, rtdir string) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard,Module,Error", "./pkg/...")
	if *cmds {
		cmd.Args = append(cmd.Args, "./cmd/...")
	}
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var todo []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, "github.com/ynqa/wego/pkg") || *cmds && strings.HasPrefix(p.ImportPath, "github.com/ynqa/wego/cmd") || strings.HasPrefix(p.ImportPath, "golang.org/x/sync/") {
			todo = append(todo, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	n := 0
	for _, p := range todo {
		var files []*ast.File
		var heads []string
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			heads = append(heads, buildLine(src))
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		pkg, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type-check %s: %v", p.ImportPath, err)
		}
		isWego := strings.HasPrefix(p.ImportPath, "github.com/ynqa/wego")
		var globals []string
		for i, f := range files {
			r := &rewriter{fset: fset, info: info, pkg: pkg, mem: *mem && isWego, base: *repo, keep: map[string]string{}}
			r.file(f)
			if isWego {
				globals = append(globals, r.globals...)
			}
			if i == len(files)-1 && len(globals) > 0 {
				var l []ast.Stmt
				for _, g := range globals {
					l = append(l, &ast.ExprStmt{X: r.rt("RegG", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(g)})})
				}
				f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}})
			}
			var b bytes.Buffer
			if heads[i] != "" {
				b.WriteString(heads[i] + "\n\n")
			}
			f.Comments = nil
			cfg := printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}
			if err := cfg.Fprint(&b, token.NewFileSet(), f); err != nil {
				die("print: %v", err)
			}
			n++
			dst := filepath.Join(*out, fmt.Sprintf("i%03d_%s", n, p.GoFiles[i]))
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			if isWego {
				replace[filepath.Join(p.Dir, p.GoFiles[i])] = dst
			} else {
				replace[filepath.Join(rtdir, "xsync", strings.TrimPrefix(p.ImportPath, "golang.org/x/sync/"), p.GoFiles[i])] = dst
			}
		}
	}
	var b strings.Builder
	b.WriteString("package vs\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n\tSiteNum = []bool{\n")
	for _, s := range siteNum {
		fmt.Fprintf(&b, "\t\t%v,\n", s)
	}
	b.WriteString("\t}\n}\n")
	dst := filepath.Join(*out, "sites_gen.go")
	os.WriteFile(dst, []byte(b.String()), 0o644)
	replace[filepath.Join(rtdir, "vs", "sites_gen.go")] = dst
	fmt.Printf("instrumented %d files of %d packages, %d memory access sites\n", n, len(todo), len(sites))
}

func buildLine(src []byte) string {
	for _, l := range strings.Split(string(src), "\n") {
		if constraint.IsGoBuild(l) {
			return l
		}
		if strings.HasPrefix(l, "package ") {
			break
		}
	}
	return ""
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	mem     bool
	base    string
	shared  map[types.Object]bool
	globals []string
	ntmp    int
	keep    map[string]string
	inFunc  int
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.ntmp++
	return ast.NewIdent(fmt.Sprintf("%s__%d", s, r.ntmp))
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

// rt makes a call of the runtime.
func (r *rewriter) rt(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("vs__"), Sel: id(fn)}, Args: args}
}

func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)} }

// numeric tells whether values of type t are numbers of the kinds shared
// parameters consist of; a type parameter is if all of its type set is.
func numeric(t types.Type) bool {
	if tp, ok := t.(*types.TypeParam); ok {
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		return ok && numericSet(it)
	}
	if bt, ok := t.Underlying().(*types.Basic); ok {
		switch bt.Kind() {
		case types.Float32, types.Float64, types.Uint64, types.Uint32:
			return true
		}
	}
	return false
}

// numericSet tells whether the type set of the interface is restricted to
// numeric types.
func numericSet(it *types.Interface) bool {
	for i := 0; i < it.NumEmbeddeds(); i++ {
		switch e := it.EmbeddedType(i).(type) {
		case *types.Union:
			all := e.Len() > 0
			for j := 0; j < e.Len(); j++ {
				all = all && numeric(e.Term(j).Type())
			}
			if all {
				return true
			}
		default:
			if in, ok := e.Underlying().(*types.Interface); ok {
				if numericSet(in) {
					return true
				}
			} else if numeric(e) {
				return true
			}
		}
	}
	return false
}

func (r *rewriter) site(e ast.Node, t types.Type) ast.Expr {
	p := r.fset.Position(e.Pos())
	f := strings.TrimPrefix(p.Filename, r.base+"/")
	var b bytes.Buffer
	printer.Fprint(&b, r.fset, e)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	sites = append(sites, fmt.Sprintf("%s:%d %s", f, p.Line, s))
	num := t != nil && numeric(t)
	siteNum = append(siteNum, num)
	return intLit(len(sites) - 1)
}

// ---------------------------------------------------------------- file level

var subst = map[string]string{
	"sync":        rt + "vsync",
	"sync/atomic": rt + "vatomic",
	"math/rand":   rt + "vrand",

	"math/rand/v2": rt + "vrand2",
}

func (r *rewriter) file(f *ast.File) {
	names := map[string]string{"sync": "sync", "sync/atomic": "atomic", "math/rand": "rand", "math/rand/v2": "rand"}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path := strings.Trim(is.Path.Value, `"`)
			to, ok := subst[path]
			if !ok && strings.HasPrefix(path, "golang.org/x/sync/") {
				to, ok = rt+"xsync/"+strings.TrimPrefix(path, "golang.org/x/sync/"), true
			}
			if ok {
				if is.Name == nil {
					if n := names[path]; n != "" {
						is.Name = id(n)
					}
				}
				is.Path.Value = `"` + to + `"`
			}
			local := ""
			if is.Name != nil {
				local = is.Name.Name
			}
			switch path {
			case "time":
				if local == "" {
					local = "time"
				}
				r.keep[local] = "Now"
			case "context":
				if local == "" {
					local = "context"
				}
				r.keep[local] = "Background"
			case "runtime":
				if local == "" {
					local = "runtime"
				}
				r.keep[local] = "Gosched"
			}
		}
	}
	r.shared = map[types.Object]bool{}
	if r.mem {
		r.findShared(f)
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.inFunc++
				r.block(d.Body)
				r.inFunc--
				if d.Name.Name == "NextRandom" && d.Recv == nil {
					r.drawSeam(d)
				}
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vspec := s.(*ast.ValueSpec)
					r.valueSpec(vspec)
					for _, n := range vspec.Names {
						if n.Name != "_" {
							r.globals = append(r.globals, n.Name)
						}
					}
				}
			}
		}
	}
	r.timers(f)
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("vs__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + rt + `vs"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	blank := func(x ast.Expr) {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{x}}}})
	}
	blank(&ast.SelectorExpr{X: id("vs__"), Sel: id("On")})
	var ks []string
	for k := range r.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k != "_" && k != "." {
			blank(&ast.SelectorExpr{X: id(k), Sel: id(r.keep[k])})
		}
	}
}

// timed are the types and functions of package time and context that depend on time.
var timed = map[string]bool{"time.Timer": true, "time.Ticker": true, "time.NewTimer": true, "time.NewTicker": true, "time.After": true,
	"time.AfterFunc": true, "time.Tick": true, "context.WithTimeout": true, "context.WithDeadline": true}

// timers replaces them.
func (r *rewriter) timers(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if o := r.info.Uses[s.Sel]; o != nil && o.Pkg() != nil && timed[o.Pkg().Path()+"."+o.Name()] && o.Parent() == o.Pkg().Scope() {
				s.X = id("vs__")
			}
		}
		return true
	})
}

// drawSeam lets the harness supply the draws of modelutil.NextRandom.
func (r *rewriter) drawSeam(d *ast.FuncDecl) {
	ps := d.Type.Params
	if ps == nil || len(ps.List) != 1 || len(ps.List[0].Names) != 1 || d.Type.Results == nil || len(d.Type.Results.List) != 1 {
		return
	}
	isInt := func(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "int" }
	if !isInt(ps.List[0].Type) || !isInt(d.Type.Results.List[0].Type) {
		return
	}
	v, ok := id("v__"), id("ok__")
	d.Body.List = append([]ast.Stmt{&ast.IfStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rt("Draw", id(ps.List[0].Names[0].Name))}},
		Cond: id("ok__"),
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{id("v__")}}}},
	}}, d.Body.List...)
}

// findShared marks local variables that another goroutine may reach: captured by a function literal and
// assigned after their declaration, or with their address taken.
func (r *rewriter) findShared(f *ast.File) {
	declIn := map[types.Object]ast.Node{}
	captured := map[types.Object]bool{}
	assigned := map[types.Object]bool{}
	root := func(e ast.Expr) *ast.Ident {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return x
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if s := r.info.Selections[x]; s != nil && s.Kind() == types.FieldVal && !isPtr(r.info.TypeOf(x.X)) {
					e = x.X
					continue
				}
				return nil
			case *ast.IndexExpr:
				if _, ok := r.info.TypeOf(x.X).Underlying().(*types.Array); ok {
					e = x.X
					continue
				}
				return nil
			default:
				return nil
			}
		}
	}
	obj := func(i *ast.Ident) types.Object {
		if i == nil {
			return nil
		}
		if o := r.info.Uses[i]; o != nil {
			return o
		}
		return r.info.Defs[i]
	}
	var fns []ast.Node
	cur := func() ast.Node {
		if len(fns) == 0 {
			return nil
		}
		return fns[len(fns)-1]
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				fns = append(fns, m)
				walk(m)
				fns = fns[:len(fns)-1]
				return false
			case *ast.Ident:
				if o, ok := r.info.Defs[m].(*types.Var); ok && !o.IsField() {
					declIn[o] = cur()
				}
				if o, ok := r.info.Uses[m].(*types.Var); ok && !o.IsField() {
					if d, has := declIn[o]; has && d != cur() {
						captured[o] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range m.Lhs {
					if i := root(l); i != nil && (m.Tok != token.DEFINE || r.info.Defs[i] == nil) {
						assigned[obj(i)] = true
					}
				}
			case *ast.IncDecStmt:
				assigned[obj(root(m.X))] = true
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{m.Key, m.Value} {
					if l != nil {
						assigned[obj(root(l))] = true
					}
				}
			case *ast.UnaryExpr:
				if m.Op == token.AND {
					if i := root(m.X); i != nil {
						r.shared[obj(i)] = true
					}
				}
			}
			return true
		})
	}
	walk(f)
	for o := range captured {
		if assigned[o] {
			r.shared[o] = true
		}
	}
	delete(r.shared, nil)
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rewriter) isShared(i *ast.Ident) bool {
	if !r.mem || r.inFunc == 0 {
		return false
	}
	v, ok := r.info.Uses[i].(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Pkg() == r.pkg && v.Parent() == r.pkg.Scope() {
		return true
	}
	return r.shared[v]
}

// ---------------------------------------------------------------- expressions

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// star makes *vs.FN(&x, site).
func (r *rewriter) star(fn string, x ast.Expr, orig ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.rt(fn, &ast.UnaryExpr{Op: token.AND, X: x}, r.site(orig, r.info.TypeOf(orig)))}}
}

// addressable reports whether e may be the operand of &.
func (r *rewriter) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		if i, isID := e.(*ast.Ident); isID {
			_, isVar := r.info.Uses[i].(*types.Var)
			return isVar
		}
		return false
	}
	return tv.Addressable()
}

// lv rewrites an addressable expression without noting an access to it; shared tells whether an access
// to it has to be noted.
func (r *rewriter) lv(e ast.Expr) (ast.Expr, bool) {
	switch x := e.(type) {
	case *ast.Ident:
		return x, r.isShared(x)
	case *ast.ParenExpr:
		y, s := r.lv(x.X)
		return &ast.ParenExpr{X: y}, s
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return x, false // variable of another package
		}
		if sel.Kind() != types.FieldVal {
			return r.rv(e), false
		}
		if isPtr(r.info.TypeOf(x.X)) {
			return &ast.SelectorExpr{X: r.rv(x.X), Sel: x.Sel}, r.mem
		}
		if !r.addressable(x.X) {
			return &ast.SelectorExpr{X: r.rv(x.X), Sel: x.Sel}, sel.Indirect() && r.mem
		}
		y, s := r.lv(x.X)
		return &ast.SelectorExpr{X: y, Sel: x.Sel}, s || sel.Indirect() && r.mem
	case *ast.IndexExpr:
		t := r.info.TypeOf(x.X)
		if t == nil {
			return e, false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return &ast.IndexExpr{X: r.rv(x.X), Index: r.rv(x.Index)}, r.mem
		case *types.Pointer:
			return &ast.IndexExpr{X: r.rv(x.X), Index: r.rv(x.Index)}, r.mem
		case *types.Array:
			_ = u
			if r.addressable(x.X) {
				y, s := r.lv(x.X)
				return &ast.IndexExpr{X: y, Index: r.rv(x.Index)}, s
			}
		case *types.Map:
			return &ast.IndexExpr{X: r.mapAcc("MapR", x.X), Index: r.rv(x.Index)}, false
		}
		return &ast.IndexExpr{X: r.rv(x.X), Index: r.rv(x.Index)}, false
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.rv(x.X)}, r.mem
	}
	return r.rv(e), false
}

func (r *rewriter) mapAcc(fn string, m ast.Expr) ast.Expr {
	if !r.mem || r.inFunc == 0 {
		return r.rv(m)
	}
	return r.rt(fn, r.rv(m), r.site(m, nil))
}

func (r *rewriter) rvs(l []ast.Expr) []ast.Expr {
	for i := range l {
		l[i] = r.rv(l[i])
	}
	return l
}

// rv rewrites an expression whose value is used.
func (r *rewriter) rv(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsType() || tv.IsBuiltin() || tv.IsNil()) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if r.isShared(x) {
			return r.star("R", x, x)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.rv(x.X)}
	case *ast.FuncLit:
		r.inFunc++
		r.block(x.Body)
		r.inFunc--
		return x
	case *ast.CompositeLit:
		_, isStruct := under(r.info.TypeOf(x)).(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.rvElt(kv.Key)
				}
				kv.Value = r.rvElt(kv.Value)
			} else {
				x.Elts[i] = r.rvElt(el)
			}
		}
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return r.rt("Recv", r.rv(x.X))
		case token.AND:
			if _, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: token.AND, X: r.rv(x.X)}
			}
			y, _ := r.lv(x.X)
			return &ast.UnaryExpr{Op: token.AND, X: y}
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.rv(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.rv(x.X), Op: x.Op, Y: r.rv(x.Y)}
	case *ast.StarExpr, *ast.IndexExpr:
		if ix, ok := x.(*ast.IndexExpr); ok {
			if tv, ok := r.info.Types[ix.X]; ok && !tv.IsValue() {
				return e // instantiated function or type
			}
			if _, ok := under(r.info.TypeOf(ix.X)).(*types.Signature); ok {
				return e
			}
		}
		y, s := r.lv(e)
		if s && r.inFunc > 0 {
			return r.star("R", y, e)
		}
		return y
	case *ast.IndexListExpr:
		return e
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return x
		}
		if sel.Kind() == types.MethodVal {
			return r.method(x, sel)
		}
		if sel.Kind() == types.MethodExpr {
			return x
		}
		y, s := r.lv(e)
		if s && r.inFunc > 0 {
			return r.star("R", y, e)
		}
		return y
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: r.rv(x.Low), High: r.rv(x.High), Max: r.rv(x.Max), Slice3: x.Slice3}
		if _, ok := under(r.info.TypeOf(x.X)).(*types.Array); ok {
			n.X, _ = r.lv(x.X)
		} else {
			n.X = r.rv(x.X)
		}
		return n
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.rv(x.X), Type: x.Type}
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

func (r *rewriter) rvElt(e ast.Expr) ast.Expr {
	if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
		return r.rv(c)
	}
	return r.rv(e)
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// method rewrites the receiver of a method value or call.
func (r *rewriter) method(x *ast.SelectorExpr, sel *types.Selection) ast.Expr {
	sig, _ := sel.Obj().Type().(*types.Signature)
	if sig != nil && sig.Recv() != nil && isPtr(sig.Recv().Type()) && !isPtr(r.info.TypeOf(x.X)) && r.addressable(x.X) {
		y, shared := r.lv(x.X)
		if shared && r.mem && r.inFunc > 0 && stateful(r.info.TypeOf(x.X)) {
			return &ast.SelectorExpr{X: r.state(&ast.UnaryExpr{Op: token.AND, X: y}, x, readsState[x.Sel.Name]), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: y, Sel: x.Sel}
	}
	if p, ok := r.info.TypeOf(x.X).(*types.Pointer); ok && r.mem && r.inFunc > 0 && stateful(p.Elem()) {
		return &ast.SelectorExpr{X: r.state(r.rv(x.X), x, readsState[x.Sel.Name]), Sel: x.Sel}
	}
	return &ast.SelectorExpr{X: r.rv(x.X), Sel: x.Sel}
}

// statefulTypes are types of other modules that have state which calls change and which is not protected:
// every call counts as an access to the whole value.
var statefulTypes = map[string]bool{"bytes.Buffer": true, "bytes.Reader": true, "strings.Builder": true, "strings.Reader": true,
	"bufio.Writer": true, "bufio.Reader": true, "bufio.ReadWriter": true, "bufio.Scanner": true, "container/list.List": true, "container/ring.Ring": true,
	"text/tabwriter.Writer": true, "text/scanner.Scanner": true, "go/scanner.Scanner": true, "encoding/csv.Reader": true, "encoding/csv.Writer": true,
	"encoding/json.Encoder": true, "encoding/json.Decoder": true, "encoding/gob.Encoder": true, "encoding/gob.Decoder": true, "hash/maphash.Hash": true,
	"math/rand.Rand": true, "math/rand.Zipf": true, "math/rand/v2.Rand": true, "math/rand/v2.Zipf": true, "math/big.Int": true, "math/big.Float": true, "math/big.Rat": true, "github.com/olekukonko/tablewriter.Table": true}

// readsState are the names of their methods that change nothing.
var readsState = map[string]bool{"String": true, "Len": true, "Bytes": true, "Cap": true, "Available": true, "Size": true, "Buffered": true,
	"Text": true, "Err": true, "Sum64": true, "Front": true, "Back": true}

func stateful(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && statefulTypes[o.Pkg().Path()+"."+o.Name()]
}

// state notes an access to the value that p points to.
func (r *rewriter) state(p ast.Expr, at ast.Node, read bool) ast.Expr {
	fn := "StateW"
	if read {
		fn = "StateR"
	}
	return r.rt(fn, p, r.site(at, nil))
}

func (r *rewriter) builtinName(e ast.Expr) string {
	if i, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) call(x *ast.CallExpr) ast.Expr {
	n := &ast.CallExpr{Ellipsis: x.Ellipsis}
	rec := r.mem && r.inFunc > 0
	switch b := r.builtinName(x.Fun); b {
	case "":
	case "new", "make":
		n.Fun = x.Fun
		n.Args = append(n.Args, x.Args[0])
		for _, a := range x.Args[1:] {
			n.Args = append(n.Args, r.rv(a))
		}
		return n
	case "len", "cap":
		if b == "len" && r.isChan(x.Args[0]) {
			return r.rt("Len", r.rv(x.Args[0]))
		}
		if r.isMap(x.Args[0]) {
			n.Fun, n.Args = x.Fun, []ast.Expr{r.mapAcc("MapR", x.Args[0])}
			return n
		}
	case "close":
		return r.rt("Close", r.rv(x.Args[0]))
	case "delete":
		n.Fun, n.Args = x.Fun, []ast.Expr{r.mapAcc("MapW", x.Args[0]), r.rv(x.Args[1])}
		return n
	case "clear":
		if r.isMap(x.Args[0]) {
			n.Fun, n.Args = x.Fun, []ast.Expr{r.mapAcc("MapW", x.Args[0])}
			return n
		}
		if rec {
			n.Fun, n.Args = x.Fun, []ast.Expr{r.rt("WS", r.rv(x.Args[0]), intLit(-1), r.site(x, elem(r.info.TypeOf(x.Args[0]))))}
			return n
		}
	case "copy":
		if _, ok := under(r.info.TypeOf(x.Args[1])).(*types.Slice); ok && rec {
			d, s := r.rv(x.Args[0]), r.rv(x.Args[1])
			et := elem(r.info.TypeOf(x.Args[0]))
			var cnt ast.Expr = intLit(-1)
			if simple(x.Args[1]) {
				cnt = &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{x.Args[1]}}
			}
			n.Fun = x.Fun
			n.Args = []ast.Expr{r.rt("WS", d, cnt, r.site(x, et)), r.rt("RS", s, r.site(x, et))}
			return n
		}
	case "append":
		if rec && len(x.Args) > 1 {
			if st, ok := under(r.info.TypeOf(x.Args[0])).(*types.Slice); ok && !r.isNil(x.Args[0]) {
				s0 := r.rv(x.Args[0])
				n.Fun = x.Fun
				if x.Ellipsis == token.NoPos {
					n.Args = []ast.Expr{r.rt("App", s0, intLit(len(x.Args)-1), r.site(x, st.Elem()))}
					for _, a := range x.Args[1:] {
						n.Args = append(n.Args, r.rv(a))
					}
					return n
				}
				src := r.rv(x.Args[1])
				if _, ok := under(r.info.TypeOf(x.Args[1])).(*types.Slice); ok && !r.isNil(x.Args[1]) {
					src = r.rt("RS", src, r.site(x, st.Elem()))
					if simple(x.Args[1]) {
						s0 = r.rt("App", s0, &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{x.Args[1]}}, r.site(x, st.Elem()))
					}
				}
				n.Args = []ast.Expr{s0, src}
				n.Ellipsis = 1
				return n
			}
		}
	}
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() {
		n.Fun, n.Args = x.Fun, r.rvs(append([]ast.Expr{}, x.Args...))
		return n
	}
	if s, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
		if fn, ok := r.info.Uses[s.Sel].(*types.Func); ok {
			switch fn.FullName() {
			case "time.Sleep":
				return r.rt("Sleep", r.rvs(append([]ast.Expr{}, x.Args...))...)
			case "runtime.Gosched":
				return r.rt("Yield")
			case "(time.Time).UnixNano":
				return r.rt("Nanos", r.rv(s.X))
			case "(time.Time).Unix", "(time.Time).UnixMilli", "(time.Time).UnixMicro":
				return r.rt("Coarse", r.rv(s.X))
			case "(time.Time).Nanosecond":
				return &ast.CallExpr{Fun: id("int"), Args: []ast.Expr{r.rt("Nanos", r.rv(s.X))}}
			}
			if fn.Pkg() != nil && fn.Pkg().Path() == "os" && sysCall(fn) && strings.HasPrefix(r.pkg.Path(), "github.com/ynqa/wego/cmd") {
				args := []ast.Expr{r.rv(x.Fun), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fn.Name())}}
				if fn.Type().(*types.Signature).Recv() != nil && simple(s.X) {
					args = append(args, r.rv(s.X))
				}
				n.Fun = r.rt("Sys", args...)
				n.Args = r.rvs(append([]ast.Expr{}, x.Args...))
				if n.Ellipsis != token.NoPos {
					n.Ellipsis = 1
				}
				return n
			}
		}
	}
	n.Fun = r.rv(x.Fun)
	n.Args = r.rvs(append([]ast.Expr{}, x.Args...))
	if rec && r.foreign(x.Fun) {
		for i, a := range x.Args {
			if p, ok := r.info.TypeOf(a).(*types.Pointer); ok && stateful(p.Elem()) {
				n.Args[i] = r.state(n.Args[i], a, false)
			}
		}
	}
	if n.Ellipsis != token.NoPos {
		n.Ellipsis = 1
	}
	return n
}

// foreign tells whether a called function is one of another module.
func (r *rewriter) foreign(f ast.Expr) bool {
	var i *ast.Ident
	switch f := ast.Unparen(f).(type) {
	case *ast.SelectorExpr:
		i = f.Sel
	case *ast.Ident:
		i = f
	}
	if i == nil {
		return false
	}
	fn, ok := r.info.Uses[i].(*types.Func)
	return ok && fn.Pkg() != nil && !strings.HasPrefix(fn.Pkg().Path(), "github.com/ynqa/wego")
}

// sysCall tells whether a function of package os looks at or changes files.
func sysCall(fn *types.Func) bool {
	sig := fn.Type().(*types.Signature)
	if rc := sig.Recv(); rc != nil {
		return strings.HasSuffix(rc.Type().String(), "os.File")
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if sig.Results().At(i).Type().String() == "error" {
			return true
		}
	}
	return false
}

func (r *rewriter) isNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsNil()
}

func elem(t types.Type) types.Type {
	if s, ok := under(t).(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// simple expressions may be evaluated twice.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

// ---------------------------------------------------------------- statements

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func (r *rewriter) valueSpec(s *ast.ValueSpec) {
	if len(s.Names) == 2 && len(s.Values) == 1 {
		if c := r.recv2(s.Values[0]); c != nil {
			s.Values[0] = c
			return
		}
	}
	s.Values = r.rvs(s.Values)
}

func (r *rewriter) recv2(e ast.Expr) ast.Expr {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.rt("Recv2", r.rv(u.X))
	}
	return nil
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// target rewrites an assigned expression in place: fn notes the access.
func (r *rewriter) target(e ast.Expr, fn string) ast.Expr {
	if isBlank(e) {
		return e
	}
	if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		return &ast.IndexExpr{X: r.mapAcc("MapW", ix.X), Index: r.rv(ix.Index)}
	}
	y, s := r.lv(e)
	if s && r.inFunc > 0 {
		return r.star(fn, y, e)
	}
	return y
}

func (r *rewriter) assign(x *ast.AssignStmt) ast.Stmt {
	if x.Tok == token.DEFINE {
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if c := r.recv2(x.Rhs[0]); c != nil {
				x.Rhs[0] = c
				return x
			}
		}
		x.Rhs = r.rvs(x.Rhs)
		return x
	}
	if x.Tok != token.ASSIGN {
		return &ast.AssignStmt{Lhs: []ast.Expr{r.target(x.Lhs[0], "RW")}, Tok: x.Tok, Rhs: r.rvs(x.Rhs)}
	}
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		l := x.Lhs[0]
		if !isBlank(l) {
			if ix, ok := ast.Unparen(l).(*ast.IndexExpr); !ok || !r.isMap(ix.X) {
				y, s := r.lv(l)
				if s && r.inFunc > 0 {
					at := r.rt("At", &ast.UnaryExpr{Op: token.AND, X: y}, r.site(l, r.info.TypeOf(l)))
					return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: at, Sel: id("Set")}, Args: []ast.Expr{r.rv(x.Rhs[0])}}}
				}
				return &ast.AssignStmt{Lhs: []ast.Expr{y}, Tok: x.Tok, Rhs: []ast.Expr{r.rv(x.Rhs[0])}}
			}
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{r.target(l, "W")}, Tok: x.Tok, Rhs: []ast.Expr{r.rv(x.Rhs[0])}}
	}
	n := &ast.AssignStmt{Tok: x.Tok}
	for _, l := range x.Lhs {
		n.Lhs = append(n.Lhs, r.target(l, "W"))
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if c := r.recv2(x.Rhs[0]); c != nil {
			n.Rhs = []ast.Expr{c}
			return n
		}
	}
	n.Rhs = r.rvs(x.Rhs)
	return n
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.CaseClause:
		x.List = r.rvs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				r.valueSpec(sp.(*ast.ValueSpec))
			}
		}
	case *ast.DeferStmt:
		c := r.call(x.Call)
		return &ast.DeferStmt{Call: r.asCall(c)}
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.rv(x.X)}
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.rv(x.Cond)
		x.Post = r.stmt(x.Post)
		r.block(x.Body)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.rv(x.Cond)
		r.block(x.Body)
		x.Else = r.stmt(x.Else)
	case *ast.IncDecStmt:
		return &ast.IncDecStmt{X: r.target(x.X, "RW"), Tok: x.Tok}
	case *ast.LabeledStmt:
		in := r.stmt(x.Stmt)
		if b, ok := in.(*ast.BlockStmt); ok {
			if _, was := x.Stmt.(*ast.BlockStmt); !was {
				// the loop is the last statement of the block that replaced it.
				b.List[len(b.List)-1] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[len(b.List)-1]}
				return b
			}
		}
		x.Stmt = in
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.ReturnStmt:
		x.Results = r.rvs(x.Results)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.SendStmt:
		c := r.rt("C", r.rv(x.Chan))
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: c, Sel: id("Send")}, Args: []ast.Expr{r.rv(x.Value)}}}
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Tag = r.rv(x.Tag)
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			a.X = r.rv(a.X)
		case *ast.AssignStmt:
			a.Rhs = r.rvs(a.Rhs)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
	}
	return s
}

func (r *rewriter) asCall(e ast.Expr) *ast.CallExpr {
	if c, ok := ast.Unparen(e).(*ast.CallExpr); ok {
		return c
	}
	return &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}}
}

func funcLit(body ...ast.Stmt) *ast.FuncLit {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func define(l, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *rewriter) goName(x *ast.GoStmt) ast.Expr {
	p := r.fset.Position(x.Pos())
	what := "func"
	switch f := ast.Unparen(x.Call.Fun).(type) {
	case *ast.Ident:
		what = f.Name
	case *ast.SelectorExpr:
		what = f.Sel.Name
	}
	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", fmt.Sprintf("%s(%s:%d)", what, filepath.Base(p.Filename), p.Line))}
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	name := r.goName(x)
	if fl, ok := ast.Unparen(x.Call.Fun).(*ast.FuncLit); ok && len(x.Call.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: r.rt("Go", r.rv(fl), name)}
	}
	b := &ast.BlockStmt{}
	c := &ast.CallExpr{Ellipsis: x.Call.Ellipsis}
	if c.Ellipsis != token.NoPos {
		c.Ellipsis = 1
	}
	builtin := r.builtinName(x.Call.Fun)
	if builtin != "" {
		c.Fun = x.Call.Fun
	} else if i, ok := ast.Unparen(x.Call.Fun).(*ast.Ident); ok && isFuncObj(r.info.Uses[i]) {
		c.Fun = i
	} else {
		f := r.tmp("f")
		b.List = append(b.List, define(f, r.rv(x.Call.Fun)))
		c.Fun = f
	}
	for _, a := range x.Call.Args {
		if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			c.Args = append(c.Args, a)
			continue
		}
		t := r.tmp("a")
		b.List = append(b.List, define(t, r.rv(a)))
		c.Args = append(c.Args, t)
	}
	var body ast.Stmt = &ast.ExprStmt{X: c}
	if builtin == "close" {
		body = &ast.ExprStmt{X: r.rt("Close", c.Args...)}
	}
	b.List = append(b.List, &ast.ExprStmt{X: r.rt("Go", funcLit(body), name)})
	return b
}

func isFuncObj(o types.Object) bool { _, ok := o.(*types.Func); return ok }

func (r *rewriter) capturedIn(o types.Object, n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if f, ok := m.(*ast.FuncLit); ok {
			ast.Inspect(f, func(k ast.Node) bool {
				if i, ok := k.(*ast.Ident); ok && r.info.Uses[i] == o {
					found = true
				}
				return true
			})
			return false
		}
		return true
	})
	return found
}

// sharedDef is the identifier that e defines, if other goroutines may reach its variable.
func (r *rewriter) sharedDef(e ast.Expr) *ast.Ident {
	if i, ok := e.(*ast.Ident); ok && r.shared[r.info.Defs[i]] {
		return i
	}
	return nil
}

// starDef is the variable of a definition as the target of a noted assignment.
func (r *rewriter) starDef(i *ast.Ident) ast.Expr {
	return &ast.StarExpr{X: r.rt("W", &ast.UnaryExpr{Op: token.AND, X: i}, r.site(i, r.info.Defs[i].Type()))}
}

func (r *rewriter) loopVar(i *ast.Ident) ast.Expr {
	if r.sharedDef(i) != nil {
		return r.starDef(i)
	}
	return i
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	if x.Key != nil && isBlank(x.Key) {
		x.Key = nil
	}
	if x.Value != nil && isBlank(x.Value) {
		x.Value = nil
	}
	t := r.info.TypeOf(x.X)
	def := x.Tok == token.DEFINE
	switch u := under(t).(type) {
	case *types.Chan:
		c, ok := r.tmp("c"), r.tmp("ok")
		var v ast.Expr = id("_")
		var pre []ast.Stmt
		var out []ast.Stmt
		var chanVar *ast.Ident
		if x.Key != nil {
			if ki, isID := x.Key.(*ast.Ident); def && isID && r.shared[r.info.Defs[ki]] {
				// one variable for all rounds, which other goroutines may reach.
				tv, ci := r.tmp("v"), r.tmp("r")
				v = tv
				out = append(out, define(ci, r.rv(x.X)), define(ki, r.rt("ZeroC", ci)))
				x.X, chanVar = ci, ci
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.starDef(ki)}, Tok: token.ASSIGN, Rhs: []ast.Expr{tv}})
			} else if def {
				v = x.Key
			} else {
				tv := r.tmp("v")
				v = tv
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.target(x.Key, "W")}, Tok: token.ASSIGN, Rhs: []ast.Expr{tv}})
			}
		}
		r.block(x.Body)
		x.Body.List = append(pre, x.Body.List...)
		var from ast.Expr = chanVar
		if chanVar == nil {
			from = r.rv(x.X)
		}
		loop := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{c, v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rt("Range1", from)}},
			Cond: ok,
			Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.rt("Recv2", c)}},
			Body: x.Body,
		}
		if out == nil {
			return loop
		}
		return &ast.BlockStmt{List: append(out, loop)}
	case *types.Map:
		m := r.tmp("m")
		k := r.tmp("k")
		b := &ast.BlockStmt{List: []ast.Stmt{define(m, r.rv(x.X))}}
		var pre []ast.Stmt
		pre = append(pre, &ast.IfStmt{
			Cond: &ast.UnaryExpr{Op: token.NOT, X: r.rt("Has", m, k)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
		})
		elt := &ast.IndexExpr{X: m, Index: k}
		if def {
			if x.Key != nil {
				ki := x.Key.(*ast.Ident)
				if r.capturedIn(r.info.Defs[ki], x.Body) {
					b.List = append(b.List, define(ki, r.rt("ZeroK", m)))
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.loopVar(ki)}, Tok: token.ASSIGN, Rhs: []ast.Expr{k}})
				} else {
					pre = append(pre, define(ki, k))
				}
			}
			if x.Value != nil {
				vi := x.Value.(*ast.Ident)
				if r.capturedIn(r.info.Defs[vi], x.Body) {
					b.List = append(b.List, define(vi, r.rt("ZeroV", m)))
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.loopVar(vi)}, Tok: token.ASSIGN, Rhs: []ast.Expr{elt}})
				} else {
					pre = append(pre, define(vi, elt))
				}
			}
		} else {
			if x.Key != nil {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.target(x.Key, "W")}, Tok: token.ASSIGN, Rhs: []ast.Expr{k}})
			}
			if x.Value != nil {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.target(x.Value, "W")}, Tok: token.ASSIGN, Rhs: []ast.Expr{elt}})
			}
		}
		keys := r.rt("KeysOf", m, r.site(x.X, nil))
		r.block(x.Body)
		x.Body.List = append(pre, x.Body.List...)
		b.List = append(b.List, &ast.RangeStmt{Key: id("_"), Value: k, Tok: token.DEFINE, X: keys, Body: x.Body})
		return b
	case *types.Slice:
		if !r.mem || !def {
			break
		}
		kid, vid := r.sharedDef(x.Key), r.sharedDef(x.Value)
		if x.Value == nil && kid == nil {
			break
		}
		sv := r.tmp("s")
		b := &ast.BlockStmt{List: []ast.Stmt{define(sv, r.rv(x.X))}}
		var pre []ast.Stmt
		var key ast.Expr = x.Key
		if key == nil || kid != nil {
			key = r.tmp("i")
		}
		if kid != nil {
			// one variable for all rounds, which other goroutines may reach.
			b.List = append(b.List, define(kid, intLit(0)))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.starDef(kid)}, Tok: token.ASSIGN, Rhs: []ast.Expr{key}})
		}
		if x.Value == nil {
			r.block(x.Body)
			x.Body.List = append(pre, x.Body.List...)
			b.List = append(b.List, &ast.RangeStmt{Key: key, Tok: token.DEFINE, X: sv, Body: x.Body})
			return b
		}
		rd := r.rt("R", &ast.UnaryExpr{Op: token.AND, X: &ast.IndexExpr{X: sv, Index: key}}, r.site(x.X, u.Elem()))
		if vid != nil {
			b.List = append(b.List, define(vid, r.rt("ZeroE", sv)))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.starDef(vid)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.StarExpr{X: rd}}})
			r.block(x.Body)
			x.Body.List = append(pre, x.Body.List...)
			b.List = append(b.List, &ast.RangeStmt{Key: key, Tok: token.DEFINE, X: sv, Body: x.Body})
			return b
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.StarExpr{X: rd}}})
		r.block(x.Body)
		x.Body.List = append(pre, x.Body.List...)
		b.List = append(b.List, &ast.RangeStmt{Key: key, Value: x.Value, Tok: token.DEFINE, X: sv, Body: x.Body})
		return b
	}
	var pre []ast.Stmt
	for _, l := range []ast.Expr{x.Key, x.Value} {
		i, ok := l.(*ast.Ident)
		if ok && def && r.shared[r.info.Defs[i]] {
			pre = append(pre, &ast.ExprStmt{X: r.rt("W", &ast.UnaryExpr{Op: token.AND, X: i}, r.site(i, r.info.Defs[i].Type()))})
		}
	}
	x.X = r.rv(x.X)
	if !def {
		if x.Key != nil {
			x.Key = r.target(x.Key, "W")
		}
		if x.Value != nil {
			x.Value = r.target(x.Value, "W")
		}
	}
	if x.Key == nil && x.Value != nil {
		x.Key = id("_")
	}
	r.block(x.Body)
	x.Body.List = append(pre, x.Body.List...)
	return x
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: r.rt("Block")}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var names, vals []ast.Expr
	hasDef := "false"
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: intLit(1)}}, Body: r.stmts(cc.Body)})
			continue
		}
		n := r.tmp("c")
		var pre []ast.Stmt
		var val ast.Expr
		recv := func(e ast.Expr) ast.Expr {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			return r.rt("RecvCase", r.rv(u.X))
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			val = &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.rt("C", r.rv(cm.Chan)), Sel: id("Case")}, Args: []ast.Expr{r.rv(cm.Value)}}
		case *ast.ExprStmt:
			val = recv(cm.X)
		case *ast.AssignStmt:
			val = recv(cm.Rhs[0])
			m := "V"
			if len(cm.Lhs) == 2 {
				m = "VOK"
			}
			a := &ast.AssignStmt{Tok: cm.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: n, Sel: id(m)}}}}
			for _, l := range cm.Lhs {
				if cm.Tok == token.DEFINE {
					a.Lhs = append(a.Lhs, l)
				} else {
					a.Lhs = append(a.Lhs, r.target(l, "W"))
				}
			}
			pre = append(pre, a)
		}
		names = append(names, n)
		vals = append(vals, val)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(idx)}, Body: append(pre, r.stmts(cc.Body)...)})
		idx++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	sw.Tag = r.rt("Select", append([]ast.Expr{id(hasDef)}, names...)...)
	return sw
}
