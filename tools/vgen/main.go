// vgen instruments the working tree of the repository under test without
// touching it: every non-test Go file is rewritten into OUT so that its
// synchronisation, time, networking, goroutines, channel operations and map
// iterations go through the harness (vsched and friends), and an overlay file
// maps the originals to the rewritten files and adds the harness packages.
//
//	vgen -repo /repo -harness /verif/harness -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "/internal/zverif/"

var module string

var shims = map[string]string{
	"net": "vnet", "sync": "vsync", "sync/atomic": "vatomic", "time": "vtime", "context": "vctx",
}

func main() {
	repo := flag.String("repo", "/repo", "")
	harness := flag.String("harness", "/verif/harness", "")
	out := flag.String("out", "", "")
	flag.Parse()
	if err := run(*repo, *harness, *out); err != nil {
		fmt.Fprintln(os.Stderr, "vgen:", err)
		os.Exit(2)
	}
}

func run(repo, harness, out string) error {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
	}
	overlay := map[string]string{}
	if err := os.MkdirAll(filepath.Join(out, "gen"), 0o755); err != nil {
		return err
	}
	exports := listExports(repo)

	dirs := map[string][]string{}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "zverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	names := make([]string, 0, len(dirs))
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	n := 0
	for _, d := range names {
		rel, _ := filepath.Rel(repo, d)
		if rel == "testutil" {
			continue
		}
		if err := rewriteDir(d, dirs[d], exports, "", func(src string, body []byte) error {
			n++
			dst := filepath.Join(out, "gen", fmt.Sprintf("f%03d_%s", n, filepath.Base(src)))
			overlay[src] = dst
			return os.WriteFile(dst, body, 0o644)
		}); err != nil {
			return err
		}
		if rel == filepath.Join("cmd", "router") {
			// the same program as a package the harness can call
			if err := rewriteDir(d, dirs[d], exports, "routermain", func(src string, body []byte) error {
				dst := filepath.Join(out, "gen", "r_"+filepath.Base(src))
				overlay[filepath.Join(repo, "internal/zverif/routermain", filepath.Base(src))] = dst
				return os.WriteFile(dst, body, 0o644)
			}); err != nil {
				return err
			}
		}
	}
	// the harness packages
	err = filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		// the repository's language version would otherwise apply
		dst := filepath.Join(out, "gen", "h_"+strings.ReplaceAll(rel, "/", "_"))
		head := "//go:build go1.24\n\n"
		if rest, ok := bytes.CutPrefix(b, []byte("//go:build ")); ok {
			tag, body, _ := bytes.Cut(rest, []byte("\n"))
			head, b = "//go:build go1.24 && ("+string(tag)+")\n", body
		}
		if err := os.WriteFile(dst, append([]byte(head), bytes.ReplaceAll(b, []byte("go.f110.dev/go-memcached/"), []byte(module+"/"))...), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repo, "internal/zverif", rel)] = dst
		return nil
	})
	if err != nil {
		return err
	}
	for pkg, shim := range map[string]string{"context": "vctx", "net": "vnet", "time": "vtime", "sync": "vsync", "sync/atomic": "vatomic", "log": "vlog", "os": "vos"} {
		b, err := aliases(pkg, shim, filepath.Join(harness, shim))
		if err != nil {
			return err
		}
		dst := filepath.Join(out, "gen", "h_"+shim+"_alias.go")
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repo, "internal/zverif", shim, "zz_alias.go")] = dst
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

func listExports(repo string) map[string]string {
	m := map[string]string{}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./...", "net", "time", "sync", "sync/atomic", "log", "os", "context")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	b, _ := cmd.Output()
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 2 && f[1] != "" {
			m[f[0]] = f[1]
		}
	}
	return m
}

var exp map[string]string

func imp(fset *token.FileSet) types.Importer {
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
}

// aliases re-exports everything of pkg that the shim does not define itself.
func aliases(pkg, shim, dir string) ([]byte, error) {
	fset := token.NewFileSet()
	own := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					own[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := imp(fset).Import(pkg)
	if err != nil {
		return nil, err
	}
	var sb bytes.Buffer
	fmt.Fprintf(&sb, "//go:build go1.24\n\npackage %s\n\nimport real %q\n\n", shim, pkg)
	used := false
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&sb, "type %s = real.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&sb, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&sb, "var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&sb, "var %s = real.%s\n", n, n)
		}
		used = true
	}
	if !used {
		return []byte("//go:build go1.24\n\npackage " + shim + "\n"), nil
	}
	return sb.Bytes(), nil
}

type rw struct {
	info *types.Info
	fset *token.FileSet
	n    int
	used bool

	extra map[string]string
}

func rewriteDir(dir string, files []string, exports map[string]string, pkg string, emit func(string, []byte) error) error {
	exp = exports
	fset := token.NewFileSet()
	type pf struct {
		path string
		f    *ast.File
		head string
	}
	var all []pf
	byPkg := map[string][]*ast.File{}
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return err
		}
		head := ""
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "package ") {
				break
			}
			if strings.HasPrefix(l, "//go:build") {
				head = l + "\n\n"
			}
		}
		all = append(all, pf{p, f, head})
		byPkg[f.Name.Name] = append(byPkg[f.Name.Name], f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	for _, fs := range byPkg {
		cfg := types.Config{Importer: imp(fset), Error: func(error) {}}
		_, _ = cfg.Check(dir, fset, fs, info)
	}
	for _, p := range all {
		r := &rw{info: info, fset: fset}
		if pkg != "" {
			if p.f.Name.Name != "main" {
				continue
			}
			p.f.Name = id(pkg)
			r.extra = map[string]string{"log": "vlog", "os": "vos"}
			for _, d := range p.f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					fd.Name = id("Main")
				}
			}
		}
		r.file(p.f)
		var sb bytes.Buffer
		sb.WriteString(p.head)
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&sb, fset, p.f); err != nil {
			return err
		}
		if err := emit(p.path, sb.Bytes()); err != nil {
			return err
		}
	}
	return nil
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(n string) ast.Expr  { return &ast.SelectorExpr{X: id("zvsched"), Sel: id(n)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func lit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (r *rw) tmp(p string) string {
	r.n++
	return fmt.Sprintf("zv%s%d", p, r.n)
}

func (r *rw) file(f *ast.File) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		s, ok := shims[p]
		if !ok {
			s, ok = r.extra[p]
		}
		if !ok {
			continue
		}
		if im.Name == nil {
			im.Name = id(p[strings.LastIndex(p, "/")+1:])
		}
		im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(module + base + s)}
		im.EndPos = 0
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: id("zvsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(module + base + "vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rw) isChan(e ast.Expr) bool {
	if t := r.typ(e); t != nil {
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	return false
}

func (r *rw) isMap(e ast.Expr) bool {
	if t := r.typ(e); t != nil {
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	return false
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) builtin(fun ast.Expr, name string) bool {
	i, ok := fun.(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	if o := r.info.Uses[i]; o != nil {
		_, b := o.(*types.Builtin)
		return b
	}
	return true
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			x := r.expr(e.X)
			r.used = true
			return call(sel("Recv"), x)
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			if r.builtin(e.Fun, "close") {
				r.used = true
				return call(sel("Close"), r.expr(e.Args[0]))
			}
			if r.builtin(e.Fun, "len") && r.isChan(e.Args[0]) {
				r.used = true
				return call(sel("Len"), r.expr(e.Args[0]))
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	}
	return e
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

// list rewrites the statements of a block and puts a point between them at
// which, where a check asks for it, another goroutine may run.
func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
		default:
			r.used = true
			out = append(out, &ast.ExprStmt{X: call(sel("Stmt"))})
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) (ast.Expr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if x, ok := recvOf(s.Rhs[0]); ok {
				r.used = true
				r.exprs(s.Lhs)
				s.Rhs[0] = call(sel("Recv2"), r.expr(x))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.list(s.Body)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if x, ok := recvOf(v.Values[0]); ok {
							r.used = true
							v.Values[0] = call(sel("Recv2"), r.expr(x))
							continue
						}
					}
					r.exprs(v.Values)
				}
			}
		}
	case *ast.DeferStmt:
		c := r.expr(s.Call)
		s.Call = c.(*ast.CallExpr)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		if s.Post != nil {
			s.Post = r.stmt(s.Post)
		}
		r.block(s.Body)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.SendStmt:
		r.used = true
		return &ast.ExprStmt{X: call(sel("Send"), r.expr(s.Chan), r.expr(s.Value))}
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Tag = r.expr(s.Tag)
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	}
	return s
}

func (r *rw) inlineArg(a ast.Expr) bool {
	if tv, ok := r.info.Types[a]; ok {
		if tv.Value != nil || tv.IsNil() {
			return true
		}
	}
	switch x := a.(type) {
	case *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "true" || x.Name == "false"
	}
	return false
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	r.used = true
	var pre []ast.Stmt
	keep := func(e ast.Expr) ast.Expr {
		t := r.tmp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id(t)
	}
	fun := s.Call.Fun
	switch f := unparen(fun).(type) {
	case *ast.FuncLit:
		r.block(f.Body)
	case *ast.Ident:
	case *ast.SelectorExpr:
		pkg := false
		if x, ok := f.X.(*ast.Ident); ok {
			_, pkg = r.info.Uses[x].(*types.PkgName)
		}
		if !pkg {
			fun = keep(r.expr(fun))
		}
	default:
		fun = keep(r.expr(fun))
	}
	args := make([]ast.Expr, len(s.Call.Args))
	for i, a := range s.Call.Args {
		in := r.inlineArg(a)
		a = r.expr(a)
		if !in {
			a = keep(a)
		}
		args[i] = a
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: s.Call.Ellipsis}
	if r.builtin(fun, "close") {
		inner = call(sel("Close"), args...)
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}
	st := &ast.ExprStmt{X: call(sel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}
	if len(pre) == 0 {
		return st
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	m, c := r.isMap(s.X), r.isChan(s.X)
	s.X = r.expr(s.X)
	r.block(s.Body)
	bind := func(k ast.Expr, v ast.Expr) []ast.Stmt {
		if blank(k) {
			return nil
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: s.Tok, Rhs: []ast.Expr{v}}}
	}
	switch {
	case m:
		r.used = true
		t := r.tmp("e")
		var pre []ast.Stmt
		pre = append(pre, &ast.IfStmt{
			Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: id(t), Sel: id("Live")})},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
		})
		pre = append(pre, bind(s.Key, &ast.SelectorExpr{X: id(t), Sel: id("K")})...)
		pre = append(pre, bind(s.Value, call(&ast.SelectorExpr{X: id(t), Sel: id("Val")}))...)
		return &ast.RangeStmt{Key: id("_"), Value: id(t), Tok: token.DEFINE, X: call(sel("Entries"), s.X),
			Body: &ast.BlockStmt{List: append(pre, s.Body)}}
	case c:
		r.used = true
		t := r.tmp("r")
		pre := bind(s.Key, &ast.SelectorExpr{X: id(t), Sel: id("V")})
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel("RC"), s.X)}},
			Cond: call(&ast.SelectorExpr{X: id(t), Sel: id("Next")}),
			Body: &ast.BlockStmt{List: append(pre, s.Body)},
		}
	}
	return s
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.used = true
	var lhs, rhs []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	def := "false"
	args := []ast.Expr{nil}
	n := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			cc.Body = r.list(cc.Body)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(-1)}, Body: cc.Body})
			continue
		}
		t := r.tmp("c")
		lhs = append(lhs, id(t))
		args = append(args, id(t))
		var pre []ast.Stmt
		field := func(f string) ast.Expr { return &ast.SelectorExpr{X: id(t), Sel: id(f)} }
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(sel("SC"), r.expr(c.Chan), r.expr(c.Value)))
		case *ast.ExprStmt:
			x, _ := recvOf(c.X)
			rhs = append(rhs, call(sel("RC"), r.expr(x)))
		case *ast.AssignStmt:
			x, _ := recvOf(c.Rhs[0])
			rhs = append(rhs, call(sel("RC"), r.expr(x)))
			var l, v []ast.Expr
			for i, f := range []string{"V", "Ok"} {
				if i < len(c.Lhs) && !blank(c.Lhs[i]) {
					l = append(l, r.expr(c.Lhs[i]))
					v = append(v, field(f))
				}
			}
			if len(l) > 0 {
				pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: c.Tok, Rhs: v})
			}
		}
		cc.Body = r.list(cc.Body)
		body := append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}, pre...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(n)}, Body: append(body, cc.Body...)})
		n++
	}
	if n == 0 && def == "false" {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(sel("Select"), id("false"))}}}}
	}
	// a default clause keeps the statement terminating where the select was
	sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	args[0] = id(def)
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(sel("Select"), args...)
	return sw
}
