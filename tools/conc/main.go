// Command conc rewrites Go packages so that their goroutines, channels, locks
// and timers are run by the explorer's scheduler (verifmc/sched). What the code
// does is unchanged; outside an exploration the rewritten code uses the real
// primitives.
//
//	conc -repo DIR -out DIR pkgdir[:FILE] ...
//
// In FILE every statement is a scheduling point.
//
// It prints a JSON object mapping each rewritten file to its replacement.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const (
	schedPath = "github.com/initia-labs/minievm/verifmc/sched"
	syncPath  = schedPath + "/ssync"
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "conc: "+format+"\n", a...)
	os.Exit(1)
}

func main() {
	repo := flag.String("repo", "", "")
	out := flag.String("out", "", "")
	tags := flag.String("tags", "", "")
	flag.Parse()
	var dirs []string
	yield := map[string]string{}
	for _, a := range flag.Args() {
		d, opt, _ := strings.Cut(a, ":")
		dirs = append(dirs, d)
		yield[d] = opt
	}
	args := []string{"list", "-export", "-deps", "-tags", *tags, "-f", "{{.ImportPath}}\t{{.Export}}\t{{.Dir}}"}
	for _, d := range dirs {
		args = append(args, "./"+d)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	list, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	paths := map[string]string{}
	for _, l := range strings.Split(string(list), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 3 {
			exports[f[0]] = f[1]
			paths[f[2]] = f[0]
		}
	}
	rep := map[string]string{}
	for _, d := range dirs {
		full := filepath.Join(*repo, d)
		fset := token.NewFileSet()
		names, _ := filepath.Glob(filepath.Join(full, "*.go"))
		sort.Strings(names)
		var files []*ast.File
		var kept []string
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(n)
			if !wanted(string(src), *tags) {
				continue
			}
			f, err := parser.ParseFile(fset, n, src, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			kept = append(kept, n)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "conc:", err) }}
		pkg, err := conf.Check(paths[full], fset, files, info)
		if err != nil {
			die("type checking %s: %v", d, err)
		}
		for i, f := range files {
			r := &rw{fset: fset, info: info, pkg: pkg, yield: yield[d] != "" && yield[d] == filepath.Base(kept[i]), file: filepath.Base(kept[i])}
			r.run(f)
			dst := filepath.Join(*out, strings.ReplaceAll(d, "/", "_")+"_"+r.file)
			w, err := os.Create(dst)
			if err != nil {
				die("%v", err)
			}
			if err := format.Node(w, fset, f); err != nil {
				die("%s: %v", kept[i], err)
			}
			w.Close()
			rep[kept[i]] = dst
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func wanted(src, tags string) bool {
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "package ") {
			return true
		}
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err != nil {
				return true
			}
			return x.Eval(func(t string) bool {
				for _, y := range strings.Fields(strings.ReplaceAll(tags, ",", " ")) {
					if y == t {
						return true
					}
				}
				return t == "linux" || t == "amd64" || t == "unix" || t == "gc" || t == "cgo" || strings.HasPrefix(t, "go1.")
			})
		}
	}
	return true
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	yield bool
	file  string
	sched bool
	n     int
}

func (r *rw) where(p token.Pos) ast.Expr {
	return str(fmt.Sprintf("%s:%d", r.file, r.fset.Position(p).Line))
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rw) s(name string, args ...ast.Expr) *ast.CallExpr {
	r.sched = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("vsched"), Sel: id(name)}, Args: args}
}

func (r *rw) tmp() string { r.n++; return fmt.Sprintf("v_%d", r.n) }

func (r *rw) isPkg(e ast.Expr, path string) bool {
	x, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	p, ok := r.info.Uses[x].(*types.PkgName)
	return ok && p.Imported().Path() == path
}

func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

var timeNames = map[string]bool{"After": true, "NewTimer": true, "NewTicker": true, "Now": true, "Since": true, "Until": true, "Sleep": true, "AfterFunc": true, "Tick": true, "Timer": true, "Ticker": true}

func (r *rw) run(f *ast.File) {
	// drop comments: positions move
	f.Comments = nil
	f.Doc = nil
	usesTime := false
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				d.Body = r.block(d.Body, true)
			}
			if d.Recv != nil {
				r.exprs(d.Recv)
			}
			r.exprs(d.Type)
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok != token.IMPORT {
				r.exprs(d)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && r.isPkg(s.X, "time") {
			usesTime = true
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			is.Doc, is.Comment = nil, nil
			if p == "sync" {
				name := "sync"
				if is.Name != nil {
					name = is.Name.Name
				}
				is.Name = id(name)
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(syncPath)}
			}
			if p == "time" && !usesTime {
				continue
			}
			keep = append(keep, sp)
		}
		g.Specs = keep
	}
	if r.sched {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("vsched"), Path: str(schedPath).(*ast.BasicLit)}}}}, f.Decls...)
	}
}

// exprs rewrites every expression inside n, in place.
func (r *rw) exprs(n ast.Node) {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return
	}
	r.walk(reflect.ValueOf(n))
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == exprT {
			e := v.Interface().(ast.Expr)
			v.Set(reflect.ValueOf(r.expr(e)))
			return
		}
		r.walk(v.Elem())
	case reflect.Pointer:
		if v.IsNil() || !v.Type().Implements(nodeT) {
			return
		}
		switch n := v.Interface().(type) {
		case *ast.BlockStmt:
			*n = *r.block(n, false)
			return
		case *ast.Ident, *ast.BasicLit, *ast.CommentGroup:
			return
		}
		s := v.Elem()
		for i := 0; i < s.NumField(); i++ {
			if s.Field(i).CanSet() {
				r.walk(s.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

// expr gives the rewritten expression.
func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.exprs(x.Type)
		x.Body = r.block(x.Body, true)
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		x.X = r.expr(x.X)
		if x.Op == token.ARROW {
			return r.s("Recv", r.where(e.Pos()), x.X)
		}
		return x
	case *ast.SelectorExpr:
		if r.isPkg(x.X, "time") && timeNames[x.Sel.Name] {
			r.sched = true
			return &ast.SelectorExpr{X: id("vsched"), Sel: id("Time" + x.Sel.Name)}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.Ident); ok && f.Name == "close" && len(x.Args) == 1 {
			if _, ok := r.info.Uses[f].(*types.Builtin); ok {
				return r.s("Close", r.where(e.Pos()), r.expr(x.Args[0]))
			}
		}
		if f, ok := x.Fun.(*ast.SelectorExpr); ok && f.Sel.Name == "NewID" && len(x.Args) == 0 && r.isPkg(f.X, "github.com/ethereum/go-ethereum/rpc") {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: f.X, Sel: id("ID")}, Args: []ast.Expr{r.s("SeqID")}}
		}
		x.Fun = r.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
		return x
	default:
		v := reflect.ValueOf(e).Elem()
		if v.Kind() == reflect.Struct {
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).CanSet() {
					r.walk(v.Field(i))
				}
			}
		}
		return e
	}
}

func (r *rw) block(b *ast.BlockStmt, fn bool) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	return b
}

func (r *rw) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		acc := r.accesses(s)
		pos := s.Pos()
		n := r.stmt(s, "")
		if r.yield {
			if _, decl := n.(*ast.DeclStmt); !decl {
				out = append(out, &ast.ExprStmt{X: r.s("Stmt", r.where(pos))})
			}
		}
		out = append(out, acc...)
		out = append(out, n)
	}
	return out
}

// accesses tells the scheduler which shared maps and slices (fields reached
// through a pointer) a statement reads and writes.
func (r *rw) accesses(s ast.Stmt) []ast.Stmt {
	type acc struct {
		e ast.Expr
		w bool
	}
	var list []acc
	seen := map[string]int{}
	add := func(e ast.Expr, w bool) {
		k := types.ExprString(e)
		if i, ok := seen[k]; ok {
			list[i].w = list[i].w || w
			return
		}
		seen[k] = len(list)
		list = append(list, acc{e, w})
	}
	field := func(e ast.Expr) bool {
		x, ok := e.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		sel := r.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		b, ok := x.X.(*ast.Ident)
		if !ok {
			return false
		}
		if _, ok := r.info.Uses[b].(*types.Var); !ok {
			return false
		}
		p, ok := r.info.Types[x.X].Type.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
			return false
		}
		switch r.info.Types[e].Type.Underlying().(type) {
		case *types.Map, *types.Slice:
			return true
		}
		return false
	}
	isMap := func(e ast.Expr) bool {
		_, ok := r.info.Types[e].Type.Underlying().(*types.Map)
		return ok
	}
	var scan func(n ast.Node)
	scan = func(n ast.Node) {
		if n == nil || reflect.ValueOf(n).IsNil() {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if ix, ok := l.(*ast.IndexExpr); ok && field(ix.X) && isMap(ix.X) {
						add(ix.X, true)
					}
					if field(l) {
						add(l, true)
					}
				}
			case *ast.CallExpr:
				if f, ok := x.Fun.(*ast.Ident); ok && (f.Name == "delete" || f.Name == "clear") && len(x.Args) > 0 && field(x.Args[0]) {
					add(x.Args[0], true)
				}
			case ast.Expr:
				if field(x) {
					add(x, false)
				}
			}
			return true
		})
	}
	switch x := s.(type) {
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.GoStmt, *ast.DeferStmt, *ast.SelectStmt, *ast.DeclStmt:
		return nil
	case *ast.IfStmt:
		scan(x.Init)
		if x.Init == nil {
			scan(x.Cond)
		}
	case *ast.ForStmt:
		scan(x.Init)
	case *ast.RangeStmt:
		scan(x.X)
	case *ast.SwitchStmt:
		scan(x.Init)
		if x.Init == nil {
			scan(x.Tag)
		}
	case *ast.TypeSwitchStmt:
		return nil
	default:
		scan(s)
	}
	var out []ast.Stmt
	for _, a := range list {
		w := "false"
		if a.w {
			w = "true"
		}
		sel := a.e.(*ast.SelectorExpr)
		out = append(out, &ast.ExprStmt{X: r.s("Access", r.where(s.Pos()), str(sel.Sel.Name), &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("any")}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: &ast.SelectorExpr{X: id(sel.X.(*ast.Ident).Name), Sel: id(sel.Sel.Name)}}}}}},
		}, id(w))})
	}
	return out
}

func (r *rw) stmt(s ast.Stmt, label string) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		return r.block(x, false)
	case *ast.LabeledStmt:
		n := r.stmt(x.Stmt, x.Label.Name)
		if b, ok := n.(*ast.BlockStmt); ok && len(b.List) > 0 {
			if _, was := x.Stmt.(*ast.SelectStmt); was {
				last := len(b.List) - 1
				b.List[last] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[last]}
				return b
			}
		}
		x.Stmt = n
		return x
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: r.s("Send", r.where(s.Pos()), r.expr(x.Chan), r.expr(x.Value))}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = r.s("Recv2", r.where(s.Pos()), r.expr(u.X))
				return x
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
		return x
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init, "")
		x.Cond = r.expr(x.Cond)
		x.Body = r.block(x.Body, false)
		x.Else = r.stmt(x.Else, "")
		return x
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init, "")
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmt(x.Post, "")
		x.Body = r.block(x.Body, false)
		return x
	case *ast.RangeStmt:
		ch := r.isChan(x.X)
		isMap := false
		if t := r.info.TypeOf(x.X); t != nil {
			_, isMap = t.Underlying().(*types.Map)
		}
		x.X = r.expr(x.X)
		x.Body = r.block(x.Body, false)
		if !ch {
			if isMap && pure(x.X) && x.Tok == token.DEFINE {
				r.mapRange(x)
			}
			return x
		}
		ok := r.tmp()
		key := x.Key
		if key == nil {
			key = id("_")
		}
		cv := r.tmp()
		recv := &ast.AssignStmt{Lhs: []ast.Expr{key, id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.s("Recv2", r.where(s.Pos()), id(cv))}}
		pre := []ast.Stmt{ast.Stmt(recv)}
		if x.Tok == token.ASSIGN {
			pre = []ast.Stmt{&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}}, recv}
			recv.Tok = token.ASSIGN
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		x.Body.List = append(pre, x.Body.List...)
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(cv)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}, Body: x.Body}
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init, "")
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
		return x
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init, "")
		x.Assign = r.stmt(x.Assign, "")
		r.clauses(x.Body)
		return x
	default:
		r.walk(reflect.ValueOf(s))
		return s
	}
}

// mapRange has the explorer choose the order of the keys.
func (r *rw) mapRange(x *ast.RangeStmt) {
	m := x.X
	blank := func(e ast.Expr) bool {
		i, ok := e.(*ast.Ident)
		return e == nil || ok && i.Name == "_"
	}
	key := x.Key
	if blank(key) {
		key = id(r.tmp())
	}
	val := x.Value
	if blank(val) {
		val = id("_")
	}
	ok := r.tmp()
	pre := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{val, id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: key}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
	}
	x.X = r.s("Keys", r.where(x.Pos()), m)
	x.Key, x.Value = id("_"), key
	x.Body.List = append(pre, x.Body.List...)
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	}
	return false
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.stmts(cc.Body)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	pos := x.Pos()
	var pre []ast.Stmt
	if _, lit := x.Call.Fun.(*ast.FuncLit); !lit {
		if sel, ok := x.Call.Fun.(*ast.SelectorExpr); !ok || r.info.Selections[sel] != nil {
			f := r.tmp()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(f)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.Call.Fun)}})
			x.Call.Fun = id(f)
		}
	} else {
		x.Call.Fun = r.expr(x.Call.Fun)
	}
	for i, a := range x.Call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			continue
		}
		v := r.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		x.Call.Args[i] = id(v)
	}
	call := r.s("Go", r.where(pos), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x.Call}}}})
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call})}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	def := "false"
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: body})
			continue
		}
		v := r.tmp()
		idx := len(cases)
		cases = append(cases, id(v))
		var mk ast.Expr
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = r.s("SendCase", r.expr(m.Chan), r.expr(m.Value))
		case *ast.ExprStmt:
			mk = r.s("RecvCase", r.expr(unparen(m.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			mk = r.s("RecvCase", r.expr(unparen(m.Rhs[0]).(*ast.UnaryExpr).X))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(v), Sel: id("Val")}, &ast.SelectorExpr{X: id(v), Sel: id("Ok")}}
			for i := range m.Lhs {
				m.Lhs[i] = r.expr(m.Lhs[i])
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs[:len(m.Lhs)]}}, body...)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
	}
	sw.Tag = r.s("Select", append([]ast.Expr{r.where(x.Pos()), id(def)}, cases...)...)
	return &ast.BlockStmt{List: append(pre, sw)}
}
