// Command det rewrites Go packages so that what a Go program may not rely on is decided by
// verifmc/core/vdet: the order of maps and the clock; and so that every function starts with a call of
// vdet.Point. What the code does is unchanged otherwise.
//
//	det -repo DIR -out DIR pkgdir[:nopoints] ...
//
// It prints a JSON object mapping each rewritten file to its replacement.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const path = "github.com/initia-labs/minievm/verifmc/core/vdet"

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "det: "+format+"\n", a...)
	os.Exit(1)
}

type edit struct {
	at, end int
	text    string
}

func main() {
	repo := flag.String("repo", "", "")
	out := flag.String("out", "", "")
	tags := flag.String("tags", "", "")
	flag.Parse()
	var dirs []string
	points := map[string]bool{}
	for _, a := range flag.Args() {
		d, opt, _ := strings.Cut(a, ":")
		dirs = append(dirs, d)
		points[d] = opt == ""
	}
	args := []string{"list", "-export", "-deps", "-tags", *tags, "-f", "{{.ImportPath}}\t{{.Export}}\t{{.Dir}}"}
	for _, d := range dirs {
		args = append(args, "./"+d)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	list, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports, paths := map[string]string{}, map[string]string{}
	for _, l := range strings.Split(string(list), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 3 {
			exports[f[0]] = f[1]
			paths[f[2]] = f[0]
		}
	}
	rep := map[string]string{}
	for _, d := range dirs {
		full := filepath.Join(*repo, d)
		fset := token.NewFileSet()
		names, _ := filepath.Glob(filepath.Join(full, "*.go"))
		sort.Strings(names)
		var files []*ast.File
		var kept []string
		srcs := map[string][]byte{}
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(n)
			if !wanted(string(src), *tags) {
				continue
			}
			f, err := parser.ParseFile(fset, n, src, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files, kept = append(files, f), append(kept, n)
			srcs[n] = src
		}
		imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
			e, ok := exports[p]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", p)
			}
			return os.Open(e)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "det:", err) }}
		if _, err := conf.Check(paths[full], fset, files, info); err != nil {
			die("type checking %s: %v", d, err)
		}
		for i, f := range files {
			n := kept[i]
			if strings.HasSuffix(n, ".pb.go") || strings.HasSuffix(n, ".pb.gw.go") {
				continue
			}
			ed := rewrite(fset, info, f, srcs[n], points[d], d)
			if len(ed) == 0 {
				continue
			}
			dst := filepath.Join(*out, "det_"+strings.ReplaceAll(d, "/", "_")+"_"+filepath.Base(n))
			if err := os.WriteFile(dst, apply(srcs[n], ed), 0o600); err != nil {
				die("%v", err)
			}
			rep[n] = dst
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func rewrite(fset *token.FileSet, info *types.Info, f *ast.File, src []byte, points bool, dir string) (ed []edit) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	if points {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
				at := off(fd.Body.Lbrace) + 1
				ed = append(ed, edit{at, at, fmt.Sprintf(" vdet.Point(%q);", filepath.Base(dir)+"."+fd.Name.Name)})
			}
		}
	}
	clock := ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			t := info.Types[x.X].Type
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Map); !ok || (x.Key == nil && x.Value == nil) {
				return true
			}
			at := off(x.Body.Lbrace) + 1
			set := " if !vdetE.Live() { continue };"
			for _, kv := range []struct {
				e ast.Expr
				s string
			}{{x.Key, "vdetE.K"}, {x.Value, "vdetE.V()"}} {
				if kv.e == nil {
					continue
				}
				if id, ok := kv.e.(*ast.Ident); ok && id.Name == "_" {
					continue
				}
				set += fmt.Sprintf(" %s %s %s;", text(kv.e), x.Tok, kv.s)
			}
			ed = append(ed, edit{off(x.For) + 3, off(x.X.Pos()), " _, vdetE := range vdet.Pairs("}, edit{off(x.X.End()), off(x.X.End()), ")"}, edit{at, at, set})
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && x.Sel.Name == "Now" {
				if p, ok := info.Uses[id].(*types.PkgName); ok && p.Imported().Path() == "time" {
					ed = append(ed, edit{off(x.Pos()), off(x.End()), "vdet.Now"})
					clock = id.Name
				}
			}
		}
		return true
	})
	if len(ed) > 0 {
		at := off(f.Name.End())
		ed = append(ed, edit{at, at, "; import vdet \"" + path + "\""})
		if clock != "" {
			ed = append(ed, edit{len(src), len(src), "\nvar _ " + clock + ".Time\n"})
		}
	}
	return
}

func apply(src []byte, ed []edit) []byte {
	sort.SliceStable(ed, func(i, j int) bool { return ed[i].at < ed[j].at })
	var out []byte
	at := 0
	for _, e := range ed {
		out = append(append(out, src[at:e.at]...), e.text...)
		at = e.end
	}
	return append(out, src[at:]...)
}

func wanted(src, tags string) bool {
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "package ") {
			return true
		}
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err != nil {
				return true
			}
			return x.Eval(func(t string) bool {
				for _, y := range strings.Fields(strings.ReplaceAll(tags, ",", " ")) {
					if t == y {
						return true
					}
				}
				return t == "linux" || t == "amd64" || t == "cgo" || strings.HasPrefix(t, "go1.")
			})
		}
	}
	return true
}
