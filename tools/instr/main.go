// Command instr builds the simulation overlay for one check run.
//
// It reads the *current* non-test sources of the gmnlisp packages in /repo,
// rewrites them in memory (never in /repo) and writes an overlay file for
// `go build -overlay`:
//
//   - imports of os, time, os/exec, path/filepath, sync, sync/atomic, flag and the line editor
//     are redirected to simulated packages under zz_verif/ (same API; the parts
//     the simulator controls are replaced, everything else is re-exported);
//   - `for ... range <map>` iterates in an order chosen by the simulator;
//   - simrt.Tick() is inserted at every function entry and loop body (with
//     -stmts: before every statement), which is the unit of simulated time and
//     the place where cancellations, deadlines and task switches may happen;
//   - the two command packages are copied to importable packages so a whole
//     process run can be simulated.
//
// Nothing here depends on how the code is written beyond "it is Go".
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/hymkor/gmnlisp"

var (
	repo  = flag.String("repo", "/repo", "")
	simd  = flag.String("sim", "/verif/sim", "")
	out   = flag.String("out", "", "scratch output directory")
	stmts = flag.Bool("stmts", false, "tick before every statement")
)

// import path -> simulated package (dir under sim/)
var shims = map[string]string{
	"os":            "simos",
	"time":          "simtime",
	"os/exec":       "simexec",
	"path/filepath": "simfilepath",
	"sync":          "simsync",
	"sync/atomic":   "simatomic",
	"flag":          "simflag",
	"io/ioutil":     "simioutil",
	"fmt":           "simfmt",
	"maps":          "simmaps",

	"github.com/hymkor/go-multiline-ny": "simmultiline",
}

// names of packages that are not the last element of their path
var pkgNames = map[string]string{"github.com/hymkor/go-multiline-ny": "multiline"}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

var overlay = map[string]string{}

func put(virtual string, content []byte) {
	dst := filepath.Join(*out, "ov", strings.ReplaceAll(strings.TrimPrefix(virtual, "/"), "/", "__"))
	die(os.MkdirAll(filepath.Dir(dst), 0o755))
	die(os.WriteFile(dst, content, 0o644))
	overlay[virtual] = dst
}

type listPkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles                       []string
	CgoFiles                      []string
	Imports                       []string
}

func golist(dir string, args ...string) []listPkg {
	cmd := exec.Command("go", append([]string{"list", "-e=false", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Imports"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	dec := json.NewDecoder(bytes.NewReader(b))
	var r []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			return r
		} else if err != nil {
			die(err)
		}
		r = append(r, p)
	}
}

var exports = map[string]string{}

func lookup(path string) (io.ReadCloser, error) {
	e, ok := exports[path]
	if !ok || e == "" {
		return nil, fmt.Errorf("no export data for %s", path)
	}
	return os.Open(e)
}

func main() {
	flag.Parse()
	pkgs := golist(*repo, "./...")
	std := []string{"-deps", "./..."}
	for p := range shims {
		std = append(std, p)
	}
	for _, p := range golist(*repo, std...) {
		exports[p.ImportPath] = p.Export
	}
	for _, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		switch {
		case rel == "" || strings.HasPrefix(rel, "pkg/"):
			rewrite(p, p.Dir, "")
		case rel == "cmd/gmnlisp":
			rewrite(p, filepath.Join(*repo, "zz_verif/climain"), "climain")
		case rel == "examples/gmnlpp":
			rewrite(p, filepath.Join(*repo, "zz_verif/lppmain"), "lppmain")
		}
	}
	// simulated packages + harness
	ents, err := os.ReadDir(*simd)
	die(err)
	byDir := map[string]string{}
	for imp, d := range shims {
		byDir[d] = imp
	}
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		files, err := filepath.Glob(filepath.Join(*simd, e.Name(), "*.go"))
		die(err)
		for _, f := range files {
			overlay[filepath.Join(*repo, "zz_verif", e.Name(), filepath.Base(f))] = f
		}
		if imp, ok := byDir[e.Name()]; ok {
			shim(e.Name(), imp, files)
		}
	}
	libraryNames()
	b, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

// libraryNames lists the words of the Lisp part of the library, so that
// generated programs can use them as names of their own.
func libraryNames() {
	files, _ := filepath.Glob(filepath.Join(*repo, "embed", "*.lsp"))
	files = append(files, filepath.Join(*repo, "startup.lsp"))
	seen := map[string]bool{}
	var names []string
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(src), "\n") {
			if i := strings.IndexByte(line, ';'); i >= 0 {
				line = line[:i]
			}
			for _, w := range strings.FieldsFunc(line, func(c rune) bool { return strings.ContainsRune("()'`,@ \t\r#\"", c) }) {
				if !seen[w] && (w[0] >= 'a' && w[0] <= 'z' || w[0] >= 'A' && w[0] <= 'Z' || w[0] == '%' || w[0] == '*' || w[0] == '_') {
					seen[w] = true
					names = append(names, w)
				}
			}
		}
	}
	sort.Strings(names)
	put(filepath.Join(*repo, "zz_verif/harness/zz_names.go"), []byte(fmt.Sprintf("package main\n\nvar embeddedNames = %#v\n", names)))
}

// shim re-exports everything of the real package that the hand-written
// simulated package does not define itself.
func shim(dir, imp string, files []string) {
	have := map[string]bool{}
	fset := token.NewFileSet()
	for _, f := range files {
		a, err := parser.ParseFile(fset, f, nil, 0)
		die(err)
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	im := importer.ForCompiler(fset, "gc", lookup)
	p, err := im.Import(imp)
	die(err)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport real_ %q\n\n", dir, imp)
	names := p.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, name := range names {
		if !token.IsExported(name) || have[name] {
			continue
		}
		switch o := p.Scope().Lookup(name).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real_.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real_.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real_.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real_.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		return
	}
	put(filepath.Join(*repo, "zz_verif", dir, "zz_gen.go"), b.Bytes())
}

const rtName = "simrt__"

func rewrite(p listPkg, dstDir, rename string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		ok, err := build.Default.MatchFile(p.Dir, f)
		die(err)
		if !ok {
			continue
		}
		a, err := parser.ParseFile(fset, full, nil, parser.ParseComments)
		die(err)
		files = append(files, a)
		names = append(names, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), GoVersion: "go1.20", Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die(fmt.Errorf("type check %s: %w", p.ImportPath, err))
	}
	for i, a := range files {
		used := instrument(a, info)
		for _, im := range a.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if s, ok := shims[path]; ok {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(path))
					if n, ok := pkgNames[path]; ok {
						im.Name = ast.NewIdent(n)
					}
				}
				im.Path.Value = strconv.Quote(modPath + "/zz_verif/" + s)
				im.EndPos = token.NoPos
			}
		}
		if rename != "" {
			a.Name.Name = rename
			for _, d := range a.Decls {
				if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "main" {
					f.Name.Name = "Main"
				}
			}
		}
		// keep only directive comments (//go:embed, //go:build): positions of
		// the others no longer mean anything in the rewritten tree.
		var keep []*ast.CommentGroup
		for _, g := range a.Comments {
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:") {
					keep = append(keep, &ast.CommentGroup{List: []*ast.Comment{c}})
				}
			}
		}
		embedDoc := map[*ast.GenDecl][]string{}
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Doc != nil {
				for _, c := range g.Doc.List {
					if strings.HasPrefix(c.Text, "//go:embed") {
						embedDoc[g] = append(embedDoc[g], c.Text)
					}
				}
			}
		}
		_ = keep
		a.Comments = nil
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n", a.Name.Name)
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				for _, s := range g.Specs {
					im := s.(*ast.ImportSpec)
					nm := ""
					if im.Name != nil {
						nm = im.Name.Name
					}
					fmt.Fprintf(&b, "import %s %s\n", nm, im.Path.Value)
				}
			}
		}
		if used {
			fmt.Fprintf(&b, "import %s %q\n", rtName, modPath+"/zz_verif/simrt")
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				d.Doc = nil
				for _, t := range embedDoc[d] {
					fmt.Fprintln(&b, t)
				}
			case *ast.FuncDecl:
				d.Doc = nil
			}
			// a fresh FileSet makes the printer ignore the stale positions
			die(format.Node(&b, fset, d))
			fmt.Fprintln(&b)
			fmt.Fprintln(&b)
		}
		put(filepath.Join(dstDir, names[i]), b.Bytes())
	}
}

func tickCall() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent("Tick")}}}
}

type inst struct {
	info *types.Info
	used bool
	tmp  int
}

func instrument(a *ast.File, info *types.Info) bool {
	in := &inst{info: info}
	for _, d := range a.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil {
					in.body(n.Body, true)
				}
				return false
			case *ast.FuncLit:
				in.body(n.Body, true)
				return false
			}
			return true
		})
	}
	return in.used
}

func (in *inst) tick() ast.Stmt { in.used = true; return tickCall() }

// exprs instruments function literals inside any node that is not a statement list.
func (in *inst) lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if f, ok := m.(*ast.FuncLit); ok {
			in.body(f.Body, true)
			return false
		}
		return true
	})
}

func (in *inst) body(b *ast.BlockStmt, tickFirst bool) {
	if b == nil {
		return
	}
	b.List = in.list(b.List)
	if tickFirst && !(*stmts && len(b.List) > 0) {
		b.List = append([]ast.Stmt{in.tick()}, b.List...)
	} else if tickFirst {
		b.List = append([]ast.Stmt{in.tick()}, b.List...)
	}
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for i, s := range l {
		if *stmts && i > 0 {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
			default:
				r = append(r, in.tick())
			}
		}
		r = append(r, in.stmt(s, nil))
	}
	return r
}

func (in *inst) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.body(s, false)
	case *ast.IfStmt:
		in.stmtOpt(s.Init)
		in.lits(s.Cond)
		in.body(s.Body, false)
		if s.Else != nil {
			s.Else = in.stmt(s.Else, nil)
		}
	case *ast.ForStmt:
		in.stmtOpt(s.Init)
		if s.Cond != nil {
			in.lits(s.Cond)
		}
		in.stmtOpt(s.Post)
		in.body(s.Body, true)
	case *ast.RangeStmt:
		in.lits(s.X)
		isMap := false
		if tv, ok := in.info.Types[s.X]; ok && tv.Type != nil {
			u := tv.Type.Underlying()
			if _, ok := u.(*types.Map); ok {
				isMap = true
			}
		}
		in.body(s.Body, true)
		if isMap {
			return in.mapRange(s, label)
		}
	case *ast.LabeledStmt:
		inner := in.stmt(s.Stmt, s.Label)
		if blk, ok := inner.(*ast.BlockStmt); ok && blk != s.Stmt {
			return blk // mapRange moved the label inside
		}
		s.Stmt = inner
	case *ast.SwitchStmt:
		in.stmtOpt(s.Init)
		if s.Tag != nil {
			in.lits(s.Tag)
		}
		in.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		in.stmtOpt(s.Init)
		in.stmtOpt(s.Assign)
		in.clauses(s.Body)
	case *ast.SelectStmt:
		in.clauses(s.Body)
	default:
		in.lits(s)
	}
	return s
}

func (in *inst) stmtOpt(s ast.Stmt) {
	if s != nil {
		in.lits(s)
	}
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, e := range c.List {
				in.lits(e)
			}
			c.Body = in.list(c.Body)
		case *ast.CommClause:
			if c.Comm != nil {
				in.lits(c.Comm)
			}
			c.Body = in.list(c.Body)
		}
	}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || (ok && id.Name == "_")
}

func (in *inst) mapRange(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	in.used = true
	in.tmp++
	id := func(n string) *ast.Ident { return ast.NewIdent(fmt.Sprintf("sim%s__%d", n, in.tmp)) }
	m, k, v, ok := id("m"), id("k"), id("v"), id("ok")
	call := func(fn string, args ...ast.Expr) ast.Expr {
		return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(fn)}, Args: args}
	}
	blk := &ast.BlockStmt{}
	blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}})
	if s.Tok == token.DEFINE {
		if !isBlank(s.Key) {
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{call("ZeroKey", m)}})
		}
		if !isBlank(s.Value) {
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{call("ZeroVal", m)}})
		}
	}
	body := &ast.BlockStmt{}
	body.List = append(body.List,
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	if !isBlank(s.Key) {
		body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{k}})
	}
	if !isBlank(s.Value) {
		body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	}
	body.List = append(body.List, s.Body.List...)
	var loop ast.Stmt = &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call("MapKeys", m), Body: body}
	if label != nil {
		loop = &ast.LabeledStmt{Label: label, Stmt: loop}
	}
	blk.List = append(blk.List, loop)
	return blk
}
