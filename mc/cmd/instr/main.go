// Command instr writes instrumented copies of the repository's Go files and a
// build overlay that substitutes them:
//
//   - a scheduling point before every statement,
//   - package sync replaced by verif.local/mc/vsync,
//   - select statements resolved by the scheduler instead of at random,
//   - goroutines started through the scheduler.
//
// Usage: instr REPO OUTDIR [points|sync]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, del int
	text     string
	seq      int
}

type file struct {
	src   []byte
	fset  *token.FileSet
	f     *ast.File
	edits []edit
	tmp   int
	rel   string
}

func (x *file) off(p token.Pos) int { return x.fset.Position(p).Offset }

func (x *file) ins(p token.Pos, text string) {
	x.edits = append(x.edits, edit{x.off(p), 0, text, len(x.edits)})
}

func (x *file) repl(from, to token.Pos, text string) {
	x.edits = append(x.edits, edit{x.off(from), x.off(to) - x.off(from), text, len(x.edits)})
}

func (x *file) text(n ast.Node) string { return string(x.src[x.off(n.Pos()):x.off(n.End())]) }

func (x *file) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		x.ins(s.Pos(), fmt.Sprintf("vsched_.At(%q); ", fmt.Sprintf("%s:%d", x.rel, x.fset.Position(s.Pos()).Line)))
		l := s
		for {
			ls, ok := l.(*ast.LabeledStmt)
			if !ok {
				break
			}
			l = ls.Stmt
		}
		if g, ok := l.(*ast.GoStmt); ok {
			x.spawn(g)
		}
		if sel, ok := l.(*ast.SelectStmt); ok && len(sel.Body.List) > 0 {
			x.sel(s, sel)
		}
	}
}

// spawn lets the scheduler start the goroutine of g.
func (x *file) spawn(g *ast.GoStmt) {
	x.tmp++
	pre := "{ "
	fun := ast.Unparen(g.Call.Fun)
	if _, lit := fun.(*ast.FuncLit); !lit {
		if id, ok := fun.(*ast.Ident); ok {
			switch id.Name {
			case "close", "panic", "print", "println", "delete", "copy", "clear", "recover":
				return
			}
		}
		v := fmt.Sprintf("vgo%d_f", x.tmp)
		pre += fmt.Sprintf("%s := %s; ", v, x.text(g.Call.Fun))
		x.repl(g.Call.Fun.Pos(), g.Call.Fun.End(), v)
	}
	for i, a := range g.Call.Args {
		switch a := ast.Unparen(a).(type) {
		case *ast.BasicLit:
			continue
		case *ast.Ident:
			if a.Name == "nil" || a.Name == "true" || a.Name == "false" {
				continue
			}
		}
		v := fmt.Sprintf("vgo%d_%d", x.tmp, i)
		pre += fmt.Sprintf("%s := %s; ", v, x.text(a))
		x.repl(a.Pos(), a.End(), v)
	}
	x.repl(g.Pos(), g.Pos()+token.Pos(len("go")), pre+"vsched_.Spawn(func() { ")
	x.ins(g.End(), " }) }")
}

// sel rewrites the select statement sel, whose outermost label (or itself) is outer.
func (x *file) sel(outer ast.Stmt, sel *ast.SelectStmt) {
	x.tmp++
	var pre []string
	var args []string
	hasDefault := false
	type rw struct {
		from, to token.Pos
		text     string
	}
	var rws []rw
	for i, c := range sel.Body.List {
		cc := c.(*ast.CommClause)
		v := fmt.Sprintf("vsel%d_%d", x.tmp, i)
		switch s := cc.Comm.(type) {
		case nil:
			hasDefault = true
			continue
		case *ast.SendStmt:
			pre = append(pre, fmt.Sprintf("%s := vsched_.SendCase(%s).With(%s); ", v, x.text(s.Chan), x.text(s.Value)))
			rws = append(rws, rw{s.Pos(), s.End(), strconv.Itoa(len(args))})
		case *ast.ExprStmt:
			u, ok := ast.Unparen(s.X).(*ast.UnaryExpr)
			if !ok {
				return
			}
			pre = append(pre, fmt.Sprintf("%s := vsched_.RecvCase(%s); ", v, x.text(u.X)))
			rws = append(rws, rw{s.Pos(), s.End(), strconv.Itoa(len(args))})
		case *ast.AssignStmt:
			u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			if !ok {
				return
			}
			pre = append(pre, fmt.Sprintf("%s := vsched_.RecvCase(%s); ", v, x.text(u.X)))
			lhs := x.text(s.Lhs[0])
			rhs := v + ".V"
			if len(s.Lhs) == 2 {
				lhs += ", " + x.text(s.Lhs[1])
				rhs += ", " + v + ".Ok"
			}
			rws = append(rws, rw{s.Pos(), cc.Colon + 1, fmt.Sprintf("%d: %s %s %s;", len(args), lhs, s.Tok, rhs)})
		default:
			return
		}
		args = append(args, v)
	}
	x.ins(outer.Pos(), "{ "+strings.Join(pre, ""))
	x.repl(sel.Pos(), sel.Pos()+token.Pos(len("select")), fmt.Sprintf("switch vsched_.Select(%v, %s)", hasDefault, strings.Join(args, ", ")))
	for _, r := range rws {
		x.repl(r.from, r.to, r.text)
	}
	end := "}}"
	if !hasDefault {
		end = `default: panic("unreachable") }}`
	}
	x.repl(sel.Body.Rbrace, sel.Body.Rbrace+1, end)
}

func instrument(path, rel string, points bool) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	x := &file{src: src, fset: fset, f: f, rel: rel}
	var expr constraint.Expr
	for _, g := range f.Comments {
		for _, c := range g.List {
			switch {
			case strings.HasPrefix(c.Text, "//go:build "):
				if expr, err = constraint.Parse(c.Text); err != nil {
					return nil, err
				}
				x.repl(c.Pos(), c.End(), "//")
			case strings.HasPrefix(c.Text, "//go:linkname"), strings.HasPrefix(c.Text, "//go:embed"), strings.HasPrefix(c.Text, "//go:nosplit"):
				points = false
			}
		}
	}
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			x.repl(im.Path.Pos(), im.Path.End(), name+`"verif.local/mc/vsync"`)
		} else if p == "C" {
			return nil, nil
		}
	}
	if points {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				x.stmts(n.List)
			case *ast.CaseClause:
				x.stmts(n.Body)
			case *ast.CommClause:
				x.stmts(n.Body)
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					x.ins(n.Body.Rbrace, "vsched_.Point() ")
				}
			}
			return true
		})
	}
	x.ins(f.Name.End(), `; import vsched_ "verif.local/mc/vsched"`)
	x.edits = append(x.edits, edit{len(src), 0, "\nvar _ = vsched_.Point\n", len(x.edits)})
	sort.SliceStable(x.edits, func(i, j int) bool {
		a, b := x.edits[i], x.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if (a.del == 0) != (b.del == 0) {
			return a.del == 0 // insertions first
		}
		return a.seq < b.seq
	})
	tag := "go1.21"
	if expr != nil {
		tag = "(" + expr.String() + ") && go1.21"
	}
	out := []byte("//go:build " + tag + "\n\n")
	pos := 0
	for _, e := range x.edits {
		if e.off < pos {
			// inside a replaced range (a function literal in a select case); leave it as it was
			continue
		}
		out = append(out, src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.off + e.del
	}
	out = append(out, src[pos:]...)
	return out, nil
}

func main() {
	repo, outDir := os.Args[1], os.Args[2]
	points := len(os.Args) < 4 || os.Args[3] == "points"
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		fail(err)
	}
	replace := map[string]string{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			switch {
			case p == filepath.Join(repo, "protobuf"), fi.Name() == "testdata", p != repo && strings.HasPrefix(fi.Name(), "."):
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := instrument(p, strings.TrimPrefix(p, repo+"/"), points)
		if err != nil {
			return err
		}
		if b == nil {
			return nil
		}
		o := filepath.Join(outDir, fmt.Sprintf("f%d.go", len(replace)))
		replace[p] = o
		return os.WriteFile(o, b, 0o644)
	})
	if err != nil {
		fail(err)
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}
