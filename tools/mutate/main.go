// Command mutate lists or applies small changes of Go files:
//
//	mutate list FILE...          one line per mutant: index, file:line, kind, text
//	mutate apply INDEX FILE...   rewrites the file of that mutant
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	file       string
	line       int
	kind       string
	start, end int
	text       string
}

var ops = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LSS: {"<="}, token.LEQ: {"<"},
	token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"},
}

var swaps = map[string]string{"Tau": "Alpha", "Alpha": "Beta", "Beta": "Tau", "tau": "alpha", "alpha": "beta", "beta": "tau",
	"L": "R", "R": "O", "O": "L", "Wires": "Public", "Public": "Wires", "Witness": "Public", "Domain": "Constraints", "start": "end", "end": "start",
	"Add": "Sub", "AddAssign": "SubAssign", "SubAssign": "AddAssign", "nbR1C": "nbCons", "current": "prev", "prev": "current", "SeekStart": "SeekCurrent", "SeekCurrent": "SeekStart", "PrivateCommitted": "Public"}

func main() {
	args := os.Args[2:]
	idx := -1
	if os.Args[1] == "apply" {
		idx, _ = strconv.Atoi(args[0])
		args = args[1:]
	}
	var ms []mut
	for _, f := range args {
		ms = append(ms, mutants(f)...)
	}
	if idx < 0 {
		for i, m := range ms {
			b, _ := os.ReadFile(m.file)
			fmt.Printf("%d\t%s:%d\t%s\t%s => %s\n", i, m.file, m.line, m.kind, one(string(b[m.start:m.end])), one(m.text))
		}
		return
	}
	m := ms[idx]
	b, _ := os.ReadFile(m.file)
	os.WriteFile(m.file, []byte(string(b[:m.start])+m.text+string(b[m.end:])), 0644)
}

func one(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

func mutants(name string) []mut {
	fs := token.NewFileSet()
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		panic(err)
	}
	var out []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(n ast.Node, kind string, s, e token.Pos, text string) {
		out = append(out, mut{name, fs.Position(n.Pos()).Line, kind, off(s), off(e), text})
	}
	isPrint := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return false
		}
		t := string(src[off(c.Fun.Pos()):off(c.Fun.End())])
		return strings.HasPrefix(t, "fmt.P") || strings.HasPrefix(t, "panic")
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				add(x, "op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x, "int+1", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						add(x, "int-1", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.ExprStmt:
			if !isPrint(x.X) {
				add(x, "drop", x.Pos(), x.End(), "")
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				var t []string
				for _, l := range x.Lhs {
					_ = l
				}
				for _, r := range x.Rhs {
					t = append(t, string(src[off(r.Pos()):off(r.End())]))
				}
				add(x, "drop", x.Pos(), x.End(), "")
			}
		case *ast.IncDecStmt:
			add(x, "drop", x.Pos(), x.End(), "")
		case *ast.IfStmt:
			c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
			add(x, "never", x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
			if !strings.Contains(c, "err != nil") {
				add(x, "always", x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(x, "return-nil", r.Pos(), r.End(), "nil")
				}
			}
		case *ast.Ident:
			if s, ok := swaps[x.Name]; ok {
				add(x, "name", x.Pos(), x.End(), s)
			}
		case *ast.Field:
			return false
		}
		return true
	})
	return out
}
