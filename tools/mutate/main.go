// mutate lists the small changes that can be made to a Go file, one line of JSON each: the byte range, the new text and
// a description. It is used to find out what the checks miss and is no part of any check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		fname := ""
		out := func(n ast.Node, from, to int, s, kind string) {
			enc.Encode(change{fn, from, to, s, kind, fset.Position(n.Pos()).Line, fname})
		}
		quiet := func(n ast.Node) bool { // logging and error texts don't matter
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return false
			}
			s := text(c.Fun)
			return strings.Contains(s, "Logger") || strings.HasPrefix(s, "fmt.") || s == "errors.New" || s == "make" || strings.Contains(s, "log.")
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fname = fd.Name.Name
			if fname == "String" || fname == "Error" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if n == nil || quiet(n) {
					return false
				}
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[x.Op] {
						if x.Op == token.ADD && (strings.Contains(text(x), "\"")) {
							continue
						}
						p := pos(x.OpPos)
						out(x, p, p+len(x.Op.String()), s, x.Op.String()+" -> "+s)
					}
					if (x.Op == token.NEQ || x.Op == token.EQL) && text(x.Y) == "nil" {
						return false
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							out(x, pos(x.Pos()), pos(x.End()), fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", x.Value, v+1))
						}
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					if x.Init == nil {
						out(x, pos(x.Cond.Pos()), pos(x.Cond.End()), "false && ("+c+")", "if never: "+c)
						if !strings.Contains(c, "err != nil") {
							out(x, pos(x.Cond.Pos()), pos(x.Cond.End()), "true || ("+c+")", "if always: "+c)
						}
					} else {
						out(x, pos(x.Cond.Pos()), pos(x.Cond.End()), "false && ("+c+")", "if never: "+c)
					}
				case *ast.ExprStmt:
					if !quiet(x.X) {
						out(x, pos(x.Pos()), pos(x.End()), "", "delete "+text(x))
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						l := []string{}
						for range x.Lhs {
							l = append(l, "_")
						}
						r := []string{}
						for _, e := range x.Rhs {
							r = append(r, text(e))
						}
						if x.Tok == token.ASSIGN {
							out(x, pos(x.Pos()), pos(x.End()), strings.Join(l, ",")+" = "+strings.Join(r, ","), "drop assignment "+text(x))
						} else {
							out(x, pos(x.Pos()), pos(x.End()), "_ = "+strings.Join(r, ","), "drop assignment "+text(x))
						}
					}
				case *ast.IncDecStmt:
					out(x, pos(x.Pos()), pos(x.End()), "", "delete "+text(x))
				case *ast.DeferStmt:
					out(x, pos(x.Pos()), pos(x.End()), "", "delete "+text(x))
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						out(x, pos(x.Pos()), pos(x.End()), "break", "continue -> break")
					} else if x.Label == nil && x.Tok == token.BREAK {
						out(x, pos(x.Pos()), pos(x.End()), "", "delete break")
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 {
						e := x.Results[k-1]
						s := text(e)
						if s == "err" || strings.HasPrefix(s, "fmt.Errorf") || strings.HasPrefix(s, "errors.New") {
							out(x, pos(e.Pos()), pos(e.End()), "nil", "return nil for "+s)
						}
					}
					for _, e := range x.Results {
						if i, ok := e.(*ast.Ident); ok && (i.Name == "true" || i.Name == "false") {
							o := "true"
							if i.Name == "true" {
								o = "false"
							}
							out(x, pos(e.Pos()), pos(e.End()), o, i.Name+" -> "+o)
						}
					}
				case *ast.SliceExpr:
				}
				return true
			})
		}
	}
}
