//go:build go1.22

// Command mutate prints the first-order mutants of the given Go files as JSON lines (development tool, see mutate.py).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File, Kind, Func string
	Line, Off, End   int
	New              string
}

var commutative = map[string]bool{"Add64": true, "Mul64": true, "Add": true, "Mul": true, "IsEqual": true, "Min": true, "Max": true}

var zeroes = os.Getenv("ZEROES") != ""

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		fn := ""
		emit := func(kind string, pos, end token.Pos, new string) {
			p, e := fset.Position(pos), fset.Position(end)
			enc.Encode(mutant{f, kind, fn, p.Line, p.Offset, e.Offset, new})
		}
		text := func(n ast.Node) string { return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]) }
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt:
					if c, ok := s.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "panic" || id.Name == "IncrementCallCounter") {
							if id.Name == "panic" {
								emit("nopanic", s.Pos(), s.End(), "_ = 0")
							}
							continue
						}
					}
					emit("delstmt", s.Pos(), s.End(), "_ = 0")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						blank := "_ = 0"
						for _, r := range s.Rhs {
							blank += "; _ = " + text(r)
						}
						if len(s.Lhs) == 1 && s.Tok == token.ASSIGN {
							emit("delassign", s.Pos(), s.End(), "_ = "+text(s.Rhs[0]))
						} else {
							emit("delassign", s.Pos(), s.End(), "_ = 0")
						}
						_ = blank
					}
					if s.Tok == token.ADD_ASSIGN {
						emit("opassign", s.TokPos, s.TokPos+2, "-=")
					}
					if s.Tok == token.SUB_ASSIGN {
						emit("opassign", s.TokPos, s.TokPos+2, "+=")
					}
				case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
					emit("delstmt", s.Pos(), s.End(), "_ = 0")
				case *ast.IfStmt:
					emit("if-true", s.Cond.Pos(), s.Cond.End(), "(true || "+text(s.Cond)+")")
					emit("if-false", s.Cond.Pos(), s.Cond.End(), "(false && "+text(s.Cond)+")")
				case *ast.BranchStmt:
					if s.Label == nil && (s.Tok == token.BREAK || s.Tok == token.CONTINUE) {
						emit("branch", s.Pos(), s.End(), "_ = 0")
						if s.Tok == token.CONTINUE {
							emit("branch", s.Pos(), s.End(), "break")
						}
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 && i == len(l)-1 {
						emit("delreturn", s.Pos(), s.End(), "_ = 0")
					}
					if len(s.Results) > 0 {
						last := s.Results[len(s.Results)-1]
						if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
							emit("nilerr", last.Pos(), last.End(), "nil")
						}
					}
				}
				// exchange neighbouring simple statements
				if i > 0 {
					_, a := l[i-1].(*ast.AssignStmt)
					_, b := s.(*ast.AssignStmt)
					_, c := l[i-1].(*ast.ExprStmt)
					_, d := s.(*ast.ExprStmt)
					if a && b && false || c && d && false {
						emit("swapstmt", l[i-1].Pos(), s.End(), text(s)+"; "+text(l[i-1]))
					}
				}
			}
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				if gd, ok := d.(*ast.GenDecl); !ok || gd.Tok == token.IMPORT || gd.Tok == token.TYPE {
					continue
				}
				fn = "decl"
			} else {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
				case *ast.BinaryExpr:
					var alt []string
					switch n.Op {
					case token.LSS:
						alt = []string{"<=", ">="}
					case token.LEQ:
						alt = []string{"<"}
					case token.GTR:
						alt = []string{">=", "<="}
					case token.GEQ:
						alt = []string{">"}
					case token.EQL:
						alt = []string{"!="}
					case token.NEQ:
						alt = []string{"=="}
					case token.LAND:
						alt = []string{"||"}
					case token.LOR:
						alt = []string{"&&"}
					case token.ADD:
						alt = []string{"-"}
					case token.SUB:
						alt = []string{"+"}
					case token.MUL:
						alt = []string{"+"}
					case token.AND:
						alt = []string{"|"}
					case token.OR:
						alt = []string{"&", "^"}
					case token.SHL:
						alt = []string{">>"}
					case token.SHR:
						alt = []string{"<<"}
					case token.XOR:
						alt = []string{"|"}
					}
					for _, a := range alt {
						emit("op"+n.Op.String()+"→"+a, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit("unary", n.Pos(), n.Pos()+1, "")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT && n.Value != "0" || n.Kind == token.INT && zeroes {
						if v, err := strconv.ParseUint(n.Value, 0, 64); err == nil {
							emit("int+1", n.Pos(), n.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int-1", n.Pos(), n.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit("bool", n.Pos(), n.End(), "false")
					}
					if n.Name == "false" {
						emit("bool", n.Pos(), n.End(), "true")
					}
				case *ast.CallExpr:
					for i := 1; i < len(n.Args); i++ {
						if se, ok := n.Fun.(*ast.SelectorExpr); ok && (commutative[se.Sel.Name]) {
							continue
						}
						if text(n.Args[i]) != text(n.Args[i-1]) {
							emit("swapargs", n.Args[i-1].Pos(), n.Args[i].End(), text(n.Args[i])+", "+text(n.Args[i-1]))
						}
					}
					if se, ok := n.Fun.(*ast.SelectorExpr); ok {
						if x, ok := se.X.(*ast.Ident); ok && x.Name == "bits" && len(n.Args) == 3 && text(n.Args[2]) != "0" {
							emit("nocarry", n.Args[2].Pos(), n.Args[2].End(), "0&"+text(n.Args[2]))
						}
						if alt, ok := map[string]string{"Add": "Sub", "Sub": "Add", "AddEq": "SubEq", "SubEq": "AddEq", "RLock": "Lock", "Lock": "RLock", "Sub64": "Add64", "Add64": "Sub64"}[se.Sel.Name]; ok {
							emit("method", se.Sel.Pos(), se.Sel.End(), alt)
						}
					}
				case *ast.SelectorExpr:
					// exchange neighbouring coordinates
					if alt, ok := map[string]string{"x": "y", "y": "x", "z": "t", "t": "z"}[n.Sel.Name]; ok {
						emit("field", n.Sel.Pos(), n.Sel.End(), alt)
					}
				}
				return true
			})
		}
	}
}
