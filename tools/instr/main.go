// instr OUTDIR FILE...: writes an instrumented copy of every Go file to OUTDIR (as OUTDIR/<index>.go):
// a scheduling point before every statement, and package sync (sync/atomic) replaced by the scheduler-aware one.
// With the flag -reset as first argument of a group "-reset PKGDIR" an extra file with a function ZzReset is written for
// the package (OUTDIR/reset_<n>.go): it empties the package's maps that are empty at program start.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rt = "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/"

type ins struct {
	off  int
	text string
	del  int
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	out := os.Args[1]
	resets := map[string][]string{}
	pkgs := map[string]string{}
	for i, f := range os.Args[2:] {
		src, err := os.ReadFile(f)
		die(err)
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		die(err)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var edits []ins
		edits = append(edits, ins{off(file.Name.End()), `; import vkY "` + rt + `vksched"`, 0})
		for _, im := range file.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			var n, name string
			switch p {
			case "sync":
				n, name = rt+"vksync", "sync"
			case "sync/atomic":
				n, name = rt+"vkatomic", "atomic"
			default:
				continue
			}
			if im.Name != nil {
				name = ""
			}
			edits = append(edits, ins{off(im.Path.Pos()), name + ` "` + n + `"`, len(im.Path.Value)})
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				edits = append(edits, ins{off(s.Pos()), "vkY.Y();", 0})
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.BlockStmt:
				list(s.List)
			case *ast.CaseClause:
				list(s.Body)
			case *ast.CommClause:
				list(s.Body)
			}
			return true
		})
		// package-level maps that start out empty
		dir := filepath.Dir(f)
		pkgs[dir] = file.Name.Name
		for _, d := range file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for j, name := range v.Names {
					if name.Name == "_" {
						continue
					}
					if _, ok := v.Type.(*ast.MapType); ok && len(v.Values) == 0 {
						resets[dir] = append(resets[dir], name.Name)
					}
					if j < len(v.Values) {
						switch x := v.Values[j].(type) {
						case *ast.CallExpr:
							if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 {
								if _, ok := x.Args[0].(*ast.MapType); ok {
									resets[dir] = append(resets[dir], name.Name)
								}
							}
						case *ast.CompositeLit:
							if _, ok := x.Type.(*ast.MapType); ok && len(x.Elts) == 0 {
								resets[dir] = append(resets[dir], name.Name)
							}
						}
					}
				}
			}
		}
		sort.SliceStable(edits, func(a, b int) bool { return edits[a].off < edits[b].off })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(src[last:e.off])
			b.WriteString(e.text)
			last = e.off + e.del
		}
		b.Write(src[last:])
		b.WriteString("\n\nvar _ = vkY.Y\n")
		die(os.WriteFile(filepath.Join(out, fmt.Sprintf("%d.go", i)), []byte(b.String()), 0o644))
	}
	for dir, pkg := range pkgs {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n// ZzReset empties the package's caches.\nfunc ZzReset() {\n", pkg)
		for _, n := range resets[dir] {
			fmt.Fprintf(&b, "\tfor k := range %s {\n\t\tdelete(%s, k)\n\t}\n", n, n)
		}
		b.WriteString("}\n")
		die(os.WriteFile(filepath.Join(out, "reset_"+strings.ReplaceAll(dir, "/", "_")+".go"), []byte(b.String()), 0o644))
	}
}
