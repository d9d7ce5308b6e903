// Command automut lists mechanical changes of the Go files of a directory tree,
// as JSON lines: file, offset, length, replacement, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	File     string
	Line     int
	Off, Len int
	New      string
	What     string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() && strings.HasPrefix(fi.Name(), ".") {
			if fi.IsDir() && p != root {
				return filepath.SkipDir
			}
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "testing") || strings.Contains(p, "example") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, p)
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, z token.Pos, new, what string) {
			enc.Encode(edit{rel, fset.Position(a).Line, off(a), off(z) - off(a), new, what})
		}
		short := func(s string) string {
			s = strings.Join(strings.Fields(s), " ")
			if len(s) > 60 {
				s = s[:60] + "..."
			}
			return s
		}
		simple := func(s ast.Stmt) bool {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
				return true
			case *ast.AssignStmt:
				return s.Tok != token.DEFINE
			}
			return false
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				if simple(s) {
					emit(s.Pos(), s.End(), "", "delete "+short(text(s)))
				}
				if i+1 < len(l) {
					if _, ok := l[i+1].(*ast.ReturnStmt); !ok && (simple(s) || simple(l[i+1])) {
						emit(s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s), "swap "+short(text(s))+" // "+short(text(l[i+1])))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
				if n.List != nil {
					emit(n.Pos(), n.End(), "", "delete "+short(text(n)))
				}
			case *ast.CommClause:
				list(n.Body)
				emit(n.Pos(), n.End(), "", "delete "+short(text(n)))
			case *ast.IfStmt:
				c := text(n.Cond)
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")", "never "+short(c))
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+c+")", "always "+short(c))
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "no loop "+short(text(n.Cond)))
				}
			case *ast.BinaryExpr:
				for _, p := range [][2]token.Token{{token.LSS, token.LEQ}, {token.LEQ, token.LSS}, {token.GTR, token.GEQ}, {token.GEQ, token.GTR}, {token.EQL, token.NEQ}, {token.NEQ, token.EQL}, {token.LAND, token.LOR}, {token.LOR, token.LAND}, {token.ADD, token.SUB}, {token.SUB, token.ADD}, {token.LSS, token.GTR}, {token.MUL, token.ADD}} {
					if n.Op == p[0] {
						emit(n.OpPos, n.OpPos+token.Pos(len(p[0].String())), p[1].String(), p[1].String()+" in "+short(text(n)))
					}
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "const "+n.Value+"+1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "const "+n.Value+"-1")
						}
						if v > 2 {
							emit(n.Pos(), n.End(), fmt.Sprint(v*2), "const "+n.Value+"*2")
							emit(n.Pos(), n.End(), fmt.Sprint(v/2), "const "+n.Value+"/2")
						}
					}
				}
			case *ast.BranchStmt:
				if n.Tok == token.CONTINUE && n.Label == nil {
					emit(n.Pos(), n.End(), "break", "break for continue")
				}
				emit(n.Pos(), n.End(), "", "no "+n.Tok.String())
			case *ast.DeferStmt:
				emit(n.Pos(), n.Call.Pos(), "", "at once "+short(text(n)))
			case *ast.GoStmt:
				emit(n.Pos(), n.Call.Pos(), "", "not in the background "+short(text(n)))
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch t := text(r); t {
					case "true":
						emit(r.Pos(), r.End(), "false", "return false")
					case "false":
						emit(r.Pos(), r.End(), "true", "return true")
					case "err":
						emit(r.Pos(), r.End(), "nil", "return nil error")
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "0", "slice from 0 "+short(text(n)))
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "", "slice to the end "+short(text(n)))
				}
			}
			return true
		})
		return nil
	})
}
