// Command mutate writes single-edit variants of Go files: mutate OUTDIR FILE... (development tool; no check uses it).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	what     string
}

type mutant struct {
	ID, File, Out, What, Func string
	Line                      int
}

var binops = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|", "&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	out := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		n := 0
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if strings.Contains(strings.ToLower(fd.Name.Name), "dot") {
				continue
			}
			var edits []edit
			add := func(a, b token.Pos, t, w string) { edits = append(edits, edit{off(a), off(b), t, w}) }
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BinaryExpr:
					for _, o := range binops[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, text(x)+" : "+x.Op.String()+" -> "+o)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add(x.Pos(), x.End(), text(x.X), text(x)+" -> left")
						add(x.Pos(), x.End(), text(x.Y), text(x)+" -> right")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							add(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" +1")
							add(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -1")
						}
					}
					if x.Kind == token.CHAR {
						add(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" +1")
						add(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+" -1")
					}
				case *ast.Ident:
					switch x.Name {
					case "true":
						add(x.Pos(), x.End(), "false", "true -> false")
					case "false":
						add(x.Pos(), x.End(), "true", "false -> true")
					case "dirLeft":
						add(x.Pos(), x.End(), "dirRight", "dirLeft -> dirRight")
					case "dirRight":
						add(x.Pos(), x.End(), "dirLeft", "dirRight -> dirLeft")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add(x.Pos(), x.End(), text(x.X), text(x)+" -> without !")
					}
				case *ast.IfStmt:
					add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+" || true)", "if "+text(x.Cond)+" -> true")
					add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+" && false)", "if "+text(x.Cond)+" -> false")
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 {
						switch s.Sel.Name {
						case "fullCopy", "copy":
							add(x.Pos(), x.End(), text(s.X), text(x)+" -> uncopied")
						}
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						sw := map[string]string{"Insert": "InplaceInsert", "RawInsert": "", "fullCopy": "", "ExactMatch": "Match", "Match": "ExactMatch"}
						if to := sw[s.Sel.Name]; to != "" {
							add(s.Sel.Pos(), s.Sel.End(), to, s.Sel.Name+" -> "+to)
						}
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.AND_ASSIGN || x.Tok == token.OR_ASSIGN || x.Tok == token.QUO_ASSIGN {
						lhs := []string{}
						for range x.Lhs {
							lhs = append(lhs, "_")
						}
						rhs := []string{}
						for _, r := range x.Rhs {
							rhs = append(rhs, text(r))
						}
						add(x.Pos(), x.End(), strings.Join(lhs, ", ")+" = "+strings.Join(rhs, ", "), "drop "+text(x))
					}
				case *ast.IncDecStmt:
					add(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.ExprStmt:
					add(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.SendStmt:
					add(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.BranchStmt:
					add(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.KeyValueExpr:
					if _, ok := x.Key.(*ast.Ident); ok {
						// dropping a field of a composite literal
						e := off(x.End())
						for e < len(src) && (src[e] == ' ') {
							e++
						}
						if e < len(src) && src[e] == ',' {
							add(x.Pos(), token.Pos(int(x.End())+e-off(x.End())+1), "", "drop field "+text(x))
						}
					}
				}
				return true
			})
			for _, e := range edits {
				n++
				b := string(src[:e.pos]) + e.text + string(src[e.end:])
				id := fmt.Sprintf("%s-%03d", strings.ReplaceAll(strings.TrimSuffix(strings.TrimPrefix(f, "/repo/"), ".go"), "/", "-"), n)
				o := filepath.Join(out, id+".go")
				if err := os.WriteFile(o, []byte(b), 0o644); err != nil {
					panic(err)
				}
				enc.Encode(mutant{id, f, o, e.what, fd.Name.Name, 1 + strings.Count(string(src[:e.pos]), "\n")})
			}
		}
	}
}
