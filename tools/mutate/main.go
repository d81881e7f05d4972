// Command mutate lists one-edit variants of the Go files of a package as JSON
// lines: {"file","from","to","new","op","line"}. Used to look for changes the
// checks miss (tools/mutate.py); no check depends on it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Line int    `json:"line"`
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedCompiledGoFiles, Dir: dir}
	ps, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range ps {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(dir, name)
			src, _ := os.ReadFile(name)
			off := func(x token.Pos) int { return p.Fset.Position(x).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			emit := func(n ast.Node, nw, op string) {
				if nw == text(n) {
					return
				}
				enc.Encode(mut{rel, off(n.Pos()), off(n.End()), nw, op, p.Fset.Position(n.Pos()).Line})
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BasicLit:
						if x.Kind == token.INT {
							v, err := strconv.ParseInt(x.Value, 0, 64)
							if err == nil {
								emit(x, fmt.Sprint(v+1), "lit")
								if v > 0 {
									emit(x, fmt.Sprint(v-1), "lit")
								}
							}
						}
					case *ast.BinaryExpr:
						var alt []token.Token
						switch x.Op {
						case token.ADD:
							alt = []token.Token{token.SUB}
						case token.SUB:
							alt = []token.Token{token.ADD}
						case token.LSS:
							alt = []token.Token{token.LEQ, token.GTR}
						case token.LEQ:
							alt = []token.Token{token.LSS}
						case token.GTR:
							alt = []token.Token{token.GEQ, token.LSS}
						case token.GEQ:
							alt = []token.Token{token.GTR}
						case token.EQL:
							alt = []token.Token{token.NEQ}
						case token.NEQ:
							alt = []token.Token{token.EQL}
						case token.LAND:
							alt = []token.Token{token.LOR}
						case token.LOR:
							alt = []token.Token{token.LAND}
						case token.SHL:
							alt = []token.Token{token.SHR}
						case token.SHR:
							alt = []token.Token{token.SHL}
						case token.AND:
							alt = []token.Token{token.OR}
						case token.OR:
							alt = []token.Token{token.AND, token.XOR}
						case token.MUL:
							alt = []token.Token{token.ADD}
						case token.QUO:
							alt = []token.Token{token.MUL}
						}
						for _, a := range alt {
							emit(x, text(x.X)+" "+a.String()+" "+text(x.Y), "binop")
						}
						if x.Op == token.LAND || x.Op == token.LOR {
							emit(x, text(x.X), "half")
							emit(x, text(x.Y), "half")
						}
					case *ast.UnaryExpr:
						if x.Op == token.NOT {
							emit(x, text(x.X), "not")
						}
					case *ast.BlockStmt:
						for _, s := range x.List {
							switch y := s.(type) {
							case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
								emit(s, "", "drop")
							case *ast.AssignStmt:
								if y.Tok != token.DEFINE {
									emit(s, "", "drop")
								}
							case *ast.IfStmt:
								if y.Init == nil && y.Else == nil {
									emit(s, "", "dropif")
								}
								if y.Init == nil {
									emit(y.Cond, "("+text(y.Cond)+") || true", "always")
								}
							case *ast.BranchStmt:
								if y.Tok == token.CONTINUE {
									emit(s, "break", "branch")
								} else if y.Tok == token.BREAK {
									emit(s, "", "branch")
								}
							}
						}
						for i := 0; i+1 < len(x.List); i++ {
							a, b := x.List[i], x.List[i+1]
							src2 := text(b) + "\n" + text(a)
							enc.Encode(mut{rel, off(a.Pos()), off(b.End()), src2, "swap", p.Fset.Position(a.Pos()).Line})
						}
					case *ast.SelectorExpr:
						sel := p.TypesInfo.Selections[x]
						if sel != nil && sel.Kind() == types.FieldVal {
							t := sel.Recv()
							if pt, ok := t.Underlying().(*types.Pointer); ok {
								t = pt.Elem()
							}
							st, ok := t.Underlying().(*types.Struct)
							if !ok || len(sel.Index()) != 1 {
								break
							}
							cnt := 0
							for i := 0; i < st.NumFields(); i++ {
								g := st.Field(i)
								if i != sel.Index()[0] && types.Identical(g.Type(), sel.Type()) && cnt < 2 && (i > sel.Index()[0] || i == sel.Index()[0]-1) {
									emit(x, text(x.X)+"."+g.Name(), "field")
									cnt++
								}
							}
						}
						if sel != nil && sel.Kind() == types.MethodVal {
							names := map[string][]string{"WriteUint16": {"WriteUint32"}, "WriteUint32": {"WriteUint16"}, "ReadUint16": {"ReadUint32"}, "ReadUint32": {"ReadUint16"}, "WriteByte": {"WriteUint16"}}
							for _, a := range names[x.Sel.Name] {
								emit(x.Sel, a, "method")
							}
						}
					case *ast.ReturnStmt:
						if n := len(x.Results); n > 0 {
							last := text(x.Results[n-1])
							if last == "err" || strings.HasPrefix(last, "Err") || strings.HasPrefix(last, "errors.") {
								emit(x.Results[n-1], "nil", "nilerr")
							}
							if n > 1 && last == "nil" {
								if id := text(x.Results[0]); id == "n" || strings.HasPrefix(id, "len(") || strings.HasPrefix(id, "count") {
									emit(x.Results[0], id+" - 1", "ret")
								}
							}
						}
					case *ast.CallExpr:
						if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "byte" || id.Name == "uint16" || id.Name == "uint32") && len(x.Args) == 1 {
							if id.Name != "byte" {
								emit(x, id.Name+"(byte("+text(x.Args[0])+"))", "trunc")
							}
						}
						for i := 0; i+1 < len(x.Args); i++ {
							if types.Identical(p.TypesInfo.TypeOf(x.Args[i]), p.TypesInfo.TypeOf(x.Args[i+1])) {
								enc.Encode(mut{rel, off(x.Args[i].Pos()), off(x.Args[i+1].End()), text(x.Args[i+1]) + ", " + text(x.Args[i]), "args", p.Fset.Position(x.Pos()).Line})
							}
						}
					case *ast.SliceExpr:
						if x.High != nil {
							emit(x.High, text(x.High)+"-1", "slice")
						}
						if x.Low != nil {
							emit(x.Low, text(x.Low)+"+1", "slice")
						} else {
							emit(x, text(x.X)+"[1:"+func() string {
								if x.High != nil {
									return text(x.High)
								}
								return ""
							}()+"]", "slice")
						}
					}
					return true
				})
			}
		}
	}
}
