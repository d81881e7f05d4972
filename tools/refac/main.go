// Command refac rewrites every function of the packages under DIR with one
// behaviour-preserving transformation. usage: refac DIR OP PATTERN...
// Used by tools/refac.sh to look for false alarms; no check depends on it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	pkg *packages.Package
	n   int
	cnt int
)

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func fresh(p string) string  { n++; return fmt.Sprintf("%s%d", p, n) }
func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// has: does n contain a node for which f holds (not looking into closures)?
func has(n ast.Node, f func(ast.Node) bool) (r bool) {
	if n == nil {
		return false
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			return false
		}
		if x != nil && f(x) {
			r = true
		}
		return !r
	})
	return
}
func isBranch(x ast.Node) bool {
	switch x.(type) {
	case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
		return true
	}
	return false
}
func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		b, ok := s.Else.(*ast.BlockStmt)
		return ok && terminates(s.Body.List) && terminates(b.List)
	case *ast.BlockStmt:
		return terminates(s.List)
	}
	return false
}

// lists applies f to every statement list of the function.
func lists(fd *ast.FuncDecl, f func([]ast.Stmt) []ast.Stmt) {
	var at []*[]ast.Stmt
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			at = append(at, &b.List)
		case *ast.CaseClause:
			at = append(at, &b.Body)
		case *ast.CommClause:
			at = append(at, &b.Body)
		}
		return true
	})
	for i := len(at) - 1; i >= 0; i-- {
		*at[i] = f(*at[i])
	}
}
func replace(fd *ast.FuncDecl, f func(c *astutil.Cursor)) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool { f(c); return true })
}

func typeExpr(t types.Type, file *ast.File) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string {
		if p == pkg.Types {
			return ""
		}
		for _, im := range file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() && im.Name != nil {
				return im.Name.Name
			}
		}
		return p.Name()
	}), "any", "interface{}")
}
func parseType(s string) ast.Expr { return id(s) } // printed verbatim

var extra []ast.Decl

func transform(op string, fd *ast.FuncDecl, file *ast.File) {
	switch op {
	case "invert": // if c A else B -> if !c B else A
		replace(fd, func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				if b, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond, s.Body, s.Else = not(s.Cond), b, s.Body
					cnt++
				}
			}
		})
	case "elsify": // if c {return}; rest -> if c {return} else {rest}
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			if !terminates(l) {
				return l
			}
			for i := len(l) - 2; i >= 0; i-- {
				s, ok := l[i].(*ast.IfStmt)
				if ok && s.Else == nil && terminates(s.Body.List) {
					s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
					l = l[:i+1]
					cnt++
				}
			}
			return l
		})
	case "negret": // if c {return A}; return B -> if !c {return B}; return A
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			if k := len(l); k >= 2 {
				s, ok := l[k-2].(*ast.IfStmt)
				r, ok2 := l[k-1].(*ast.ReturnStmt)
				if ok && ok2 && s.Else == nil && s.Init == nil && terminates(s.Body.List) {
					body := s.Body.List
					s.Cond = not(s.Cond)
					s.Body = &ast.BlockStmt{List: []ast.Stmt{r}}
					cnt++
					return append(append([]ast.Stmt{}, l[:k-1]...), body...)
				}
			}
			return l
		})
	case "flatten": // if err != nil {return}; rest(terminating) -> if err == nil { rest }; return
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			if !terminates(l) {
				return l
			}
			for i := len(l) - 2; i >= 0; i-- {
				s, ok := l[i].(*ast.IfStmt)
				if ok && s.Else == nil && s.Init == nil && terminates(s.Body.List) {
					body := s.Body.List
					s.Body = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
					s.Cond = not(s.Cond)
					l = append(append([]ast.Stmt{}, l[:i+1]...), body...)
					cnt++
				}
			}
			return l
		})
	case "index": // for _, v := range s -> for i := 0; i < len(s); i++ { v := s[i] }
		replace(fd, func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE || s.Value == nil {
				return
			}
			t := pkg.TypesInfo.TypeOf(s.X)
			if t == nil {
				return
			}
			if _, ok := t.Underlying().(*types.Slice); !ok {
				return
			}
			xs := fresh("xs")
			i := fresh("i")
			if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
				i = k.Name
			}
			body := append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(xs), Index: id(i)}}}}, s.Body)
			loop := &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id(i)}, Tok: token.DEFINE, Rhs: []ast.Expr{id("0")}},
				Cond: &ast.BinaryExpr{X: id(i), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs)}}},
				Post: &ast.IncDecStmt{X: id(i), Tok: token.INC}, Body: &ast.BlockStmt{List: body}}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(xs)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}, loop}})
			cnt++
		})
	case "while": // for init; c; post -> init; for c { body; post }
		replace(fd, func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.ForStmt)
			if !ok || s.Init == nil || s.Post == nil || has(s.Body, func(x ast.Node) bool { b, ok := x.(*ast.BranchStmt); return ok && b.Tok == token.CONTINUE }) {
				return
			}
			nf := &ast.ForStmt{Cond: s.Cond, Body: &ast.BlockStmt{List: append(append([]ast.Stmt{}, s.Body.List...), s.Post)}}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{s.Init, nf}})
			cnt++
		})
	case "forever": // for c { body } -> for { if !c {break}; body }
		replace(fd, func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.ForStmt)
			if !ok || s.Cond == nil {
				return
			}
			s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
			s.Cond = nil
			cnt++
		})
	case "backwards": // counting loops without a use of the counter run down
		replace(fd, func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.ForStmt)
			if !ok || s.Init == nil || s.Cond == nil {
				return
			}
			in, ok := s.Init.(*ast.AssignStmt)
			cd, ok2 := s.Cond.(*ast.BinaryExpr)
			if !ok || !ok2 || cd.Op != token.LSS || len(in.Lhs) != 1 {
				return
			}
			iv, ok := in.Lhs[0].(*ast.Ident)
			if !ok {
				return
			}
			if lit, ok := in.Rhs[0].(*ast.BasicLit); !ok || lit.Value != "0" {
				return
			}
			if has(s.Body, func(x ast.Node) bool { i, ok := x.(*ast.Ident); return ok && i.Name == iv.Name }) {
				return
			}
			if has(cd.Y, func(x ast.Node) bool { _, ok := x.(*ast.CallExpr); return ok }) {
				if call, ok := cd.Y.(*ast.CallExpr); !ok || fmt.Sprint(call.Fun) != "int" {
					return
				}
			}
			in.Rhs[0] = cd.Y
			s.Cond = &ast.BinaryExpr{X: id(iv.Name), Op: token.GTR, Y: id("0")}
			s.Post = &ast.IncDecStmt{X: id(iv.Name), Tok: token.DEC}
			cnt++
		})
	case "closure": // body -> return func() T { body }()
		if fd.Type.Results == nil || len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
			return
		}
		fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: fl}}}}}
		cnt++
	case "named": // return a, b -> r0, r1 = a, b; return
		if fd.Type.Results == nil || len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
			return
		}
		var names []ast.Expr
		for _, f := range fd.Type.Results.List {
			nm := fresh("res")
			f.Names = []*ast.Ident{id(nm)}
			names = append(names, id(nm))
		}
		var walk func(x ast.Node)
		lists(fd, func(l []ast.Stmt) []ast.Stmt { return l })
		_ = walk
		astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
			if _, ok := c.Node().(*ast.FuncLit); ok {
				return false
			}
			if r, ok := c.Node().(*ast.ReturnStmt); ok && len(r.Results) > 0 && c.Index() >= 0 {
				c.InsertBefore(&ast.AssignStmt{Lhs: names, Tok: token.ASSIGN, Rhs: r.Results})
				c.Replace(&ast.ReturnStmt{})
				cnt++
			}
			return true
		}, nil)
	case "temps": // f(a.b) -> t := a.b; f(t)
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if e, ok := s.(*ast.ExprStmt); ok {
					if call, ok := e.X.(*ast.CallExpr); ok {
						calls := 0
						for _, a := range call.Args {
							if has(a, func(x ast.Node) bool { _, ok := x.(*ast.CallExpr); return ok }) {
								calls++
							}
						}
						if tv := pkg.TypesInfo.Types[call.Fun]; !tv.IsBuiltin() && calls <= 1 {
							for i, a := range call.Args {
								av := pkg.TypesInfo.Types[a]
								if av.Type == nil || av.Value != nil || av.IsNil() {
									continue
								}
								if _, ok := a.(*ast.FuncLit); ok {
									continue
								}
								t := fresh("t")
								out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
								call.Args[i] = id(t)
								cnt++
							}
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "group": // runs of expression statements in a closure
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for i := 0; i < len(l); {
				j := i
				for j < len(l) {
					e, ok := l[j].(*ast.ExprStmt)
					if !ok || has(e, func(x ast.Node) bool { c, ok := x.(*ast.Ident); return ok && c.Name == "recover" }) {
						break
					}
					j++
				}
				if j-i >= 2 {
					out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: append([]ast.Stmt{}, l[i:j]...)}}}})
					cnt++
				} else {
					j = i + 1
					out = append(out, l[i])
				}
				i = j
			}
			return out
		})
	case "outline": // runs of expression statements and branch-free ifs in a new function
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for i := 0; i < len(l); {
				j := i
				for j < len(l) {
					_, ok := l[j].(*ast.ExprStmt)
					if f, isIf := l[j].(*ast.IfStmt); isIf && !has(f, isBranch) {
						ok = true
					}
					if !ok || has(l[j], func(x ast.Node) bool {
						switch c := x.(type) {
						case *ast.Ident:
							return c.Name == "recover" || c.Name[0] == '&'
						case *ast.AssignStmt:
							for _, lh := range c.Lhs {
								if lid, ok := lh.(*ast.Ident); ok && c.Tok != token.DEFINE {
									_ = lid
									return true
								}
							}
						case *ast.IncDecStmt:
							_, ok := c.X.(*ast.Ident)
							return ok
						case *ast.UnaryExpr:
							_, ok := c.X.(*ast.Ident)
							return c.Op == token.AND && ok
						case *ast.SelectorExpr:
							// a method with a pointer receiver on a local
							if sel := pkg.TypesInfo.Selections[c]; sel != nil && sel.Kind() == types.MethodVal {
								if fn, ok := sel.Obj().(*types.Func); ok {
									_, ptr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer)
									_, isp := sel.Recv().(*types.Pointer)
									if x, ok := c.X.(*ast.Ident); ptr && !isp && !ok {
										_ = x
										return true
									}
								}
							}
						}
						return false
					}) {
						break
					}
					j++
				}
				if j-i >= 2 {
					vars := map[*types.Var]bool{}
					decl := map[*types.Var]bool{}
					for _, s := range l[i:j] {
						ast.Inspect(s, func(x ast.Node) bool {
							if q, ok := x.(*ast.Ident); ok {
								if d, ok := pkg.TypesInfo.Defs[q].(*types.Var); ok {
									decl[d] = true
								}
								if v, ok := pkg.TypesInfo.Uses[q].(*types.Var); ok && !v.IsField() && v.Parent() != pkg.Types.Scope() && v.Pkg() == pkg.Types {
									vars[v] = true
								}
							}
							return true
						})
					}
					var vs []*types.Var
					bad := false
					byPtr := map[*types.Var]bool{}
					for v := range vars {
						if !decl[v] {
							vs = append(vs, v)
							if _, ok := v.Type().Underlying().(*types.Struct); ok {
								byPtr[v] = true
							}
						}
					}
					for _, s := range l[i:j] { // structs are passed by pointer: every use must be a selection
						uses := map[*types.Var]int{}
						ast.Inspect(s, func(x ast.Node) bool {
							switch q := x.(type) {
							case *ast.Ident:
								if v, ok := pkg.TypesInfo.Uses[q].(*types.Var); ok {
									uses[v]++
								}
							case *ast.SelectorExpr:
								if i, ok := q.X.(*ast.Ident); ok {
									if v, ok := pkg.TypesInfo.Uses[i].(*types.Var); ok {
										uses[v]--
									}
								}
							}
							return true
						})
						for v := range byPtr {
							bad = bad || uses[v] != 0
						}
					}
					if !bad {
						sort.Slice(vs, func(a, b int) bool { return vs[a].Pos() < vs[b].Pos() })
						nm := fresh("part")
						fl := &ast.FieldList{}
						var args []ast.Expr
						for _, v := range vs {
							if byPtr[v] {
								fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: parseType("*" + typeExpr(v.Type(), file))})
								args = append(args, id("&"+v.Name()))
								continue
							}
							fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: parseType(typeExpr(v.Type(), file))})
							args = append(args, id(v.Name()))
						}
						extra = append(extra, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: fl}, Body: &ast.BlockStmt{List: append([]ast.Stmt{}, l[i:j]...)}})
						out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: id(nm), Args: args}})
						cnt++
						i = j
						continue
					}
				}
				out = append(out, l[i])
				i++
			}
			return out
		})
	case "cmp": // a == b -> b == a, a < b -> b > a
		m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		replace(fd, func(c *astutil.Cursor) {
			if e, ok := c.Node().(*ast.BinaryExpr); ok {
				if o, ok := m[e.Op]; ok && !(has(e.X, isCall) && has(e.Y, isCall)) {
					e.X, e.Y, e.Op = &ast.ParenExpr{X: e.Y}, &ast.ParenExpr{X: e.X}, o
					cnt++
				}
			}
		})
	case "negcmp": // a == b -> !(a != b)
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
		replace(fd, func(c *astutil.Cursor) {
			if e, ok := c.Node().(*ast.BinaryExpr); ok {
				if o, ok := m[e.Op]; ok {
					c.Replace(not(&ast.BinaryExpr{X: e.X, Op: o, Y: e.Y}))
					cnt++
				}
			}
		})
	case "morgan":
		replace(fd, func(c *astutil.Cursor) {
			if e, ok := c.Node().(*ast.BinaryExpr); ok {
				if e.Op == token.LAND {
					c.Replace(not(&ast.BinaryExpr{X: not(e.X), Op: token.LOR, Y: not(e.Y)}))
					cnt++
				} else if e.Op == token.LOR {
					c.Replace(not(&ast.BinaryExpr{X: not(e.X), Op: token.LAND, Y: not(e.Y)}))
					cnt++
				}
			}
		})
	case "splitif": // if a && b {X} -> if a { if b {X} };  if a || b {return} -> if a {return}; if b {return}
		replace(fd, func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil {
				return
			}
			e, ok := s.Cond.(*ast.BinaryExpr)
			if ok && e.Op == token.LAND {
				s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: e.Y, Body: s.Body}}}
				s.Cond = e.X
				cnt++
			}
			if ok && e.Op == token.LOR && s.Init == nil && c.Index() >= 0 && terminates(s.Body.List) {
				c.InsertBefore(&ast.IfStmt{Cond: e.X, Body: s.Body})
				s.Cond = e.Y
				cnt++
			}
		})
	case "opassign": // x += y -> x = x + y; x++ -> x += 1
		replace(fd, func(c *astutil.Cursor) {
			switch s := c.Node().(type) {
			case *ast.IncDecStmt:
				o := token.ADD
				if s.Tok == token.DEC {
					o = token.SUB
				}
				c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: o, Y: id("1")}}})
				cnt++
			case *ast.AssignStmt:
				m := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.XOR_ASSIGN: token.XOR, token.OR_ASSIGN: token.OR}
				if o, ok := m[s.Tok]; ok && !has(s.Lhs[0], isCall) {
					s.Tok = token.ASSIGN
					s.Rhs[0] = &ast.BinaryExpr{X: s.Lhs[0], Op: o, Y: &ast.ParenExpr{X: s.Rhs[0]}}
					cnt++
				}
			}
		})
	case "nocap": // make([]T, 0, n) -> make([]T, 0)
		replace(fd, func(c *astutil.Cursor) {
			if e, ok := c.Node().(*ast.CallExpr); ok && fmt.Sprint(e.Fun) == "make" && len(e.Args) == 3 {
				e.Args = e.Args[:2]
				cnt++
			}
		})
	case "cap": // make([]T, 0) -> make([]T, 0, 8)
		replace(fd, func(c *astutil.Cursor) {
			if e, ok := c.Node().(*ast.CallExpr); ok && fmt.Sprint(e.Fun) == "make" && len(e.Args) == 2 {
				if l, ok := e.Args[1].(*ast.BasicLit); ok && l.Value == "0" {
					e.Args = append(e.Args, id("8"))
					cnt++
				}
			}
		})
	case "switchify": // if-chains -> switch { case }
		replace(fd, func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init != nil {
				return
			}
			if _, inElse := c.Parent().(*ast.IfStmt); inElse {
				return
			}
			if has(s, func(x ast.Node) bool { b, ok := x.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
				return
			}
			sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
			for x := s; ; {
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{x.Cond}, Body: x.Body.List})
				switch e := x.Else.(type) {
				case *ast.IfStmt:
					if e.Init != nil {
						return
					}
					x = e
					continue
				case *ast.BlockStmt:
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: e.List})
				}
				break
			}
			c.Replace(sw)
			cnt++
		})
	case "unswitch": // switch tag { case a, b: } -> if-chain
		replace(fd, func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || s.Init != nil || s.Tag == nil || has(s.Body, func(x ast.Node) bool { _, ok := x.(*ast.BranchStmt); return ok }) {
				return
			}
			tag := fresh("tag")
			var first, last *ast.IfStmt
			var def *ast.BlockStmt
			for _, cc := range s.Body.List {
				cl := cc.(*ast.CaseClause)
				if cl.List == nil {
					def = &ast.BlockStmt{List: cl.Body}
					continue
				}
				var cond ast.Expr
				for _, v := range cl.List {
					t := ast.Expr(&ast.BinaryExpr{X: id(tag), Op: token.EQL, Y: v})
					if cond == nil {
						cond = t
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
					}
				}
				i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cl.Body}}
				if first == nil {
					first = i
				} else {
					last.Else = i
				}
				last = i
			}
			if first == nil {
				return
			}
			if def != nil {
				last.Else = def
			}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(tag)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}}, first}})
			cnt++
		})
	case "scoped": // x, err := f(); if err != nil -> block-scoped temporaries
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for _, s := range l {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init == nil {
					continue
				}
				in := i.Init
				i.Init = nil
				*(&s) = s
				for k := range l {
					if l[k] == ast.Stmt(i) {
						l[k] = &ast.BlockStmt{List: []ast.Stmt{in, i}}
						cnt++
					}
				}
			}
			return l
		})
	case "lit": // T{A: x, B: y} := -> var v T; v.A = x ...
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
					cl, ok := a.Rhs[0].(*ast.CompositeLit)
					if ok && cl.Type != nil && len(cl.Elts) > 0 {
						if _, isS := pkg.TypesInfo.TypeOf(cl).Underlying().(*types.Struct); isS {
							kv := true
							for _, e := range cl.Elts {
								_, k := e.(*ast.KeyValueExpr)
								kv = kv && k
							}
							if kv {
								elts := cl.Elts
								cl.Elts = nil
								out = append(out, s)
								for _, e := range elts {
									x := e.(*ast.KeyValueExpr)
									out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(a.Lhs[0].(*ast.Ident).Name), Sel: x.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{x.Value}})
								}
								cnt++
								continue
							}
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "recvtemp": // entity.F, err = f() -> t, e := f(); if e == nil-independent: entity.F = t
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if ok && a.Tok == token.ASSIGN && len(a.Lhs) == 2 && len(a.Rhs) == 1 {
					if _, sel := a.Lhs[0].(*ast.SelectorExpr); sel {
						t, e := fresh("v"), fresh("e")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(t), id(e)}, Tok: token.DEFINE, Rhs: a.Rhs},
							&ast.AssignStmt{Lhs: a.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t), id(e)}})
						cnt++
						continue
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "loopbody": // branch-free loop bodies in a closure called each time
		replace(fd, func(c *astutil.Cursor) {
			var b *ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			}
			if b == nil || has(b, isBranch) {
				return
			}
			l := b.List
			b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}}}}}
			cnt++
		})
	case "bodyerr": // loop bodies that return errors in a closure giving the error
		if fd.Type.Results == nil {
			return
		}
		rs := 0
		for _, f := range fd.Type.Results.List {
			if len(f.Names) > 0 {
				return
			}
			rs++
		}
		replace(fd, func(c *astutil.Cursor) {
			var b *ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			}
			if b == nil {
				return
			}
			ok, some := true, false
			var first ast.Expr
			ast.Inspect(b, func(x ast.Node) bool {
				switch r := x.(type) {
				case *ast.FuncLit, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.ForStmt, *ast.RangeStmt:
					ok = false
				case *ast.ReturnStmt:
					some = true
					if len(r.Results) != 2 || rs != 2 {
						ok = false
						break
					}
					first = r.Results[0]
					if i, isI := r.Results[1].(*ast.Ident); !isI || i.Name == "nil" {
						ok = false
					}
				}
				return true
			})
			if !ok || !some {
				return
			}
			if fi, isI := first.(*ast.Ident); !isI || fi.Name != "nil" {
				if l, isL := first.(*ast.BasicLit); !isL || l.Value != "0" {
					return
				}
			}
			ast.Inspect(b, func(x ast.Node) bool {
				if r, ok := x.(*ast.ReturnStmt); ok {
					r.Results = r.Results[1:]
				}
				return true
			})
			l := append(b.List, &ast.ReturnStmt{Results: []ast.Expr{id("nil")}})
			f, e := fresh("step"), fresh("e")
			b.List = []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(f)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("error")}}}}, Body: &ast.BlockStmt{List: l}}}},
				&ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(e)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: id(f)}}}, Cond: &ast.BinaryExpr{X: id(e), Op: token.NEQ, Y: id("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{first, id(e)}}}}},
			}
			cnt++
		})
	case "inner": // the whole body in a new method/function with the same parameters
		if fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
			return
		}
		nm := fresh("inner")
		nd := &ast.FuncDecl{Name: id(nm), Recv: fd.Recv, Type: fd.Type, Body: fd.Body}
		var args []ast.Expr
		var ell token.Pos
		for _, f := range fd.Type.Params.List {
			if len(f.Names) == 0 {
				return
			}
			for _, nmx := range f.Names {
				if nmx.Name == "_" {
					return
				}
				args = append(args, id(nmx.Name))
			}
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
		}
		var fun ast.Expr = id(nm)
		if fd.Recv != nil {
			if len(fd.Recv.List[0].Names) == 0 {
				return
			}
			fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(nm)}
		}
		if has(fd.Body, func(x ast.Node) bool { i, ok := x.(*ast.Ident); return ok && i.Name == "recover" }) {
			return
		}
		call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
		if fd.Type.Results == nil {
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		} else {
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		}
		extra = append(extra, nd)
		cnt++
	default:
		panic("unknown transformation " + op)
	}
}
func isCall(x ast.Node) bool { _, ok := x.(*ast.CallExpr); return ok }

func main() {
	dir, op := os.Args[1], os.Args[2]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedCompiledGoFiles, Dir: dir}
	ps, err := packages.Load(cfg, os.Args[3:]...)
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		pkg = p
		if strings.Contains(p.PkgPath, "/example") {
			continue
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			extra = nil
			before := cnt
			if op == "rename" {
				rename(f)
			} else {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
						transform(op, fd, f)
					}
				}
			}
			if cnt == before {
				continue
			}
			f.Comments = nil
			f.Decls = append(f.Decls, extra...)
			ast.Inspect(f, func(x ast.Node) bool {
				switch d := x.(type) {
				case *ast.FuncDecl:
					d.Doc = nil
				case *ast.GenDecl:
					d.Doc = nil
				case *ast.Field:
					d.Doc, d.Comment = nil, nil
				case *ast.ValueSpec:
					d.Doc, d.Comment = nil, nil
				case *ast.TypeSpec:
					d.Doc, d.Comment = nil, nil
				case *ast.ImportSpec:
					d.Doc, d.Comment = nil, nil
				}
				return true
			})
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				fmt.Println(name, err)
				continue
			}
			os.WriteFile(name, buf.Bytes(), 0644)
		}
	}
	fmt.Println(op, cnt, "sites")
}

// rename gives every unexported function, method, field, type and variable of
// the package another name (those the tests mention keep theirs).
func rename(f *ast.File) {
	if keep == nil {
		keep = map[string]bool{"init": true, "main": true, "_": true}
		for _, k := range strings.Fields(os.Getenv("REFAC_KEEP")) {
			keep[k] = true
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		i, ok := x.(*ast.Ident)
		if !ok || i.IsExported() || keep[i.Name] {
			return true
		}
		o := pkg.TypesInfo.Defs[i]
		if o == nil {
			o = pkg.TypesInfo.Uses[i]
		}
		if o == nil || o.Pkg() != pkg.Types {
			return true
		}
		switch v := o.(type) {
		case *types.Var:
			if v.Embedded() {
				return true
			}
		case *types.Func, *types.TypeName, *types.Const:
		default:
			return true
		}
		i.Name = "z" + strings.ToUpper(i.Name[:1]) + i.Name[1:]
		cnt++
		return true
	})
}

var keep map[string]bool
