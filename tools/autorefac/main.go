// autorefac rewrites a package in a way that does not change behaviour.
// usage: autorefac DIR TRANSFORM PKGSUFFIX [FUNC]   (DIR is rewritten in place)
// With TRANSFORM = list it prints the functions of the package.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

var (
	pkg  *packages.Package
	fset *token.FileSet
	n    int
	uniq int
)

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func fresh(s string) string  { uniq++; return s + strconv.Itoa(uniq) + "p" + strconv.Itoa(os.Getpid()) }

func funcName(d *ast.FuncDecl) string {
	if d.Recv == nil {
		return d.Name.Name
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	return t.(*ast.Ident).Name + "." + d.Name.Name
}

func main() {
	dir, tr, suf := os.Args[1], os.Args[2], os.Args[3]
	only := ""
	if len(os.Args) > 4 {
		only = os.Args[4]
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, "./"+suf)
	if err != nil || len(pkgs) != 1 {
		panic(fmt.Sprint(err, len(pkgs)))
	}
	pkg = pkgs[0]
	fset = pkg.Fset
	for _, f := range pkg.Syntax {
		name := fset.Position(f.Pos()).Filename
		changed := false
		var extra []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if tr == "list" {
				fmt.Println(funcName(fd))
				continue
			}
			if only != "" && funcName(fd) != only {
				continue
			}
			n = 0
			if x := apply(tr, fd); x != nil {
				extra = append(extra, x...)
			}
			if n > 0 {
				changed = true
			}
		}
		n = 0
		fileLevel(tr, f)
		if n > 0 {
			changed = true
		}
		f.Decls = append(f.Decls, extra...)
		if !changed {
			continue
		}
		f.Comments = nil
		ast.Inspect(f, func(x ast.Node) bool {
			switch d := x.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
			case *ast.GenDecl:
				d.Doc = nil
			case *ast.Field:
				d.Doc, d.Comment = nil, nil
			}
			return true
		})
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			panic(err)
		}
		if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
		fmt.Println("changed", name)
	}
}

func typeExpr(t types.Type, f *ast.File) ast.Expr { return nil }

// qual writes a type as the file of the package would.
func typeText(t types.Type, imports map[string]string) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == pkg.Types {
			return ""
		}
		if n, found := imports[p.Path()]; found {
			return n
		}
		ok = false
		return p.Name()
	})
	return s, ok
}

func fileOf(d *ast.FuncDecl) *ast.File {
	for _, f := range pkg.Syntax {
		if f.Pos() <= d.Pos() && d.End() <= f.End() {
			return f
		}
	}
	return nil
}

func importsOf(f *ast.File) map[string]string {
	m := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if i.Name != nil {
			m[p] = i.Name.Name
		} else if q := pkg.Imports[p]; q != nil {
			m[p] = q.Name
		}
	}
	return m
}

// blocks calls f on every statement list.
func blocks(x ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(x, func(y ast.Node) bool {
		switch b := y.(type) {
		case *ast.BlockStmt:
			b.List = f(b.List)
		case *ast.CaseClause:
			b.Body = f(b.Body)
		}
		return true
	})
}

func hasBreak(x ast.Node) bool {
	r := false
	ast.Inspect(x, func(y ast.Node) bool {
		switch b := y.(type) {
		case *ast.BranchStmt:
			if b.Tok == token.BREAK {
				r = true
			}
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.FuncLit:
			if y != x {
				return false
			}
		}
		return true
	})
	return r
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

func params(l *ast.FieldList) (names []string, ok bool) {
	if l == nil {
		return nil, true
	}
	for _, f := range l.List {
		if len(f.Names) == 0 {
			return nil, false
		}
		for _, x := range f.Names {
			if x.Name == "_" {
				return nil, false
			}
			names = append(names, x.Name)
		}
		if _, v := f.Type.(*ast.Ellipsis); v {
			return nil, false
		}
	}
	return names, true
}

func apply(tr string, d *ast.FuncDecl) []ast.Decl {
	imports := importsOf(fileOf(d))
	info := pkg.TypesInfo
	switch tr {
	case "invert": // if c {A; return}; rest -> if !c {rest} else {A; return}
		blocks(d.Body, func(l []ast.Stmt) []ast.Stmt {
			for i := len(l) - 1; i >= 0; i-- {
				s, ok := l[i].(*ast.IfStmt)
				if !ok || s.Else != nil || s.Init != nil || !terminates(s.Body.List) || i == len(l)-1 {
					continue
				}
				if !terminates(l[i+1:]) {
					continue
				}
				n++
				l = append(append([]ast.Stmt{}, l[:i]...), &ast.IfStmt{Cond: negate(s.Cond), Body: &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}, Else: s.Body})
			}
			return l
		})
	case "named": // named results, naked returns
		if d.Type.Results == nil {
			return nil
		}
		var names []string
		var fl []*ast.Field
		for _, f := range d.Type.Results.List {
			k := len(f.Names)
			if k > 0 {
				return nil
			}
			nm := fresh("result")
			names = append(names, nm)
			fl = append(fl, &ast.Field{Names: []*ast.Ident{id(nm)}, Type: f.Type})
		}
		d.Type.Results = &ast.FieldList{List: fl}
		var rec func(x ast.Node)
		rec = func(x ast.Node) {
			blocks2(x, func(l []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range l {
					r, ok := s.(*ast.ReturnStmt)
					if !ok || len(r.Results) == 0 {
						out = append(out, s)
						continue
					}
					n++
					var lhs []ast.Expr
					for _, nm := range names {
						lhs = append(lhs, id(nm))
					}
					out = append(out, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: r.Results}, &ast.ReturnStmt{})
				}
				return out
			})
		}
		rec(d.Body)
	case "closure":
		if d.Type.Results == nil {
			return nil
		}
		n++
		d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: d.Type.Results}, Body: d.Body}}}}}}
	case "defer":
		n++
		d.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}}}}}, d.Body.List...)
	case "impl", "free":
		names, ok := params(d.Type.Params)
		if !ok {
			return nil
		}
		n++
		nm := fresh(strings.ToLower(d.Name.Name[:1]) + d.Name.Name[1:] + "Impl")
		nd := &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: &ast.FieldList{List: append([]*ast.Field{}, fieldsOf(d.Type.Params)...)}, Results: d.Type.Results}, Body: d.Body}
		var args []ast.Expr
		for _, a := range names {
			args = append(args, id(a))
		}
		var fun ast.Expr = id(nm)
		if d.Recv != nil {
			if len(d.Recv.List[0].Names) == 0 {
				n--
				return nil
			}
			rn := d.Recv.List[0].Names[0].Name
			if tr == "impl" {
				nd.Recv = d.Recv
				fun = &ast.SelectorExpr{X: id(rn), Sel: id(nm)}
			} else {
				nd.Type.Params.List = append([]*ast.Field{d.Recv.List[0]}, nd.Type.Params.List...)
				args = append([]ast.Expr{id(rn)}, args...)
			}
		}
		call := &ast.CallExpr{Fun: fun, Args: args}
		if d.Type.Results == nil {
			d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		} else {
			d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		}
		return []ast.Decl{nd}
	case "index": // range over slices -> index loops
		ast.Inspect(d.Body, func(x ast.Node) bool { return true })
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE {
				return nil
			}
			switch info.TypeOf(r.X).Underlying().(type) {
			case *types.Slice, *types.Array:
			default:
				return nil
			}
			n++
			xs := fresh("list")
			i := fresh("at")
			if k, ok := r.Key.(*ast.Ident); ok && k.Name != "_" {
				i = k.Name
			}
			body := r.Body.List
			if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
				body = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(xs), Index: id(i)}}}}, body...)
			}
			return []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(xs)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}},
				&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(i)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
					Cond: &ast.BinaryExpr{X: id(i), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs)}}},
					Post: &ast.IncDecStmt{X: id(i), Tok: token.INC}, Body: &ast.BlockStmt{List: body}},
			}
		})
	case "switch":
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.IfStmt)
			if !ok || hasBreak(r) {
				return nil
			}
			n++
			sw := &ast.SwitchStmt{Init: r.Init, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.CaseClause{List: []ast.Expr{r.Cond}, Body: r.Body.List}}}}
			if r.Else != nil {
				var l []ast.Stmt
				if b, ok := r.Else.(*ast.BlockStmt); ok {
					l = b.List
				} else {
					l = []ast.Stmt{r.Else}
				}
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: l})
			}
			if terminatingNeeded(d, s) && r.Else == nil {
				return []ast.Stmt{sw}
			}
			return []ast.Stmt{sw}
		})
	case "temps": // return f(x) -> a, b := f(x); return a, b
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 {
				return nil
			}
			t := info.TypeOf(r.Results[0])
			tt, ok := t.(*types.Tuple)
			if !ok {
				return nil
			}
			n++
			var lhs, res []ast.Expr
			for i := 0; i < tt.Len(); i++ {
				nm := fresh("value")
				lhs = append(lhs, id(nm))
				res = append(res, id(nm))
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: r.Results}, &ast.ReturnStmt{Results: res}}
		})
	case "checked": // return f(x) -> if a, err := f(x); err != nil {return zero, err} else {return a, nil}: only for (T, error) with interface/uint results
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 {
				return nil
			}
			tt, ok := info.TypeOf(r.Results[0]).(*types.Tuple)
			if !ok || tt.Len() < 2 || tt.At(tt.Len()-1).Type().String() != "error" {
				return nil
			}
			n++
			e := fresh("failure")
			var lhs, res, zero []ast.Expr
			for i := 0; i < tt.Len()-1; i++ {
				nm := fresh("value")
				lhs = append(lhs, id(nm))
				res = append(res, id(nm))
				zero = append(zero, id(nm))
			}
			lhs = append(lhs, id(e))
			return []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: r.Results},
				&ast.IfStmt{Cond: &ast.BinaryExpr{X: id(e), Op: token.NEQ, Y: id("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: append(zero, id(e))}}}},
				&ast.ReturnStmt{Results: append(res, id("nil"))}}
		})
	case "vars": // x, err := f() -> var x T; var err error; x, err = f()
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE {
				return nil
			}
			var out []ast.Stmt
			for _, l := range a.Lhs {
				i := l.(*ast.Ident)
				o := info.Defs[i]
				if o == nil || i.Name == "_" {
					continue
				}
				t, ok := typeText(o.Type(), imports)
				if !ok {
					return nil
				}
				out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(i.Name)}, Type: id(t)}}}})
			}
			if len(out) == 0 {
				return nil
			}
			// a variable may be used in its own initialiser's scope
			for _, l := range a.Lhs {
				used := false
				for _, r := range a.Rhs {
					ast.Inspect(r, func(y ast.Node) bool {
						if z, ok := y.(*ast.Ident); ok && z.Name == l.(*ast.Ident).Name && info.Uses[z] != nil {
							if _, isVar := info.Uses[z].(*types.Var); isVar && info.Defs[l.(*ast.Ident)] != nil {
								used = true
							}
						}
						return true
					})
				}
				if used {
					return nil
				}
			}
			n++
			return append(out, &ast.AssignStmt{Lhs: a.Lhs, Tok: token.ASSIGN, Rhs: a.Rhs})
		})
	case "forbreak": // for c {B} -> for { if !c {break}; B }
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if f, ok := x.(*ast.ForStmt); ok && f.Cond != nil {
				n++
				f.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: negate(f.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, f.Body.List...)
				f.Cond = nil
			}
			return true
		})
	case "failed": // err != nil -> failed(err)
		any := false
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.NEQ && isNilLit(b.Y) && info.TypeOf(b.X).String() == "error" {
					n++
					any = true
					s.Cond = &ast.CallExpr{Fun: id("failed"), Args: []ast.Expr{b.X}}
				}
			}
			return true
		})
		if any && !failedDone {
			failedDone = true
			return []ast.Decl{&ast.FuncDecl{Name: id("failed"), Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("err")}, Type: id("error")}}}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.BinaryExpr{X: id("err"), Op: token.NEQ, Y: id("nil")}}}}}}}
		}
	case "alias": // receiver fields read into locals first
		if d.Recv == nil || len(d.Recv.List[0].Names) == 0 {
			return nil
		}
		rn := d.Recv.List[0].Names[0]
		ro := info.Defs[rn]
		assigned := false
		seen := map[string]string{}
		var order []string
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if a, ok := x.(*ast.AssignStmt); ok {
				for _, l := range a.Lhs {
					if _, ok := l.(*ast.Ident); !ok {
						assigned = true
					}
				}
			}
			return true
		})
		if assigned {
			return nil
		}
		replaceExprs(d.Body, func(x ast.Expr) ast.Expr {
			s, ok := x.(*ast.SelectorExpr)
			if !ok {
				return nil
			}
			i, ok := s.X.(*ast.Ident)
			if !ok || info.Uses[i] != ro {
				return nil
			}
			if v, ok := info.Uses[s.Sel].(*types.Var); !ok || !v.IsField() {
				return nil
			}
			n++
			if seen[s.Sel.Name] == "" {
				seen[s.Sel.Name] = fresh("own" + s.Sel.Name)
				order = append(order, s.Sel.Name)
			}
			return id(seen[s.Sel.Name])
		})
		var pre []ast.Stmt
		for _, f := range order {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(seen[f])}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.SelectorExpr{X: id(rn.Name), Sel: id(f)}}})
		}
		d.Body.List = append(pre, d.Body.List...)
	case "compare":
		replaceExprs(d.Body, func(x ast.Expr) ast.Expr {
			b, ok := x.(*ast.BinaryExpr)
			if !ok {
				return nil
			}
			lit, isLit := b.Y.(*ast.BasicLit)
			switch {
			case isLit && lit.Kind == token.INT && b.Op == token.GTR:
				k, _ := strconv.Atoi(lit.Value)
				n++
				return &ast.BinaryExpr{X: b.X, Op: token.GEQ, Y: &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k + 1)}}
			case isLit && lit.Kind == token.INT && lit.Value == "0" && b.Op == token.EQL:
				if c, ok := b.X.(*ast.CallExpr); ok {
					if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "len" {
						n++
						return &ast.BinaryExpr{X: b.X, Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					}
				}
			case b.Op == token.NEQ:
				n++
				return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.Y, Op: token.EQL, Y: b.X}}}
			case b.Op == token.EQL:
				n++
				return &ast.BinaryExpr{X: b.Y, Op: token.EQL, Y: b.X}
			}
			return nil
		})
	case "literals": // T{...} in return/assign -> temporary filled by assignments
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.ReturnStmt)
			if !ok {
				return nil
			}
			var pre []ast.Stmt
			for i, e := range r.Results {
				amp := false
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					amp = true
					e = u.X
				}
				c, ok := e.(*ast.CompositeLit)
				if !ok {
					continue
				}
				if _, ok := info.TypeOf(c).Underlying().(*types.Struct); !ok {
					continue
				}
				nm := fresh("made")
				keyed := true
				var as []ast.Stmt
				for _, el := range c.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						keyed = false
						break
					}
					as = append(as, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(nm), Sel: id(kv.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
				}
				if !keyed {
					continue
				}
				n++
				var v ast.Expr = &ast.CompositeLit{Type: c.Type}
				if amp {
					v = &ast.CallExpr{Fun: id("new"), Args: []ast.Expr{c.Type}}
				}
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
				pre = append(pre, as...)
				r.Results[i] = id(nm)
			}
			if len(pre) == 0 {
				return nil
			}
			return append(pre, r)
		})
	case "hoist": // call arguments into temporaries
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			var e *ast.Expr
			switch x := s.(type) {
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					e = &x.Rhs[0]
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					e = &x.Results[0]
				}
			}
			if e == nil {
				return nil
			}
			c, ok := (*e).(*ast.CallExpr)
			if !ok {
				return nil
			}
			if f, ok := c.Fun.(*ast.Ident); ok && (f.Name == "make" || f.Name == "new" || f.Name == "append" || f.Name == "len") || c.Ellipsis.IsValid() {
				return nil
			}
			if tv, ok := info.Types[c.Fun]; ok && tv.IsType() {
				return nil
			}
			var pre []ast.Stmt
			for i, a := range c.Args {
				if _, ok := a.(*ast.BasicLit); ok || isNilLit(a) {
					continue
				}
				nm := fresh("arg")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				c.Args[i] = id(nm)
			}
			if len(pre) == 0 {
				return nil
			}
			n++
			return append(pre, s)
		})
	case "once": // for {B}: body runs in a block wrapped in if true
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if f, ok := x.(*ast.IfStmt); ok && f.Init == nil {
				// condition into a variable evaluated just before
				_ = f
			}
			return true
		})
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.IfStmt)
			if !ok || f.Init != nil || f.Else != nil {
				return nil
			}
			n++
			nm := fresh("cond")
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{f.Cond}}, &ast.IfStmt{Cond: id(nm), Body: f.Body}}
		})
	case "blocks": // nested blocks with a copy of the receiver
		if d.Recv == nil || len(d.Recv.List[0].Names) == 0 {
			return nil
		}
		n++
		rn := d.Recv.List[0].Names[0].Name
		d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("self")}, Tok: token.DEFINE, Rhs: []ast.Expr{id(rn)}},
			&ast.BlockStmt{List: append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(rn)}, Tok: token.DEFINE, Rhs: []ast.Expr{id("self")}}, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(rn)}}}, d.Body.List...)}}}
	case "outparam": // body into a closure that stores its results
		if d.Type.Results == nil {
			return nil
		}
		var decls []ast.Stmt
		var names []ast.Expr
		for _, f := range d.Type.Results.List {
			if len(f.Names) > 0 {
				return nil
			}
			nm := fresh("out")
			names = append(names, id(nm))
			decls = append(decls, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(nm)}, Type: f.Type}}}})
		}
		blocks2(d.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) == 0 {
					out = append(out, s)
					continue
				}
				n++
				out = append(out, &ast.AssignStmt{Lhs: append([]ast.Expr{}, names...), Tok: token.ASSIGN, Rhs: r.Results}, &ast.ReturnStmt{})
			}
			return out
		})
		run := fresh("run")
		d.Body = &ast.BlockStmt{List: append(decls, &ast.AssignStmt{Lhs: []ast.Expr{id(run)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: d.Body}}},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: id(run)}}, &ast.ReturnStmt{Results: names})}
	case "tail": // every statement suffix after the first error check into a closure
		if d.Type.Results == nil || len(d.Body.List) < 3 {
			return nil
		}
		k := len(d.Body.List) / 2
		if _, ok := d.Body.List[k].(*ast.IfStmt); ok {
			k++
		}
		if k >= len(d.Body.List) || !terminates(d.Body.List) {
			return nil
		}
		n++
		rest := fresh("rest")
		d.Body.List = append(append([]ast.Stmt{}, d.Body.List[:k]...), &ast.AssignStmt{Lhs: []ast.Expr{id(rest)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: d.Type.Results}, Body: &ast.BlockStmt{List: d.Body.List[k:]}}}},
			&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: id(rest)}}})
	case "rename": // local variables
		m := map[types.Object]string{}
		ast.Inspect(d, func(x ast.Node) bool {
			i, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			o := info.Defs[i]
			if o == nil {
				o = info.Uses[i]
			}
			v, ok := o.(*types.Var)
			if !ok || v.IsField() || v.Parent() == nil || v.Parent() == pkg.Types.Scope() || i.Name == "_" || v.Pkg() != pkg.Types {
				return true
			}
			if m[o] == "" {
				m[o] = fresh("v")
			}
			n++
			i.Name = m[o]
			return true
		})
	case "steps": // loop bodies into closures that say whether to go on
		replaceStmts(d.Body, func(s ast.Stmt) []ast.Stmt { return nil })
	}
	return nil
}

var failedDone bool

func terminatingNeeded(d *ast.FuncDecl, s ast.Stmt) bool { return false }

func fieldsOf(l *ast.FieldList) []*ast.Field {
	if l == nil {
		return nil
	}
	return l.List
}

func isNilLit(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "nil"
}

func negate(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if o, ok := m[x.Op]; ok {
			return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// blocks2 is blocks without descending into function literals.
func blocks2(x ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(x, func(y ast.Node) bool {
		switch b := y.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			b.List = f(b.List)
		case *ast.CaseClause:
			b.Body = f(b.Body)
		}
		return true
	})
}

// replaceStmts rewrites statements bottom up (not inside function literals'
// signatures, but inside their bodies too, unless they return).
func replaceStmts(x ast.Node, f func(ast.Stmt) []ast.Stmt) {
	var list func(l []ast.Stmt) []ast.Stmt
	var stmt func(s ast.Stmt)
	list = func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			stmt(s)
			if r := f(s); r != nil {
				out = append(out, r...)
			} else {
				out = append(out, s)
			}
		}
		return out
	}
	stmt = func(s ast.Stmt) {
		switch b := s.(type) {
		case *ast.BlockStmt:
			b.List = list(b.List)
		case *ast.IfStmt:
			b.Body.List = list(b.Body.List)
			if b.Else != nil {
				stmt(b.Else)
			}
		case *ast.ForStmt:
			b.Body.List = list(b.Body.List)
		case *ast.RangeStmt:
			b.Body.List = list(b.Body.List)
		case *ast.SwitchStmt:
			for _, c := range b.Body.List {
				cc := c.(*ast.CaseClause)
				cc.Body = list(cc.Body)
			}
		}
	}
	stmt(x.(ast.Stmt))
}

// replaceExprs rewrites expressions top down where they stand as operands.
func replaceExprs(x ast.Node, f func(ast.Expr) ast.Expr) {
	re := func(e *ast.Expr) {
		if *e == nil {
			return
		}
		if r := f(*e); r != nil {
			*e = r
		}
	}
	ast.Inspect(x, func(y ast.Node) bool {
		switch b := y.(type) {
		case *ast.CallExpr:
			re(&b.Fun)
			for i := range b.Args {
				re(&b.Args[i])
			}
		case *ast.BinaryExpr:
			re(&b.X)
			re(&b.Y)
		case *ast.UnaryExpr:
			re(&b.X)
		case *ast.ParenExpr:
			re(&b.X)
		case *ast.StarExpr:
			re(&b.X)
		case *ast.SelectorExpr:
			re(&b.X)
		case *ast.IndexExpr:
			re(&b.X)
			re(&b.Index)
		case *ast.KeyValueExpr:
			re(&b.Value)
		case *ast.CompositeLit:
			for i := range b.Elts {
				if _, ok := b.Elts[i].(*ast.KeyValueExpr); !ok {
					re(&b.Elts[i])
				}
			}
		case *ast.AssignStmt:
			for i := range b.Rhs {
				re(&b.Rhs[i])
			}
		case *ast.ReturnStmt:
			for i := range b.Results {
				re(&b.Results[i])
			}
		case *ast.IfStmt:
			re(&b.Cond)
		case *ast.ForStmt:
			if b.Cond != nil {
				re(&b.Cond)
			}
		case *ast.RangeStmt:
			re(&b.X)
		}
		return true
	})
}

func fileLevel(tr string, f *ast.File) {
	switch tr {
	case "fields": // struct fields in reverse order
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				t, ok := s.(*ast.TypeSpec)
				if !ok {
					continue
				}
				st, ok := t.Type.(*ast.StructType)
				if !ok || len(st.Fields.List) < 2 {
					continue
				}
				n++
				l := st.Fields.List
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
				// positions decide the layout when printing
				for _, x := range l {
					clearPos(x)
				}
			}
		}
	case "unexported": // unexported fields, types, functions and methods renamed
		ast.Inspect(f, func(x ast.Node) bool {
			i, ok := x.(*ast.Ident)
			if !ok || i.IsExported() || i.Name == "_" {
				return true
			}
			o := pkg.TypesInfo.Defs[i]
			if o == nil {
				o = pkg.TypesInfo.Uses[i]
			}
			if o == nil || o.Pkg() != pkg.Types {
				return true
			}
			switch v := o.(type) {
			case *types.Var:
				if !v.IsField() && v.Parent() != pkg.Types.Scope() {
					return true
				}
			case *types.Func, *types.TypeName, *types.Const:
			default:
				return true
			}
			n++
			i.Name = i.Name + "X"
			return true
		})
	case "order": // functions in reverse order
		var fs []int
		for i, d := range f.Decls {
			if _, ok := d.(*ast.FuncDecl); ok {
				fs = append(fs, i)
			}
		}
		if len(fs) > 1 {
			n++
			for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
				f.Decls[fs[i]], f.Decls[fs[j]] = f.Decls[fs[j]], f.Decls[fs[i]]
			}
		}
	}
}

func clearPos(f *ast.Field) {}
