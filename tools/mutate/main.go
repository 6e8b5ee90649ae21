// mutate lists small changes of the functions of a repository, one JSON object
// per line: {"file", "from", "to", "text", "what"}.
// usage: mutate DIR PATTERN...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
)

type change struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	What string `json:"what"`
}

func main() {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: os.Args[1]}
	pkgs, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			src, _ := os.ReadFile(name)
			off := func(x token.Pos) int { return p.Fset.Position(x).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			fn := ""
			emit := func(from, to token.Pos, t, what string, a ...interface{}) {
				w := fmt.Sprintf(what, a...)
				enc.Encode(change{name, off(from), off(to), t, fmt.Sprintf("%s:%d %s: %s", strings.TrimPrefix(name, os.Args[1]+"/"), p.Fset.Position(from).Line, fn, w)})
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fn = fd.Name.Name
				info := p.TypesInfo
				// values of basic types in scope
				vars := func(at token.Pos, t types.Type) []string {
					var out []string
					seen := map[string]bool{}
					for s := p.Types.Scope().Innermost(at); s != nil && s != p.Types.Scope(); s = s.Parent() {
						for _, n := range s.Names() {
							o, ok := s.Lookup(n).(*types.Var)
							if !ok || seen[n] || n == "_" || o.Pos() >= at {
								continue
							}
							seen[n] = true
							if types.Identical(o.Type(), t) {
								out = append(out, n)
							}
						}
					}
					return out
				}
				isErr := func(e ast.Expr) bool {
					t := info.TypeOf(e)
					return t != nil && t.String() == "error"
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BlockStmt:
						for i, s := range n.List {
							switch s := s.(type) {
							case *ast.IfStmt:
								emit(s.Pos(), s.End(), "", "drop %q", first(text(s)))
								// two steps exchanged
								if i >= 1 && i+2 < len(n.List) {
									if j, ok := n.List[i+2].(*ast.IfStmt); ok && strings.HasPrefix(text(j), "if err != nil") && strings.HasPrefix(text(s), "if err != nil") {
										a, b := text(n.List[i-1]), text(n.List[i+1])
										emit(n.List[i-1].Pos(), j.End(), b+"\n"+text(j)+"\n"+a+"\n"+text(s), "exchange %q and %q", a, b)
									}
								}
							case *ast.ExprStmt, *ast.IncDecStmt:
								emit(s.Pos(), s.End(), "", "drop %q", text(s))
							case *ast.AssignStmt:
								if s.Tok == token.ASSIGN {
									emit(s.Pos(), s.End(), "", "drop %q", text(s))
								}
								if len(s.Rhs) == 1 {
									if _, ok := s.Rhs[0].(*ast.CallExpr); ok && len(s.Lhs) == 1 && isErr(s.Lhs[0]) {
										emit(s.Pos(), s.Pos(), text(s.Rhs[0])+"\n", "twice %q", text(s.Rhs[0]))
									}
								}
							}
						}
					case *ast.CallExpr:
						sel, ok := n.Fun.(*ast.SelectorExpr)
						if ok {
							if si := info.Selections[sel]; si != nil && si.Kind() == types.MethodVal {
								ms := types.NewMethodSet(si.Recv())
								for i := 0; i < ms.Len(); i++ {
									m := ms.At(i).Obj().(*types.Func)
									if m.Name() != sel.Sel.Name && (m.Exported() || m.Pkg() == p.Types) && types.Identical(m.Type().(*types.Signature).Params(), si.Obj().Type().(*types.Signature).Params()) && types.Identical(m.Type().(*types.Signature).Results(), si.Obj().Type().(*types.Signature).Results()) {
										emit(sel.Sel.Pos(), sel.Sel.End(), m.Name(), "%s becomes %s", text(n), m.Name())
									}
								}
							}
						}
						for i := 0; i+1 < len(n.Args); i++ {
							a, b := n.Args[i], n.Args[i+1]
							if ta, tb := info.TypeOf(a), info.TypeOf(b); ta != nil && tb != nil && types.Identical(ta, tb) && text(a) != text(b) {
								emit(a.Pos(), b.End(), text(b)+", "+text(a), "arguments of %s exchanged", text(n))
							}
						}
						for _, a := range n.Args {
							if id, ok := a.(*ast.Ident); ok {
								for _, v := range vars(a.Pos(), info.TypeOf(a)) {
									if v != id.Name {
										emit(a.Pos(), a.End(), v, "in %s: %s becomes %s", text(n), id.Name, v)
									}
								}
							}
						}
					case *ast.SelectorExpr:
						// fields
						si := info.Selections[n]
						if si != nil && si.Kind() == types.FieldVal {
							t := si.Recv()
							if pt, ok := t.(*types.Pointer); ok {
								t = pt.Elem()
							}
							if st, ok := t.Underlying().(*types.Struct); ok {
								for i := 0; i < st.NumFields(); i++ {
									if g := st.Field(i); g.Name() != n.Sel.Name && types.Identical(g.Type(), si.Obj().Type()) {
										emit(n.Sel.Pos(), n.Sel.End(), g.Name(), "%s becomes %s", text(n), g.Name())
									}
								}
							}
						}
					case *ast.CompositeLit:
						for _, el := range n.Elts {
							if kv, ok := el.(*ast.KeyValueExpr); ok {
								if id, ok := kv.Value.(*ast.Ident); ok && info.TypeOf(id) != nil {
									for _, v := range vars(id.Pos(), info.TypeOf(id)) {
										if v != id.Name {
											emit(id.Pos(), id.End(), v, "%s: %s becomes %s", text(kv), id.Name, v)
										}
									}
								}
								emit(kv.Pos(), kv.End(), "", "no %s", text(kv))
							}
						}
					case *ast.BinaryExpr:
						var ops []string
						switch n.Op {
						case token.EQL:
							ops = []string{"!="}
							if isInt(info.TypeOf(n.X)) {
								ops = append(ops, "<=", ">=")
							}
						case token.NEQ:
							ops = []string{"=="}
							if isInt(info.TypeOf(n.X)) {
								ops = append(ops, "<", ">")
							}
						case token.LSS:
							ops = []string{"<=", ">", "!="}
						case token.GTR:
							ops = []string{">=", "<", "!="}
						case token.LEQ, token.GEQ:
							ops = []string{"<", ">", "=="}
						case token.LAND:
							ops = []string{"||"}
						case token.LOR:
							ops = []string{"&&"}
						case token.ADD:
							ops = []string{"-"}
						case token.SUB:
							ops = []string{"+"}
						}
						for _, o := range ops {
							emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "%s becomes %s", text(n), o)
						}
					case *ast.UnaryExpr:
						if n.Op == token.NOT {
							emit(n.OpPos, n.OpPos+1, "", "%s without !", text(n))
						}
					case *ast.BasicLit:
						switch n.Kind {
						case token.INT:
							emit(n.Pos(), n.End(), n.Value+"+1", "%s becomes +1", n.Value)
							if n.Value != "0" {
								emit(n.Pos(), n.End(), n.Value+"-1", "%s becomes -1", n.Value)
							}
						case token.STRING:
							if len(n.Value) < 5 {
								emit(n.Pos(), n.End(), `"_"`, "%s becomes _", n.Value)
								emit(n.Pos(), n.End(), `""`, "%s becomes empty", n.Value)
							}
						}
					case *ast.BranchStmt:
						o := map[token.Token]string{token.BREAK: "continue", token.CONTINUE: "break"}[n.Tok]
						emit(n.Pos(), n.End(), o, "%s becomes %s", n.Tok, o)
					case *ast.ReturnStmt:
						for _, r := range n.Results {
							if id, ok := r.(*ast.Ident); ok {
								if id.Name != "nil" && isErr(r) {
									emit(id.Pos(), id.End(), "nil", "%s gives nil for %s", text(n), id.Name)
								}
								if id.Name == "true" || id.Name == "false" {
									emit(id.Pos(), id.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "%s the other way", text(n))
								}
								if t := info.TypeOf(r); t != nil && id.Name != "nil" && !isErr(r) {
									for _, v := range vars(r.Pos(), t) {
										if v != id.Name {
											emit(id.Pos(), id.End(), v, "%s: %s becomes %s", text(n), id.Name, v)
										}
									}
								}
							}
						}
					case *ast.IfStmt:
						if !strings.Contains(text(n.Cond), "err") {
							emit(n.Cond.Pos(), n.Cond.End(), "false", "never %s", text(n.Cond))
							emit(n.Cond.Pos(), n.Cond.End(), "true", "always %s", text(n.Cond))
						}
					case *ast.IndexExpr:
						if _, ok := n.Index.(*ast.BasicLit); ok {
							emit(n.Index.Pos(), n.Index.End(), "len("+text(n.X)+")-1", "%s: the last", text(n))
						}
					case *ast.SliceExpr:
						emit(n.Pos(), n.End(), text(n.X), "%s whole", text(n))
					}
					return true
				})
			}
		}
	}
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
