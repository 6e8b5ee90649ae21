package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Mutants of the tree under analysis, made in memory, to measure what the
// rules can see. This is a development aid: no check uses it.

type mutant struct {
	file, op string
	line     int
	a, b     int // offsets replaced
	text     string
	fn       string
}

var (
	basePkgs []*packages.Package // of the module, dependencies first
	stdPkgs  map[string]*types.Package
	fset     *token.FileSet
)

func mutants(dir string) ([]mutant, map[string][]byte) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		panic(err)
	}
	var out []mutant
	srcs := map[string][]byte{}
	var ps []*packages.Package
	stdPkgs = map[string]*types.Package{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		fset = p.Fset
		if !strings.HasPrefix(p.PkgPath, modPath) {
			stdPkgs[p.PkgPath] = p.Types
			return
		}
		basePkgs = append(basePkgs, p)
		if !strings.Contains(p.PkgPath, "/mock") && !strings.Contains(p.PkgPath, "/abstract") {
			ps = append(ps, p)
		}
	})
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	for _, p := range ps {
		for _, f := range p.Syntax {
			out = append(out, fileMutants(p, f, srcs)...)
		}
	}
	return out, srcs
}

type mapImporter map[string]*types.Package

func (m mapImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := stdPkgs[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

// quickWorld type-checks only the module again, with one file replaced.
func quickWorld(file string, src []byte) (*Eng, *World, error) {
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	for _, p := range stdPkgs {
		prog.CreatePackage(p, nil, nil, true)
	}
	done := mapImporter{}
	var mine []*ssa.Package
	for _, p := range basePkgs {
		var files []*ast.File
		for _, f := range p.Syntax {
			if n := fset.Position(f.Pos()).Filename; n == file {
				g, err := parser.ParseFile(fset, n, src, parser.ParseComments)
				if err != nil {
					return nil, nil, fmt.Errorf("type errors: %v", err)
				}
				f = g
			}
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		cf := types.Config{Importer: done, GoVersion: "go1.16"}
		tp, err := cf.Check(p.PkgPath, fset, files, info)
		if err != nil {
			return nil, nil, fmt.Errorf("type errors: %v", err)
		}
		done[p.PkgPath] = tp
		mine = append(mine, prog.CreatePackage(tp, files, info, true))
	}
	for _, p := range mine {
		p.Build()
	}
	e, w := newWorld(prog)
	return e, w, nil
}

func quickAnalyse(file string, src []byte) (res *result, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("analyser: %v %s", x, debug.Stack())
		}
	}()
	e, w, err := quickWorld(file, src)
	if err != nil {
		return nil, err
	}
	return e.decide(w), nil
}

func fileMutants(p *packages.Package, f *ast.File, srcs map[string][]byte) []mutant {
	fset := p.Fset
	name := fset.Position(f.Pos()).Filename
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	srcs[name] = src
	var out []mutant
	off := func(x token.Pos) int { return fset.Position(x).Offset }
	add := func(op string, n ast.Node, text string) {
		out = append(out, mutant{file: name, op: op, line: fset.Position(n.Pos()).Line, a: off(n.Pos()), b: off(n.End()), text: text})
	}
	str := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		return b.String()
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	info := p.TypesInfo
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt:
				add("delete", s, "")
			case *ast.IfStmt:
				if x.Else == nil {
					if x.Init != nil {
						add("delete-if", s, txt(x.Init))
					} else {
						add("delete-if", s, "")
					}
				}
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
					add("delete", s, "")
				}
				// keep the names, drop the values
				if len(x.Lhs) > 0 {
					var nm []string
					for _, l := range x.Lhs {
						nm = append(nm, txt(l))
					}
					_ = nm
				}
			case *ast.ReturnStmt:
				if i == len(l)-1 && i > 0 {
					_ = x
				}
			}
			if i+1 < len(l) {
				// swap with the next
				m := mutant{file: name, op: "swap", line: fset.Position(s.Pos()).Line, a: off(s.Pos()), b: off(l[i+1].End()), text: txt(l[i+1]) + "\n" + txt(s)}
				out = append(out, m)
				// swap with the next, over its error check
				if i+2 < len(l) {
					if _, ok := l[i+1].(*ast.IfStmt); ok {
						j := i + 2
						k := j
						if j+1 < len(l) {
							if _, ok := l[j+1].(*ast.IfStmt); ok {
								k = j + 1
							}
						}
						out = append(out, mutant{file: name, op: "swap-block", line: fset.Position(s.Pos()).Line, a: off(s.Pos()), b: off(l[k].End()),
							text: string(src[off(l[j].Pos()):off(l[k].End())]) + "\n" + string(src[off(s.Pos()):off(l[i+1].End())])})
					}
				}
			}
			// twice
			if _, ok := s.(*ast.ExprStmt); ok {
				add("twice", s, txt(s)+"\n"+txt(s))
			}
			if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN {
				add("twice", s, txt(s)+"\n"+txt(s))
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			for _, e := range x.List {
				if bl, ok := e.(*ast.BasicLit); ok && bl.Kind == token.INT {
					_ = bl
				}
			}
		case *ast.IfStmt:
			add("negate", x.Cond, "!("+txt(x.Cond)+")")
			add("never", x.Cond, "("+txt(x.Cond)+") && false")
			add("always", x.Cond, "("+txt(x.Cond)+") || true")
		case *ast.BinaryExpr:
			alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
				token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}}
			for _, o := range alt[x.Op] {
				if x.Op == token.ADD && info.TypeOf(x) != nil {
					if b, ok := info.TypeOf(x).Underlying().(*types.Basic); ok && b.Kind() == types.String {
						add("swap-operands", x, txt(x.Y)+" + "+txt(x.X))
						continue
					}
				}
				add("op "+o, x, txt(x.X)+" "+o+" "+txt(x.Y))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add("lit+1", x, txt(x)+"+1")
				if x.Value != "0" {
					add("lit-1", x, txt(x)+"-1")
				}
			}
			if x.Kind == token.STRING && x.Value != `""` && !strings.Contains(x.Value, "/") {
				if x.Value == `" "` {
					add("string", x, `"_"`)
					add("string", x, `""`)
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add("bool", x, "false")
			} else if x.Name == "false" {
				add("bool", x, "true")
			} else if v, ok := info.Uses[x].(*types.Var); ok && !v.IsField() {
				// another variable of the same type in the function
				alts := map[string]bool{}
				sc := p.Types.Scope().Innermost(x.Pos())
				for s := sc; s != nil && s != p.Types.Scope() && s != types.Universe; s = s.Parent() {
					for _, nm := range s.Names() {
						o := s.Lookup(nm)
						if w, ok := o.(*types.Var); ok && w != v && nm != x.Name && w.Pos() < x.Pos() && types.Identical(w.Type(), v.Type()) {
							alts[nm] = true
						}
					}
				}
				for a := range alts {
					add("var "+a, x, a)
				}
			} else if c, ok := info.Uses[x].(*types.Const); ok && c.Pkg() == p.Types {
				for _, nm := range p.Types.Scope().Names() {
					if d, ok := p.Types.Scope().Lookup(nm).(*types.Const); ok && d != c && types.Identical(d.Type(), c.Type()) {
						add("const "+nm, x, nm)
					}
				}
			}
		case *ast.SelectorExpr:
			sel := info.Selections[x]
			if sel == nil {
				return true
			}
			switch o := sel.Obj().(type) {
			case *types.Var:
				if st, ok := derefT(sel.Recv()).Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						g := st.Field(i)
						if g.Name() != o.Name() && types.Identical(g.Type(), o.Type()) && (g.Exported() || g.Pkg() == p.Types) {
							add("field "+g.Name(), x.Sel, g.Name())
						}
					}
				}
			case *types.Func:
				ms := types.NewMethodSet(sel.Recv())
				if _, ok := derefT(sel.Recv()).Underlying().(*types.Interface); !ok {
					ms = types.NewMethodSet(types.NewPointer(derefT(sel.Recv())))
				}
				for i := 0; i < ms.Len(); i++ {
					g, ok := ms.At(i).Obj().(*types.Func)
					if !ok || g.Name() == o.Name() || !g.Exported() && g.Pkg() != p.Types {
						continue
					}
					if types.Identical(stripRecv(g), stripRecv(o)) {
						add("method "+g.Name(), x.Sel, g.Name())
					}
				}
			}
		case *ast.CallExpr:
			for i := range x.Args {
				for j := i + 1; j < len(x.Args); j++ {
					ti, tj := info.TypeOf(x.Args[i]), info.TypeOf(x.Args[j])
					if ti != nil && tj != nil && types.Identical(ti, tj) {
						out = append(out, mutant{file: name, op: "args", line: fset.Position(x.Pos()).Line, a: off(x.Args[i].Pos()), b: off(x.Args[j].End()),
							text: txt(x.Args[j]) + string(src[off(x.Args[i].End()):off(x.Args[j].Pos())]) + txt(x.Args[i])})
					}
				}
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				last := x.Results[k-1]
				if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
					add("return nil", last, "nil")
				} else if c, ok := last.(*ast.CallExpr); ok && k > 1 && strings.HasPrefix(str(c.Fun), "fmt.Errorf") {
					add("return nil", last, "nil")
				} else if id, ok := last.(*ast.Ident); ok && id.Name == "nil" && k > 1 {
					add("return error", last, `fmt.Errorf("x")`)
				}
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK {
				add("branch", x, "continue")
			} else if x.Tok == token.CONTINUE {
				add("branch", x, "break")
			}
		case *ast.KeyValueExpr:
			if _, ok := x.Key.(*ast.Ident); ok {
				add("drop-field", x, "")
			}
		}
		return true
	})
	for i := range out {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && off(fd.Pos()) <= out[i].a && out[i].a < off(fd.End()) {
				out[i].fn = fd.Name.Name
				if fd.Recv != nil {
					out[i].fn = strings.TrimPrefix(txt(fd.Recv.List[0].Type), "*") + "." + out[i].fn
				}
				out[i].fn = p.Name + "." + out[i].fn
			}
		}
	}
	return out
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func stripRecv(f *types.Func) *types.Signature {
	s := f.Type().(*types.Signature)
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (m mutant) head(k int, dir string, srcs map[string][]byte) string {
	return fmt.Sprintf("%d\t%s:%d\t%s\t%.80q -> %.80q", k, strings.TrimPrefix(m.file, dir+"/"), m.line, m.op+" in "+m.fn, srcs[m.file][m.a:m.b], strings.ReplaceAll(m.text, "\t", " "))
}

func runMutant(dir string, ms []mutant, srcs map[string][]byte, k int, verbose bool) {
	m := ms[k]
	src := srcs[m.file]
	nb := append(append(append([]byte{}, src[:m.a]...), m.text...), src[m.b:]...)
	if m.op == "drop-field" {
		// with the comma
		e := m.b
		for e < len(src) && (src[e] == ' ' || src[e] == ',') {
			e++
		}
		nb = append(append([]byte{}, src[:m.a]...), src[e:]...)
	}
	head := m.head(k, dir, srcs)
	if os.Getenv("SA_WRITE") != "" {
		os.WriteFile(os.Getenv("SA_WRITE"), nb, 0o644)
		fmt.Println(strings.TrimPrefix(m.file, dir+"/"))
		return
	}
	res, err := quickAnalyse(m.file, nb)
	if err != nil {
		if strings.Contains(err.Error(), "type errors") {
			fmt.Println(head + "\tNOCOMPILE")
		} else {
			fmt.Printf("%s\tCRASH %.300s\n", head, strings.ReplaceAll(err.Error(), "\n", " | "))
		}
		return
	}
	ks := readKnown("/verif/known-findings.txt")
	v, u := map[string]bool{}, map[string]bool{}
	for _, o := range res.obs {
		for _, p := range o.Props {
			known := false
			for _, kf := range ks {
				known = known || kf.prop == p && kf.rule == o.Rule && kf.key == o.Key
			}
			if known {
				continue
			}
			if o.Status == Violated {
				v[p] = true
			} else if o.Status == Undecided {
				u[p] = true
			}
			if verbose && o.Status != Held {
				fmt.Println(o.Status, p, o.Rule, clip(res.s.obText(o), 300))
			}
		}
	}
	have := map[string]bool{}
	for _, o := range res.obs {
		for _, p := range o.Props {
			have[p+" "+o.Rule] = true
		}
	}
	for p, rs := range floor {
		for _, r := range rs {
			if !have[p+" "+r] {
				u[p] = true
			}
		}
	}
	list := func(m map[string]bool) string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	bad := ""
	if len(res.bad) > 0 {
		bad = "BAD " + strings.Join(res.bad, "; ")
	}
	st := "SURVIVED"
	if len(v) > 0 {
		st = "KILLED"
	} else if len(u) > 0 || bad != "" {
		st = "UNDECIDED"
	}
	fmt.Printf("%s\t%s\tV[%s]\tU[%s]%s\n", head, st, list(v), list(u), bad)
}
