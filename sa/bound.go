package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---- roles: the kind of place a node is

type Role struct{ cls, idx int }

var layers = []string{"", "bit", "character", "word", "phrase", "detail", "remark", "fact", "story"}
var chainLen = []int{9, 2, 4, 4, 4, 3, 4, 4, 4}
var roleNames = [][]string{
	{"", "bit class", "character class", "word class", "phrase class", "detail class", "remark class", "fact class", "story class"},
	{"class", "character"},
	{"class", "bit", "character", "word"},
	{"class", "character", "word", "phrase"},
	{"class", "word", "phrase", "detail"},
	{"class", "phrase", "remark"},
	{"class", "detail", "position", "fact"},
	{"class", "remark", "position", "story"},
	{"class", "fact", "position", "tree"},
}

func (r Role) valid() bool {
	return r.cls >= 0 && r.idx >= 0 && r.cls < len(layers) && r.idx < chainLen[r.cls]
}
func (r Role) String() string {
	if !r.valid() {
		return "?"
	}
	if r.cls == 0 {
		return roleNames[0][r.idx]
	}
	return layers[r.cls] + "." + roleNames[r.cls][r.idx]
}

var noRole = Role{-1, -1}

var targetRole = map[Role]Role{
	{1, 1}: {2, 1}, {2, 1}: {1, 1}, {2, 2}: {2, 2}, {2, 3}: {3, 1}, {3, 1}: {2, 3}, {3, 2}: {3, 2}, {3, 3}: {4, 1}, {4, 1}: {3, 3},
	{4, 2}: {4, 2}, {4, 3}: {5, 1}, {5, 1}: {4, 3}, {5, 2}: {6, 1}, {6, 2}: {6, 2}, {6, 3}: {7, 1}, {7, 1}: {6, 3}, {7, 2}: {7, 2},
	{7, 3}: {8, 1}, {8, 1}: {7, 3}, {8, 2}: {8, 2}, {8, 3}: {8, 3},
}
var sourceRole = map[Role]Role{}

func init() {
	for c := 1; c <= 8; c++ {
		targetRole[Role{c, 0}] = Role{0, c}
	}
	for a, b := range targetRole {
		sourceRole[b] = a
	}
}

func (e *Eng) role(t *Term) Role { return e.role1(t, 0) }

func (e *Eng) role1(t *Term, d int) Role {
	if d > 40 {
		return noRole
	}
	switch t.k {
	case KNext:
		r := e.role1(t.a[0], d+1)
		r.idx += int(t.n)
		if !r.valid() {
			return noRole
		}
		return r
	case KSym:
		if r, ok := e.symRole[t]; ok {
			return r
		}
	case KInt:
		if t.n >= 1 && t.n <= 8 {
			return Role{0, int(t.n)}
		}
	case KMu:
		if i := t.loop.mus[t]; i != nil {
			return e.role1(i.init, d+1)
		}
	case KGate:
		r := e.role1(t.a[0], d+1)
		for _, x := range t.a[1:] {
			if e.role1(x, d+1) != r {
				return noRole
			}
		}
		return r
	case KApp:
		switch t.s {
		case "idx":
			return e.elemRole(t.a[0], d+1)
		}
		for c, n := range layers {
			if c > 0 && t.s == "id:"+n {
				return Role{c, 0}
			}
		}
	}
	return noRole
}

// elemRole is the role of the elements of a sequence of nodes.
func (e *Eng) elemRole(seq *Term, d int) Role {
	switch seq.k {
	case KApp:
		switch seq.s {
		case "T":
			if r, ok := targetRole[e.role1(seq.a[0], d+1)]; ok {
				return r
			}
		case "S":
			if r, ok := sourceRole[e.role1(seq.a[0], d+1)]; ok {
				return r
			}
		case "sub", "rev", "store":
			return e.elemRole(seq.a[0], d+1)
		case "map":
			return e.role1(seq.a[1], d+1)
		case "filter", "flat":
			x := seq.a[1]
			if x.k == KTuple {
				x = x.a[1]
			}
			return e.elemRole(x, d+1)
		case "concat":
			for _, p := range seq.a {
				if r := e.elemRole(p, d+1); r != noRole {
					return r
				}
			}
		}
	case KArray:
		if len(seq.a) > 0 {
			return e.role1(seq.a[0], d+1)
		}
	case KMu:
		if i := seq.loop.mus[seq]; i != nil {
			return e.elemRole(i.init, d+1)
		}
	}
	return noRole
}

// ---- values of stored entities

func mkId(layer string, args ...*Term) *Term { return mkApp("id:"+layer, 0, args...) }

// mkValue is the value of the entity with class node base.
func mkValue(kind string, base *Term) *Term {
	return lift(base, func(b *Term) *Term {
		layer, i := kind, 0
		switch kind {
		case "detail.object":
			layer = "detail"
		case "detail.property":
			layer, i = "detail", 1
		}
		if b.k == KApp && b.s == "id:"+layer {
			return b.a[i]
		}
		t := mkAppRaw("value:"+kind, 0, b)
		switch kind {
		case "bit":
			return mkBool(termAtom(t))
		case "character":
			C.symType[t] = types.Typ[types.Int32]
		default:
			C.symType[t] = typesString
		}
		return t
	})
}

// ---- boundaries

type Boundary struct {
	name  string
	kind  string // const, provide, fetch, value
	layer string
	cls   int
	root  *Root
	shape *Term // successful result
	typ   types.Type
	recv  *Term
	apply func(e *Eng, b *Boundary, args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, B, *State, bool)
}

// inst copies a result shape for the entity with class node id.
func (e *Eng) inst(b *Boundary, t *Term, typ types.Type, id *Term, st *State) *Term {
	switch t.k {
	case KIface:
		return mkIface(t.t, e.inst(b, t.a[0], t.t, id, st))
	case KStruct:
		u, ok := t.t.Underlying().(*types.Struct)
		if !ok {
			return t
		}
		a := make([]*Term, len(t.a))
		nodes := nodeFields(u)
		for i := range a {
			if k, ok := nodes[i]; ok && len(nodes) == chainLen[b.cls] && t.a[i].k != KInt && e.role(t.a[i]).cls != b.cls {
				// what the layer itself computes here could not be followed:
				// it is held against the layout where it is made, and users
				// of the layer are analysed as if it was right
				a[i] = mkNext(id, int64(k))
				continue
			}
			a[i] = e.inst(b, t.a[i], u.Field(i).Type(), id, st)
		}
		return mkStruct(t.t, a)
	case KArray:
		if at, ok := typ.Underlying().(*types.Array); ok {
			a := make([]*Term, len(t.a))
			nodes := isNode(at.Elem()) && len(a) == chainLen[b.cls]
			for i := range a {
				if nodes && t.a[i].k != KInt && e.role(t.a[i]).cls != b.cls {
					a[i] = mkNext(id, int64(i))
					continue
				}
				a[i] = e.inst(b, t.a[i], at.Elem(), id, st)
			}
			return mkArray(a)
		}
	case KPtr:
		if t.n > b.root.baseObj && len(t.a) == 0 {
			o := e.newObj("entity", token.NoPos)
			c := b.root.st.mem[t.n]
			if c == nil {
				return mkUnknown("result object")
			}
			st.mem[o] = e.inst(b, b.root.st.resolve(c), deref(typ), id, st)
			return mkPtr(o)
		}
		return t
	case KNil, KErr, KFunc, KSlice:
		return t
	}
	if t == e.S {
		return t
	}
	if bt, ok := typ.Underlying().(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsInteger != 0 && bt.Kind() != types.Int32:
			if t.k == KInt {
				return t
			}
			r := e.role(t)
			if r.cls == b.cls {
				return mkNext(id, int64(r.idx))
			}
			return mkUnknown(fmt.Sprintf("part of a %s that is no node of it", b.layer))
		case bt.Info()&types.IsBoolean != 0:
			if b.layer == "bit" {
				return mkValue("bit", id)
			}
		}
	}
	return mkUnknown(fmt.Sprintf("part of a %s", b.layer))
}

// nodeFields are the fields that hold nodes, with their place among them.
func nodeFields(u *types.Struct) map[int]int {
	out := map[int]int{}
	for i := 0; i < u.NumFields(); i++ {
		if isNode(u.Field(i).Type()) {
			out[i] = len(out)
		}
	}
	return out
}

func isNode(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Kind() == types.Uint
}

// nodesOf gives the class nodes all identifiers in v agree on.
func (e *Eng) nodesOf(v *Term, typ types.Type, st *State, cls int, out map[*Term]bool) {
	switch v.k {
	case KIface:
		e.nodesOf(v.a[0], v.t, st, cls, out)
		return
	case KStruct:
		u, ok := v.t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := range v.a {
			e.nodesOf(v.a[i], u.Field(i).Type(), st, cls, out)
		}
		return
	case KArray:
		if typ == nil {
			return
		}
		if at, ok := typ.Underlying().(*types.Array); ok {
			for _, x := range v.a {
				e.nodesOf(x, at.Elem(), st, cls, out)
			}
		}
		return
	case KPtr, KNil, KFunc, KBool, KStr, KSlice:
		return
	}
	if v == e.S || typ == nil {
		return
	}
	if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		r := e.role(v)
		if r.cls != cls {
			out[mkUnknown("not a node of the entity")] = true
			return
		}
		out[mkNext(v, int64(-r.idx))] = true
	}
}

func applyProvide(e *Eng, b *Boundary, args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, B, *State, bool) {
	if args[0] != b.recv {
		return nil, g, st, false
	}
	vals := make([]*Term, len(args)-1)
	for i := range vals {
		vals[i] = prune(st.resolve(args[i+1]), g)
	}
	ok := freshOk(b.name + " ok")
	var id *Term
	switch b.kind {
	case "const":
		e.event(fr, "call", b.name, vals, g, ok, pos, nil)
		return mkTuple(ite(ok, b.shape, mkNil()), errOf(ok)), g, st, true
	case "provide":
		id = mkId(b.layer, vals...)
	case "fetch":
		id = mkNext(vals[0], -1)
	}
	e.event(fr, "call", b.name, vals, g, ok, pos, id)
	return mkTuple(ite(ok, e.inst(b, b.shape, b.typ, id, st), mkNil()), errOf(ok)), g, st, true
}

// lostBase is the class node of an entity whose nodes could not be followed,
// nil if the nodes are known.
func (e *Eng) lostBase(v *Term, cls int) *Term {
	for v.k == KIface {
		v = v.a[0]
	}
	if v.k != KStruct {
		return nil
	}
	u, ok := v.t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var base *Term
	if f := nodeFields(u); len(f) == chainLen[cls] {
		lost, same := false, true
		for i := range v.a {
			k, ok := f[i]
			if !ok {
				continue
			}
			x := mkNext(v.a[i], int64(-k))
			if base == nil {
				base = x
			} else if base != x {
				same = false
			}
			if hasUnknown(v.a[i]) || e.role(v.a[i]) == noRole {
				lost = true
			}
		}
		if !lost {
			return nil
		}
		if !same {
			base = mkUnknown("node that could not be followed")
		}
		return base
	}
	for _, x := range v.a {
		if b := e.lostBase(x, cls); b != nil {
			return b
		}
	}
	return nil
}

func applyValue(e *Eng, b *Boundary, args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, B, *State, bool) {
	recv := prune(st.resolve(args[0]), g)
	nodes := map[*Term]bool{}
	e.nodesOf(recv, nil, st, b.cls, nodes)
	var base *Term
	for n := range nodes {
		base = n
	}
	if len(nodes) != 1 || isUnknown(base) {
		dbg("%s: receiver %s: nodes %v", b.name, recv, nodes)
		// nodes that could not be followed: what is read from them is not
		// known either, and reading it again here would not tell more
		if base = e.lostBase(recv, b.cls); base == nil {
			return nil, g, st, false
		}
	} else if want := e.inst(b, unbox(b.shape), b.typ, base, st); want != recv {
		if e.trace || dbgL {
			fmt.Println("shape mismatch", want, recv)
		}
		return nil, g, st, false
	}
	ok := freshOk(b.name + " ok")
	e.event(fr, "call", b.name, []*Term{base}, g, ok, pos, nil)
	if b.layer == "detail" {
		return mkTuple(mkValue("detail.object", base), mkValue("detail.property", base), errOf(ok)), g, st, true
	}
	return mkTuple(mkValue(b.layer, base), errOf(ok)), g, st, true
}

// ---- roots: functions analysed on their own

type Root struct {
	name    string
	fn      *ssa.Function
	args    []*Term
	st0     *State
	res     *Term
	g       B // returns
	st      *State
	log     []*Event
	issues  []Issue
	loops   []*Loop
	success B
	succ    *Term // result tuple without the error, on success
	baseObj int64
	missing string
	aliases []alias
}

func (e *Eng) root(name string, fn *ssa.Function, args []*Term, st *State) *Root {
	r := &Root{name: name, fn: fn, args: args, st0: st, baseObj: e.objSeq}
	if fn == nil {
		r.missing = name
		return r
	}
	if dbgRoots {
		fmt.Fprintln(os.Stderr, "root", name, "bdd", len(C.nodes), "terms", len(C.terms))
	}
	e.log, e.issues, e.loops, e.aliases, e.stack, e.steps = nil, nil, nil, nil, nil, 0
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}}
	s := st.clone()
	v, g, ns := e.guarded(fn, args, s, fr)
	r.res, r.g, r.st = v, g, ns
	r.log, r.issues, r.loops, r.aliases = e.log, e.issues, e.loops, e.aliases
	r.resolveAliases()
	r.success = g
	r.succ = v
	res := fn.Signature.Results()
	if n := res.Len(); n > 0 && types.Identical(res.At(n-1).Type(), types.Universe.Lookup("error").Type()) {
		er := v
		if n > 1 {
			er = e.tupleAt(v, n-1)
		}
		r.success = C.and(g, e.ifaceEq(er, mkNil()))
		if n > 1 {
			var a []*Term
			for i := 0; i < n-1; i++ {
				a = append(a, prune(ns.resolve(e.tupleAt(v, i)), r.success))
			}
			if len(a) == 1 {
				r.succ = a[0]
			} else {
				r.succ = mkTuple(a...)
			}
		} else {
			r.succ = mkTuple()
		}
	} else {
		r.succ = ns.resolve(v)
	}
	return r
}

// guarded evaluates an operation; if the analyser gives up on it, what it
// does is not known.
func (e *Eng) guarded(fn *ssa.Function, args []*Term, st *State, fr *Frame) (v *Term, g B, ns *State) {
	defer func() {
		if x := recover(); x != nil {
			why := fmt.Sprint(x)
			if _, ok := x.(timeUp); ok {
				why = "time is up"
			} else if os.Getenv("SA_PANIC") != "" {
				panic(x)
			}
			e.issue("undecided", True, fr, fn.Pos(), "%s is not analysed: %s", fn, why)
			v, g, ns = e.unknownResult(fn.Signature.Results(), "not analysed"), termAtom(mkUnknown("returns")), st
		}
	}()
	return e.call(fn, args, nil, True, st, fr, fn.Pos())
}

// resolveAliases names nodes by their place in their chain in all events,
// those before the chain was made included.
func (r *Root) resolveAliases() {
	if len(r.aliases) == 0 {
		return
	}
	m := map[*Term]*Term{}
	for _, a := range r.aliases {
		m[a.sym] = a.to
	}
	for k := 0; k < 10; k++ {
		ch := false
		for _, a := range r.aliases {
			n := substT(m[a.sym], m)
			if n != m[a.sym] && !contains(n, a.sym) {
				m[a.sym] = n
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	for _, ev := range r.log {
		for i := range ev.args {
			ev.args[i] = substT(ev.args[i], m)
		}
		if ev.kind != "Create" && ev.res != nil {
			ev.res = substT(ev.res, m)
		}
	}
	for _, L := range r.loops {
		for _, i := range L.mus {
			i.init, i.next = substT(i.init, m), substT(i.next, m)
		}
	}
}

// ---- loading

const modPath = "github.com/mem-memov/semnet"

// overlay replaces file contents (mutants)
var overlay map[string][]byte

func load(dir string) (*Eng, *World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Overlay: overlay}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e, w := newWorld(prog)
	return e, w, nil
}

func newWorld(prog *ssa.Program) (*Eng, *World) {
	resetCtx()
	e := &Eng{deps: map[*Term]*Term{}, prog: prog, pkgPath: modPath, objName: map[int64]string{}, objPos: map[int64]token.Pos{}, loopInfo: map[*ssa.Function]*fnLoops{},
		boundaries: map[string]*Boundary{}, funcs: map[*ssa.Function]bool{}, globals: map[*ssa.Global]int64{}, globalObjs: map[int64]bool{},
		globalMem: map[int64]*Term{}, extCalls: map[string]int{}, hdrCond: map[*ssa.BasicBlock]int{}, newSyms: map[*Term]token.Pos{},
		symRole: map[*Term]Role{}}
	e.S = mkSym("storage")
	w := &World{e: e, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
		}
	}
	return e, w
}

type World struct {
	e       *Eng
	pkgs    map[string]*ssa.Package
	graph   *Term
	st      *State // after NewGraph
	roots   map[string]*Root
	order   []string
	dumping bool
	bad     []string // anchors that could not be resolved

	partsMissing []string
	shapes       map[string]*Boundary // entity of each layer
	remarkB      *Boundary

	output         *Term  // of NewOutput
	outputSt, kept *State // after NewOutput; after an earlier rendering
}

// method finds a method of a named type of a package (pointer or value).
func (w *World) method(pkg, typ, name string) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		ms := types.NewMethodSet(t)
		if sel := ms.Lookup(p.Pkg, name); sel != nil {
			return w.e.prog.MethodValue(sel)
		}
	}
	return nil
}

func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := w.e.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return w.e.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func conc(layer string) string { return modPath + "/internal/concrete/" + layer }

func (w *World) add(r *Root) *Root {
	w.roots[r.name] = r
	w.order = append(w.order, r.name)
	if r.missing != "" {
		w.bad = append(w.bad, r.missing)
	}
	if w.dumping {
		w.dump(r.name)
	}
	return r
}

// findObj finds the object holding a struct of the named type reachable from t.
func (w *World) findObj(t *Term, pkg, typ string) *Term {
	seen := map[int64]bool{}
	var out *Term
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil {
			return
		}
		if t.k == KPtr && len(t.a) == 0 {
			if seen[t.n] {
				return
			}
			seen[t.n] = true
			c := w.st.mem[t.n]
			if c != nil && c.k == KStruct {
				if nt, ok := c.t.(*types.Named); ok && nt.Obj().Name() == typ && nt.Obj().Pkg().Path() == pkg {
					if out == nil {
						out = t
					}
					n++
				}
			}
			rec(c)
			return
		}
		for _, a := range t.a {
			rec(a)
		}
	}
	rec(t)
	return out
}

func (w *World) sym(name string, r Role, t types.Type) *Term {
	s := mkSym(name)
	if r.valid() {
		w.e.symRole[s] = r
	}
	C.symType[s] = t
	return s
}

func (w *World) build() {
	e := w.e
	w.roots = map[string]*Root{}
	w.shapes = map[string]*Boundary{}
	e.unread = e.unreadFields()
	// package variables
	e.inInit = true
	st := newState()
	if p := w.pkgs[modPath]; p != nil {
		if f := p.Func("init"); f != nil {
			r := e.root("init", f, nil, st)
			st = r.st
			for o := range e.globalObjs {
				if c, ok := st.mem[o]; ok {
					e.globalMem[o] = c
				}
			}
			w.roots["init"] = r
		}
	}
	e.inInit = false
	e.initObj = e.objSeq
	ng := w.add(e.root("NewGraph", w.pkgs[modPath].Func("NewGraph"), []*Term{e.S}, st))
	if ng.missing != "" {
		return
	}
	w.graph = ng.succ
	w.st = ng.st
	e.frozen = e.frozenTypes()
	w.operations()
}

// operations evaluates everything a graph offers.
func (w *World) operations() {
	e := w.e
	// classes
	classRepo := w.findObj(w.graph, conc("class"), "Repository")
	if classRepo == nil {
		w.bad = append(w.bad, "class.Repository in the graph")
		return
	}
	pe := w.method(conc("class"), "Repository", "ProvideEntity")
	cr := w.add(e.root("class.ProvideEntity", pe, []*Term{classRepo}, w.st))
	if cr.missing != "" {
		return
	}
	cr2 := *cr
	if len(cr.res.a) == 2 {
		b := &Boundary{name: "class", kind: "const", root: cr, shape: cr.succ, recv: classRepo, apply: applyProvide}
		st2 := cr.st.clone()
		_ = cr2
		w.add(e.root("class.ProvideEntity again", pe, []*Term{classRepo}, st2))
		w.add(e.root("class.ProvideEntity after a failure", pe, []*Term{classRepo}, failState(cr)))
		e.boundaries[pe.String()] = b
	}
	// class entity methods
	if ct := cr.succ; ct.k == KIface {
		ms := e.prog.MethodSets.MethodSet(ct.t)
		for i := 0; i < ms.Len(); i++ {
			if !ms.At(i).Obj().Exported() {
				continue
			}
			f := e.prog.MethodValue(ms.At(i))
			args := []*Term{ct.a[0]}
			for j := 1; j < len(f.Params); j++ {
				args = append(args, w.sym("n", noRole, types.Typ[types.Uint]))
			}
			w.add(e.root("class.Entity."+f.Name(), f, args, w.st))
		}
	}
	// bits
	bitRepo := w.findObj(w.graph, conc("bit"), "Repository")
	bp, bf := w.method(conc("bit"), "Repository", "Provide"), w.method(conc("bit"), "Repository", "Fetch")
	if bitRepo == nil || bp == nil || bf == nil {
		w.bad = append(w.bad, "bit.Repository in the graph")
		return
	}
	v := mkSym("v")
	C.symType[v] = types.Typ[types.Bool]
	vb := mkBool(termAtom(v))
	id := w.sym("bit id", Role{1, 1}, types.Typ[types.Uint])
	pr := w.add(e.root("bit.Provide", bp, []*Term{bitRepo, vb}, w.st))
	fr := w.add(e.root("bit.Fetch", bf, []*Term{bitRepo, id}, w.st))
	// with the cache filled
	st2 := okState(e, pr)
	w.add(e.root("bit.Provide again", bp, []*Term{bitRepo, vb}, st2))
	w.add(e.root("bit.Fetch again", bf, []*Term{bitRepo, id}, st2))
	// after an attempt that failed
	w.add(e.root("bit.Provide after a failure", bp, []*Term{bitRepo, vb}, failState(pr)))
	w.add(e.root("bit.Fetch after a failure", bf, []*Term{bitRepo, id}, failState(pr)))
	e.boundaries[bp.String()] = &Boundary{name: "bit.Provide", kind: "provide", layer: "bit", cls: 1, root: pr, shape: pr.succ, typ: types.Universe.Lookup("error").Type(), recv: bitRepo, apply: applyProvide}
	e.boundaries[bf.String()] = &Boundary{name: "bit.Fetch", kind: "fetch", layer: "bit", cls: 1, root: fr, shape: fr.succ, recv: bitRepo, apply: applyProvide}

	// characters, words, phrases, details
	for c := 2; c <= 5; c++ {
		l := layers[c]
		repo := w.findObj(w.graph, conc(l), "Repository")
		f := w.method(conc(l), "Repository", "Provide")
		ff := w.method(conc(l), "Repository", "Fetch")
		if repo == nil || f == nil || ff == nil {
			w.bad = append(w.bad, l+".Repository in the graph")
			return
		}
		args := []*Term{repo}
		names := []string{"", "object", "property"}
		for i := 1; i < len(f.Params); i++ {
			s := mkSym("text")
			if l == "detail" {
				s = mkSym(names[i])
			}
			if l == "character" {
				s = mkSym("rune")
			}
			C.symType[s] = f.Params[i].Type()
			args = append(args, s)
		}
		r := w.add(e.root(l+".Provide", f, args, w.st))
		typ := f.Signature.Results().At(0).Type()
		e.boundaries[f.String()] = &Boundary{name: l + ".Provide", kind: "provide", layer: l, cls: c, root: r, shape: r.succ, typ: typ, recv: repo, apply: applyProvide}
		fetchRole := []Role{{}, {}, {2, 3}, {3, 3}, {4, 3}, {5, 2}}[c]
		fr := w.add(e.root(l+".Fetch", ff, []*Term{repo, w.sym(l+" id", fetchRole, types.Typ[types.Uint])}, w.st))
		probe := mkSym(l + " probe")
		if hasUnknown(r.succ) || unbox(r.succ).k != KStruct || r.succ.k == KIface && hasUnknown(e.inst(e.boundaries[f.String()], r.succ.a[0], r.succ.t, probe, w.st.clone())) {
			// what Provide returns could not be followed (reported with its
			// own obligations): the shape is that of a fetched one
			if fr.succ == nil || fr.succ.k != KIface {
				w.bad = append(w.bad, l+".Provide: result "+r.succ.String())
				continue
			}
			b := e.boundaries[f.String()]
			b.root, b.shape = fr, fr.succ
			r = fr
		}
		ex := "Extract"
		if l == "detail" {
			ex = "GetObjectAndProperty"
		}
		xf := w.methodOf(r.succ.t, ex)
		if xf == nil {
			w.bad = append(w.bad, l+" "+ex)
			continue
		}
		node := w.sym(l+" node", Role{c, 0}, types.Typ[types.Uint])
		st := w.st.clone()
		recv := e.inst(e.boundaries[f.String()], r.succ.a[0], r.succ.t, node, st)
		xr := w.add(e.root(l+"."+ex, xf, []*Term{recv}, st))
		e.boundaries[xf.String()] = &Boundary{name: l + "." + ex, kind: "value", layer: l, cls: c, root: xr, shape: r.succ, typ: r.succ.t, apply: applyValue}
		// rebind inst to the root that made the shape
		e.boundaries[xf.String()].root = r
	}
	// the public operations
	g := w.graph
	str := func(n string) *Term { s := mkSym(n); C.symType[s] = typesString; return s }
	cs := w.add(e.root("CreateStory", w.method(modPath, "Graph", "CreateStory"), []*Term{g, str("object"), str("property")}, w.st))
	w.add(e.root("GetRemark", w.method(modPath, "Graph", "GetRemark"), []*Term{g, w.sym("remark id", Role{6, 0}, types.Typ[types.Uint])}, w.st))
	if cs.missing != "" || cs.succ.k != KStruct {
		w.bad = append(w.bad, "result of CreateStory")
		return
	}
	w.remarkB = &Boundary{layer: "remark", cls: 6, root: cs, shape: cs.succ, typ: cs.succ.t}
	node := w.sym("remark", Role{6, 0}, types.Typ[types.Uint])
	st3 := w.st.clone()
	rem := e.inst(w.remarkB, cs.succ, cs.succ.t, node, st3)
	w.roots["CreateStory"].succ = cs.succ
	// every method a remark offers
	ms := types.NewMethodSet(cs.succ.t)
	var names []string
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			names = append(names, ms.At(i).Obj().Name())
		}
	}
	sort.Strings(names)
	for _, n := range names {
		f := w.methodOf(cs.succ.t, n)
		args := []*Term{rem}
		for i := 1; i < len(f.Params); i++ {
			t := f.Params[i].Type()
			if isStringType(t) {
				pn := []string{"object", "property"}
				k := i - 1
				if len(f.Params) == 2 {
					k = 1
				}
				args = append(args, str(pn[k%2]))
			} else {
				args = append(args, mkUnknown("argument"))
			}
		}
		w.add(e.root("Remark."+n, f, args, st3))
	}
	// rendering
	if no := w.pkgs[modPath].Func("NewOutput"); no != nil {
		o := e.root("NewOutput", no, []*Term{g}, st3)
		w.add(o)
		w.outputSt = o.st
		if w.kept != nil {
			o.succ, w.outputSt = w.output, w.kept
		}
		w.output = o.succ
		w.add(e.root("Output.GetStory", w.method(modPath, "Output", "GetStory"), []*Term{o.succ, rem}, w.outputSt))
	} else {
		w.bad = append(w.bad, "NewOutput")
	}
	w.parts()
}

// parts adds the parts of the layers that offer stored entities: reading an
// entity by each of its nodes, and what an entity answers.
func (w *World) parts() {
	e := w.e
	uintT := types.Typ[types.Uint]
	var factAgg *Term
	for c := 1; c <= 8; c++ {
		l := layers[c]
		var b *Boundary
		if c == 1 {
			if pb := e.boundaries[w.method(conc("bit"), "Repository", "Provide").String()]; pb != nil && pb.shape != nil && pb.shape.k == KIface {
				b = pb
			}
		} else {
			so := w.findObj(w.graph, conc(l), "Storage")
			if so == nil {
				w.partsMissing = append(w.partsMissing, l+".Storage")
				continue
			}
			f := w.method(conc(l), "Storage", "CreateEntity")
			if f == nil {
				w.partsMissing = append(w.partsMissing, l+".Storage.CreateEntity")
				continue
			}
			args := []*Term{so}
			n := 0
			for i := 1; i < len(f.Params); i++ {
				if isIntType(f.Params[i].Type()) {
					args = append(args, w.sym(l+" class", Role{c, 0}, uintT))
					n++
				}
			}
			var cr *Root
			if n == 1 && len(args) == len(f.Params) {
				cr = w.add(e.root(l+".CreateEntity", f, args, w.st))
			} else if f = w.method(conc(l), "Storage", "ReadEntityByClass"); f != nil && len(f.Params) == 2 {
				cr = e.root(l+".ReadEntityByClass", f, []*Term{so, w.sym(l+" class node", Role{c, 0}, uintT)}, w.st)
			} else {
				w.partsMissing = append(w.partsMissing, l+".Storage.CreateEntity: parameters")
				continue
			}
			b = &Boundary{layer: l, cls: c, root: cr, shape: cr.succ, typ: f.Signature.Results().At(0).Type()}
			w.shapes[l] = b
			sc := w.pkgs[conc(l)].Pkg.Scope().Lookup("Storage")
			for _, t := range methodNames(types.NewPointer(sc.Type())) {
				if !strings.HasPrefix(t, "ReadEntityBy") {
					continue
				}
				i := roleIndex(c, t[len("ReadEntityBy"):])
				rf := w.method(conc(l), "Storage", t)
				if i < 0 || rf == nil || len(rf.Params) != 2 {
					continue
				}
				w.add(e.root(l+"."+t, rf, []*Term{so, w.sym(l+" "+roleNames[c][i]+" node", Role{c, i}, uintT)}, w.st))
			}
			if l == "fact" {
				if ro, rf := w.findObj(w.graph, conc(l), "Repository"), w.method(conc(l), "Repository", "FetchByRemark"); ro != nil && rf != nil {
					r := w.add(e.root("fact.FetchByRemark", rf, []*Term{ro, w.sym("fact remark node", Role{7, 1}, uintT)}, w.st))
					factAgg = r.succ
				}
			}
		}
		if b == nil || b.shape == nil || b.shape.k != KIface {
			w.partsMissing = append(w.partsMissing, l+" entity")
			continue
		}
		base := w.sym(l+" node", Role{c, 0}, uintT)
		st := w.st.clone()
		recv := e.inst(b, b.shape.a[0], b.shape.t, base, st)
		for _, m := range methodNames(b.shape.t) {
			f := w.methodOf(b.shape.t, m)
			args := []*Term{recv}
			ok := true
			for i := 1; i < len(f.Params); i++ {
				t := f.Params[i].Type()
				switch {
				case isIntType(t):
					args = append(args, w.sym("n", noRole, uintT))
				case isBoolType(t):
					bs := mkSym("b")
					C.symType[bs] = types.Typ[types.Bool]
					args = append(args, mkBool(termAtom(bs)))
				default:
					ok = false
				}
			}
			if ok {
				w.add(e.root(l+".Entity."+m, f, args, st))
			}
		}
	}
	if factAgg != nil && factAgg.k == KIface {
		for _, m := range methodNames(factAgg.t) {
			f := w.methodOf(factAgg.t, m)
			if len(f.Params) == 1 {
				w.add(e.root("fact.Aggregate."+m, f, []*Term{factAgg.a[0]}, w.roots["fact.FetchByRemark"].st))
			}
		}
	}
}

func roleIndex(c int, name string) int {
	for i, n := range roleNames[c] {
		if strings.EqualFold(n, name) {
			return i
		}
	}
	return -1
}

func methodNames(t types.Type) []string {
	ms := types.NewMethodSet(t)
	var out []string
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Exported() {
			out = append(out, o.Name())
		}
	}
	sort.Strings(out)
	return out
}

// failState is the memory left by a run that failed, over a storage of which
// nothing is known.
func failState(r *Root) *State {
	s := newState()
	f := C.and(r.g, C.not(r.success))
	for o, c := range r.st.mem {
		s.mem[o] = prune(r.st.resolve(c), f)
	}
	return s
}

// okState is the state after a successful run, without what is only known
// about this run.
func okState(e *Eng, r *Root) *State {
	s := newState()
	for o, c := range r.st.mem {
		s.mem[o] = prune(r.st.resolve(c), r.success)
	}
	return s
}
