package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one use of the storage, or one call over a layer boundary, with
// the condition under which it happens.
type Event struct {
	kind  string // Has Create ReadSources ReadTargets SetReference GetReference Connect Disconnect Delete call
	name  string // for call: boundary name
	args  []*Term
	guard B
	ok    B
	loops []*Loop
	pos   token.Pos
	fn    *ssa.Function
	via   string
	res   *Term
	seq   int
}

// Issue is something an operation may do that a rule forbids outright.
type Issue struct {
	rule  string
	guard B
	loops []*Loop
	pos   token.Pos
	fn    *ssa.Function
	msg   string
	recv  *Term // the value a method was called on
	soft  bool  // the terms are beyond what the rule can decide
}

type State struct {
	mem map[int64]*Term
	sub map[*Term]*Term
	ver map[*Term]int64
	s   *substituter
}

func newState() *State {
	return &State{mem: map[int64]*Term{}, sub: map[*Term]*Term{}, ver: map[*Term]int64{}}
}

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.sub {
		n.sub[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	return n
}

func (s *State) addSub(from, to *Term) {
	if from == to {
		return
	}
	m := map[*Term]*Term{from: to}
	for k, v := range s.sub {
		s.sub[k] = substT(v, m)
	}
	s.sub[from] = to
	s.s = nil
}

func (s *State) resolve(t *Term) *Term {
	if len(s.sub) == 0 {
		return t
	}
	if s.s == nil {
		s.s = newSubst(s.sub)
	}
	return s.s.term(t)
}

func (s *State) resolveB(b B) B {
	if len(s.sub) == 0 {
		return b
	}
	if s.s == nil {
		s.s = newSubst(s.sub)
	}
	return s.s.bool(b)
}

type tokenPos = token.Pos

var typesString types.Type = types.Typ[types.String]

type Loop struct {
	id     int
	fn     *ssa.Function
	pos    token.Pos
	parent []*Loop
	entry  B
	back   B
	mus    map[*Term]*muInfo
	exits  []exitInfo
	n      *Term // number of iterations if the loop ends by exhausting n
	full   int   // index of the exhausting exit, or -1
	member *Term // the loop searches a list for a value: has(list, value)
	search B     // it was found
	fresh0 int64
	exists B
}

type muInfo struct {
	init, next *Term
	key        string
}

type exitInfo struct {
	guard B
	to    *ssa.BasicBlock
	from  *ssa.BasicBlock
}

type Eng struct {
	unread     map[*types.Var]bool // fields that nothing reads
	deps       map[*Term]*Term     // carried values that stay as they are unless they are lost
	prog       *ssa.Program
	pkgPath    string // module path
	log        []*Event
	issues     []Issue
	objSeq     int64
	objName    map[int64]string
	objPos     map[int64]token.Pos
	loopSeq    int
	inCases    int
	frames     []*Frame
	loops      []*Loop
	loopInfo   map[*ssa.Function]*fnLoops
	S          *Term
	boundaries map[string]*Boundary
	rootKey    string // boundary being evaluated as a root: not opaque at depth 0
	funcs      map[*ssa.Function]bool
	calls      int
	steps      int
	stack      []*ssa.Function
	globals    map[*ssa.Global]int64
	initObj    int64 // objects up to this one were made by package initialisation
	globalObjs map[int64]bool
	globalMem  map[int64]*Term
	constG     map[*ssa.Global]bool
	extCalls   map[string]int
	hdrCond    map[*ssa.BasicBlock]int
	curPos     token.Pos
	newSyms    map[*Term]token.Pos
	aliases    []alias
	inInit     bool
	frozen     map[*types.Named]bool // set once the graph is built
	symRole    map[*Term]Role
	trace      bool
}

type Frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]*Term
	free  []*Term
	args  []*Term
	loops []*Loop
	rets  []retEdge

	defers []deferred

	log0, issues0 int
	st0           *State // the state when it was called
}

type retEdge struct {
	g  B
	v  *Term
	st *State
}

type inEdge struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	g    B
	st   *State
	phis []*Term
}

func (e *Eng) issue(rule string, g B, fr *Frame, pos token.Pos, format string, a ...interface{}) {
	if !feasible(g) {
		return
	}
	e.issues = append(e.issues, Issue{rule: rule, guard: g, loops: append([]*Loop{}, fr.loops...), pos: pos, fn: fr.fn, msg: fmt.Sprintf(format, a...)})
}

func (e *Eng) newObj(name string, pos token.Pos) int64 {
	e.objSeq++
	e.objName[e.objSeq] = name
	e.objPos[e.objSeq] = pos
	return e.objSeq
}

// ---- loops of a function

type fnLoops struct {
	rpo    []*ssa.BasicBlock
	rpoIdx map[*ssa.BasicBlock]int
	heads  map[*ssa.BasicBlock]*natLoop
	inner  map[*ssa.BasicBlock]*natLoop // innermost loop of a block
	bad    bool
}

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop

	out     []ssa.Value // used outside
	outDone bool

	rot     *rotation // cut after its tests
	rotDone bool
}

func (e *Eng) loopsOf(fn *ssa.Function) *fnLoops {
	if l, ok := e.loopInfo[fn]; ok {
		return l
	}
	l := &fnLoops{rpoIdx: map[*ssa.BasicBlock]int{}, heads: map[*ssa.BasicBlock]*natLoop{}, inner: map[*ssa.BasicBlock]*natLoop{}}
	e.loopInfo[fn] = l
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		l.rpoIdx[post[i]] = len(l.rpo)
		l.rpo = append(l.rpo, post[i])
	}
	for _, b := range l.rpo {
		for _, s := range b.Succs {
			if l.rpoIdx[s] <= l.rpoIdx[b] {
				if !s.Dominates(b) {
					l.bad = true
					continue
				}
				nl := l.heads[s]
				if nl == nil {
					nl = &natLoop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					l.heads[s] = nl
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if nl.blocks[x] {
						continue
					}
					nl.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, nl := range l.heads {
		for _, ml := range l.heads {
			if ml != nl && ml.blocks[nl.head] {
				if nl.parent == nil || len(ml.blocks) < len(nl.parent.blocks) {
					nl.parent = ml
				}
			}
		}
	}
	for _, b := range l.rpo {
		for _, nl := range l.heads {
			if nl.blocks[b] {
				if c := l.inner[b]; c == nil || len(nl.blocks) < len(c.blocks) {
					l.inner[b] = nl
				}
			}
		}
	}
	return l
}

// ---- functions

func fnKey(fn *ssa.Function) string { return fn.String() }

func (e *Eng) inRepo(fn *ssa.Function) bool {
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if o := fn.Object(); o != nil {
		p = o.Pkg()
	} else if fn.Parent() != nil {
		return e.inRepo(fn.Parent())
	}
	if fn.Synthetic != "" && p == nil {
		return true // wrappers and thunks
	}
	return p != nil && (p.Path() == e.pkgPath || strings.HasPrefix(p.Path(), e.pkgPath+"/"))
}

// call evaluates fn under guard g in state st (which it may change) and
// gives the result, the condition of returning normally and the state then.
func (e *Eng) call(fn *ssa.Function, args, free []*Term, g B, st *State, from *Frame, pos token.Pos) (*Term, B, *State) {
	if !feasible(g) {
		return mkUnknown("unreachable"), g, st
	}
	if b := e.boundaries[fn.String()]; b != nil && len(e.stack) > 0 {
		if v, ng, ns, ok := b.apply(e, b, args, g, st, from, pos); ok {
			return v, ng, ns
		}
	}
	if len(fn.Blocks) == 0 || !e.inRepo(fn) {
		return e.external(fn, args, g, st, from, pos)
	}
	depth := 0
	for _, f := range e.stack {
		if f == fn {
			depth++
		}
	}
	if depth > 0 && e.sameCall(fn, args, free, g, st) {
		e.issue("stuck", g, from, pos, "%s calls itself with everything as it was, so it never ends", fn.Name())
		return mkUnknown("endless"), False, st
	}
	if depth > 0 && len(e.stack) > 60 || depth > 2 {
		e.issue("undecided", g, from, pos, "recursion of %s is not analysed", fn)
		return e.unknownResult(fn.Signature.Results(), "recursion"), g, st
	}
	if e.steps > 400000 {
		e.issue("undecided", g, from, pos, "analysis budget exhausted in %s", fn)
		return e.unknownResult(fn.Signature.Results(), "budget"), g, st
	}
	e.funcs[fn] = true
	e.calls++
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()

	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, free: free, args: args, log0: len(e.log), issues0: len(e.issues), st0: st.clone()}
	e.frames = append(e.frames, fr)
	defer func() { e.frames = e.frames[:len(e.frames)-1] }()
	if from != nil {
		fr.loops = from.loops
	}
	li := e.loopsOf(fn)
	if li.bad {
		e.issue("undecided", g, fr, fn.Pos(), "irreducible control flow in %s", fn)
		return e.unknownResult(fn.Signature.Results(), "irreducible"), g, st
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		}
	}
	e.region(fr, nil, []inEdge{{to: fn.Blocks[0], g: g, st: st}})
	if len(fr.rets) == 0 {
		return e.unknownResult(fn.Signature.Results(), "does not return"), False, st
	}
	out := False
	for _, r := range fr.rets {
		out = C.or(out, r.g)
	}
	var ls []leaf
	var sts []stEdge
	for _, r := range fr.rets {
		rg := C.restrict(r.g, out)
		ls = append(ls, leaf{rg, prune(r.v, r.g)})
		sts = append(sts, stEdge{r.g, r.st})
	}
	return gateFlat(ls), out, mergeStates(sts, out)
}

type stEdge struct {
	g  B
	st *State
}

func mergeStates(es []stEdge, total B) *State {
	if len(es) == 1 {
		return es[0].st
	}
	r := newState()
	// aliases and closed forms that hold on all edges
	for k, v := range es[0].st.sub {
		all := true
		for _, x := range es[1:] {
			if x.st.sub[k] != v {
				all = false
			}
		}
		if all {
			r.sub[k] = v
		}
	}
	// others are applied before merging; aliases of nodes created on one
	// side only are kept, because no other side knows these nodes
	for _, x := range es {
		for k, v := range x.st.sub {
			if k.k == KSym && r.sub[k] == nil {
				ok := true
				for _, y := range es {
					if w := y.st.sub[k]; w != nil && w != v {
						ok = false
					}
				}
				if ok {
					r.sub[k] = v
				}
			}
		}
	}
	objs := map[int64]bool{}
	for _, x := range es {
		for o := range x.st.mem {
			objs[o] = true
		}
	}
	for o := range objs {
		var ls []leaf
		for _, x := range es {
			if c, ok := x.st.mem[o]; ok {
				ls = append(ls, leaf{C.restrict(x.g, total), prune(x.st.resolve(c), x.g)})
			}
		}
		if len(ls) == 1 {
			r.mem[o] = ls[0].t
		} else {
			same := true
			for _, l := range ls[1:] {
				if l.t != ls[0].t {
					same = false
				}
			}
			if same {
				r.mem[o] = ls[0].t
			} else {
				r.mem[o] = gateFlat(ls)
			}
		}
	}
	for _, x := range es {
		for k, v := range x.st.ver {
			if r.ver[k] < v {
				r.ver[k] = v
			}
		}
	}
	return r
}

// region evaluates the blocks of a loop body (nl) or of the whole function
// and returns the edges that leave it or go back to the loop header.
func (e *Eng) region(fr *Frame, nl *natLoop, in []inEdge) (back, exits []inEdge) {
	if nl == nil {
		return e.regionOf(fr, nil, nil, nil, in)
	}
	return e.regionOf(fr, nl, nl.blocks, nl.head, in)
}

// regionOf evaluates a set of blocks up to the edges into the block end and
// those that leave the set.
func (e *Eng) regionOf(fr *Frame, nl *natLoop, set map[*ssa.BasicBlock]bool, end *ssa.BasicBlock, in []inEdge) (back, exits []inEdge) {
	li := e.loopsOf(fr.fn)
	pending := map[*ssa.BasicBlock][]inEdge{}
	for _, x := range in {
		pending[x.to] = append(pending[x.to], x)
	}
	deliver := func(x inEdge) {
		if !feasible(x.g) {
			return
		}
		if nl != nil && x.to == end {
			back = append(back, x)
			return
		}
		if nl != nil && !set[x.to] {
			exits = append(exits, x)
			return
		}
		pending[x.to] = append(pending[x.to], x)
	}
	for _, b := range li.rpo {
		if nl != nil && !set[b] {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		if inner := li.inner[b]; inner != nil && inner != nl {
			if inner.head == b && inner.parent == nl || inner.head == b {
				// only loops directly inside this region get here: blocks of
				// inner loops have no pending edges of their own
				for _, x := range e.loop(fr, inner, ins) {
					deliver(x)
				}
			}
			continue
		}
		g := False
		for _, x := range ins {
			g = C.or(g, x.g)
		}
		var sts []stEdge
		for _, x := range ins {
			sts = append(sts, stEdge{x.g, x.st})
		}
		st := mergeStates(sts, g)
		if len(ins) > 0 {
			e.mergePhis(fr, b, ins, g)
		}
		e.block(fr, b, g, st.clone(), deliver)
	}
	return
}

func (e *Eng) mergePhis(fr *Frame, b *ssa.BasicBlock, ins []inEdge, g B) {
	var vals []*Term
	i := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		_ = phi
		var ls []leaf
		for _, x := range ins {
			if i < len(x.phis) {
				ls = append(ls, leaf{C.restrict(x.g, g), prune(x.phis[i], x.g)})
			}
		}
		if len(ls) == 1 {
			vals = append(vals, ls[0].t)
		} else if len(ls) > 1 {
			vals = append(vals, gateFlat(ls))
		} else {
			vals = append(vals, nil)
		}
		i++
	}
	i = 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if vals[i] != nil {
			fr.env[phi] = vals[i]
		}
		i++
	}
}

func (e *Eng) phiVals(fr *Frame, from, to *ssa.BasicBlock, st *State) []*Term {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var out []*Term
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, e.val(fr, phi.Edges[idx], st))
	}
	return out
}

// block evaluates one basic block.
func (e *Eng) block(fr *Frame, b *ssa.BasicBlock, g B, st *State, deliver func(inEdge)) {
	for _, in := range b.Instrs {
		if !feasible(g) {
			return
		}
		if e.steps++; e.steps&1023 == 0 {
			checkTime()
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := asBool(e.val(fr, x.Cond, st))
			if c <= True {
				e.hdrCond[b] = 1
			} else {
				e.hdrCond[b] = 2
			}
			t, f := C.and(g, c), C.and(g, C.not(c))
			tb, fb := b.Succs[0], b.Succs[1]
			both := feasible(t) && feasible(f)
			if feasible(t) {
				s := st
				if both {
					s = st.clone()
				}
				deliver(inEdge{b, tb, t, s, e.phiVals(fr, b, tb, s)})
			}
			if feasible(f) {
				deliver(inEdge{b, fb, f, st, e.phiVals2(fr, b, fb, st, tb == fb)})
			}
			return
		case *ssa.Jump:
			deliver(inEdge{b, b.Succs[0], g, st, e.phiVals(fr, b, b.Succs[0], st)})
			return
		case *ssa.Return:
			var v *Term
			if len(x.Results) == 1 {
				v = e.val(fr, x.Results[0], st)
			} else {
				var vs []*Term
				for _, r := range x.Results {
					vs = append(vs, e.val(fr, r, st))
				}
				v = mkTuple(vs...)
			}
			fr.rets = append(fr.rets, retEdge{g, v, st})
			return
		case *ssa.Panic:
			e.issue("panic", g, fr, x.Pos(), "explicit panic")
			return
		default:
			g, st = e.instr(fr, in, g, st)
		}
	}
}

func (e *Eng) phiVals2(fr *Frame, from, to *ssa.BasicBlock, st *State, second bool) []*Term {
	if !second {
		return e.phiVals(fr, from, to, st)
	}
	n := 0
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			n++
			idx = i
		}
	}
	var out []*Term
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, e.val(fr, phi.Edges[idx], st))
	}
	return out
}

// ---- values

func (e *Eng) val(fr *Frame, v ssa.Value, st *State) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Function:
		return mkRaw(Term{k: KFunc, fn: x})
	case *ssa.Global:
		return mkPtr(e.globalObj(x, st))
	case *ssa.Builtin:
		return mkUnknown("builtin value")
	}
	if t, ok := fr.env[v]; ok && t != nil {
		t = st.resolve(t)
		if a, ok := v.(*ssa.Alloc); ok && t.k == KPtr && len(t.a) == 0 {
			if n := structType(a.Type()); n != nil && e.frozen[n] {
				if c, ok := st.mem[t.n]; ok {
					return st.resolve(c)
				}
			}
		}
		return t
	}
	return mkUnknown("undefined " + v.Name())
}

// addr is the value of an address that is used at once.
func (e *Eng) addr(fr *Frame, v ssa.Value, st *State) *Term {
	if _, ok := v.(*ssa.Alloc); ok {
		if t, ok := fr.env[v]; ok && t != nil {
			return st.resolve(t)
		}
	}
	return e.val(fr, v, st)
}

func (e *Eng) frozenPtr(t types.Type) bool {
	n := structType(t)
	return n != nil && e.frozen[n]
}

func (e *Eng) constant(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return mkBool(True)
		}
		return mkBool(False)
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return mkInt(n)
		}
		return mkApp("bigint:"+c.Value.ExactString(), 0)
	}
	return mkApp("const:"+c.Value.ExactString(), 0)
}

func isTextType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p, nm := n.Obj().Pkg().Path(), n.Obj().Name()
		return p == "bytes" && nm == "Buffer" || p == "strings" && nm == "Builder"
	}
	return false
}

func (e *Eng) zero(t types.Type) *Term {
	if isTextType(t) {
		return mkStr("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(False)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsNumeric != 0:
			return mkInt(0)
		}
		return mkNil()
	case *types.Struct:
		f := make([]*Term, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return mkStruct(t, f)
	case *types.Array:
		if u.Len() <= 64 {
			f := make([]*Term, u.Len())
			for i := range f {
				f[i] = e.zero(u.Elem())
			}
			return mkArray(f)
		}
		return mkAppRaw("fill", 0, e.zero(u.Elem()), mkInt(u.Len()))
	case *types.Tuple:
		f := make([]*Term, u.Len())
		for i := range f {
			f[i] = e.zero(u.At(i).Type())
		}
		return mkTuple(f...)
	}
	return mkNil()
}

func (e *Eng) unknownOf(t types.Type, why string) *Term {
	u := mkUnknown(why)
	C.symType[u] = t
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return mkBool(termAtom(u))
	}
	return u
}

func (e *Eng) unknownResult(r *types.Tuple, why string) *Term {
	if r.Len() == 1 {
		return e.unknownOf(r.At(0).Type(), why)
	}
	var vs []*Term
	for i := 0; i < r.Len(); i++ {
		vs = append(vs, e.unknownOf(r.At(i).Type(), why))
	}
	return mkTuple(vs...)
}

func (e *Eng) globalObj(g *ssa.Global, st *State) int64 {
	o, ok := e.globals[g]
	if !ok {
		o = e.newObj("global "+g.String(), g.Pos())
		e.globals[g] = o
		e.globalObjs[o] = true
	}
	if _, ok := st.mem[o]; !ok {
		if c, ok := e.globalMem[o]; ok {
			st.mem[o] = c
		} else {
			t := g.Type().(*types.Pointer).Elem()
			var c *Term
			if !strings.HasPrefix(g.Pkg.Pkg.Path(), e.pkgPath) {
				if types.Identical(t, types.Universe.Lookup("error").Type()) {
					c = mkErrOf("?" + g.String()) // errors of the library
				} else {
					c = mkSym("global " + g.String())
				}
			} else {
				c = e.zero(t)
			}
			st.mem[o] = c
		}
	}
	return o
}

// ---- memory

func (e *Eng) loadPath(c *Term, path []*Term) *Term {
	for _, p := range path {
		if p.k == KField {
			c = selectField(c, int(p.n))
		} else {
			c = seqIdx(c, p)
		}
	}
	return c
}

func (e *Eng) storePath(c *Term, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	if c.k == KGate {
		var ls []leaf
		for i, l := range c.a {
			ls = append(ls, leaf{c.g[i], e.storePath(l, path, v)})
		}
		return gateFlat(ls)
	}
	p := path[0]
	if p.k == KField {
		if c.k == KStruct {
			a := append([]*Term{}, c.a...)
			a[p.n] = e.storePath(a[p.n], path[1:], v)
			return mkStruct(c.t, a)
		}
		return mkUnknown("store into opaque structure")
	}
	return mkStore(c, p, e.storePath(seqIdx(c, p), path[1:], v))
}

func (e *Eng) load(fr *Frame, p *Term, t types.Type, g B, st *State, pos token.Pos) *Term {
	p = prune(p, g)
	var ls []leaf
	for _, l := range leaves(p) {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		switch l.t.k {
		case KPtr:
			c, ok := st.mem[l.t.n]
			if !ok {
				ls = append(ls, leaf{l.g, e.unknownOf(t, "object not known here")})
				continue
			}
			ls = append(ls, leaf{l.g, st.resolve(e.loadPath(c, l.t.a))})
		case KNil:
			e.issue("nil", lg, fr, pos, "nil pointer dereference")
		case KStruct:
			ls = append(ls, leaf{l.g, l.t}) // of a frozen type
		default:
			if n, ok := t.(*types.Named); ok && e.frozen[n] && !isUnknown(l.t) {
				ls = append(ls, leaf{l.g, l.t})
				continue
			}
			e.issue("undecided", lg, fr, pos, "load through %s", l.t)
			ls = append(ls, leaf{l.g, e.unknownOf(t, "opaque pointer")})
		}
	}
	if len(ls) == 0 {
		return e.unknownOf(t, "nil")
	}
	return gateFlat(ls)
}

func (e *Eng) store(fr *Frame, p, v *Term, g B, st *State, pos token.Pos) {
	p = prune(p, g)
	ls := leaves(p)
	for _, l := range ls {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		switch l.t.k {
		case KPtr:
			c, ok := st.mem[l.t.n]
			if !ok {
				e.issue("undecided", lg, fr, pos, "store to an unknown object")
				continue
			}
			if e.globalObjs[l.t.n] && !e.inInit {
				e.issue("global", lg, fr, pos, "%s is changed", e.objName[l.t.n])
			}
			n := e.storePath(c, l.t.a, v)
			if len(ls) > 1 {
				n = ite(l.g, n, c)
			}
			st.mem[l.t.n] = n
		case KNil:
			e.issue("nil", lg, fr, pos, "store through a nil pointer")
		default:
			e.issue("undecided", lg, fr, pos, "store through %s", l.t)
		}
	}
}

// content gives the elements of a slice value.
func (e *Eng) content(v *Term, st *State) *Term {
	return lift(v, func(v *Term) *Term {
		switch v.k {
		case KNil:
			return mkArray(nil)
		case KSlice:
			c, ok := st.mem[v.n]
			if !ok {
				return mkUnknown("slice of unknown object")
			}
			c = st.resolve(e.loadPath(c, v.a[2:]))
			return mkSub(c, v.a[0], v.a[1])
		}
		return v
	})
}

func (e *Eng) newSlice(c *Term, st *State, name string, pos token.Pos) *Term {
	o := e.newObj(name, pos)
	st.mem[o] = c
	return mkRaw(Term{k: KSlice, n: o, a: []*Term{mkInt(0), seqLen(c)}})
}

func (e *Eng) sliceLen(v *Term) *Term {
	return lift(v, func(v *Term) *Term {
		switch v.k {
		case KSlice:
			return v.a[1]
		case KNil:
			return mkInt(0)
		}
		return seqLen(v)
	})
}

// ---- a small decision procedure for index bounds: is d >= 0 under g?

func proveGE(d *Term, g B) bool {
	ok := true
	for _, l := range leaves(d) {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		if !proveGE1(l.t, lg) {
			ok = false
		}
	}
	return ok
}

// quotient gives the dividend of a division by a positive constant.
func quotient(t *Term) (*Term, int64) {
	if t.k == KApp && t.s == "op/" && len(t.a) == 2 && t.a[1].k == KInt && t.a[1].n > 0 {
		return t.a[0], t.a[1].n
	}
	return nil, 0
}

// proveNonneg: a sum of parts that are not negative.
func proveNonneg(t *Term) bool {
	c, m := linParts(t)
	if c < 0 {
		return false
	}
	for u, co := range m {
		if co < 0 || !isNonneg(u) {
			return false
		}
	}
	return true
}

func proveGE1(d *Term, g B) bool {
	if entails(g, geZero(d)) {
		return true
	}
	c, m := linParts(d)
	// all parts non-negative
	all := c >= 0
	for t, co := range m {
		if co < 0 || !isNonneg(t) {
			all = false
		}
	}
	if all {
		return true
	}
	// facts h >= k known under g; try to cover d with up to three of them
	type fact struct {
		c int64
		m map[*Term]int64
	}
	var facts []fact
	rel := map[*Term]bool{}
	for t := range m {
		rel[t] = true
	}
	for round := 0; round < 2; round++ {
		for h := range C.ges {
			_, hm := linParts(h)
			for t := range hm {
				if rel[t] {
					for u := range hm {
						rel[u] = true
					}
					break
				}
			}
		}
	}
	for t := range rel {
		if q, _ := quotient(t); q != nil {
			// 0 <= t and t <= q when q >= 0
			if proveNonneg(q) {
				c, fm := linParts(sub(q, t))
				facts = append(facts, fact{c: -c, m: fm}, fact{0, map[*Term]int64{t: 1}})
			}
		}
	}
	for t := range rel {
		// a part of a text is not longer than the text
		for p := partOf(t); p != nil; p = partOf(p) {
			c, fm := linParts(sub(p, t))
			facts = append(facts, fact{c: -c, m: fm})
			rel[p] = true
			if p.k != KApp {
				break
			}
		}
	}
	for t := range rel {
		if isNonneg(t) {
			facts = append(facts, fact{0, map[*Term]int64{t: 1}})
		}
	}
	for h, ks := range C.ges {
		_, hm := linParts(h)
		use := false
		for t := range hm {
			if rel[t] {
				use = true
			}
		}
		if !use {
			continue
		}
		for _, k := range ks {
			b := C.bdd.atom(C.atomKey[fmt.Sprintf("ge%d:%d", h.id, k)])
			if entails(g, b) {
				facts = append(facts, fact{-k, hm})
			}
			if entails(g, C.not(b)) { // h <= k-1
				neg := map[*Term]int64{}
				for t, co := range hm {
					neg[t] = -co
				}
				facts = append(facts, fact{k - 1, neg})
			}
		}
	}
	var search func(c int64, m map[*Term]int64, depth int) bool
	search = func(c int64, m map[*Term]int64, depth int) bool {
		if len(m) == 0 {
			return c >= 0
		}
		if depth == 0 {
			return false
		}
		for _, f := range facts {
			hit := false
			for t, co := range f.m {
				if m[t] != 0 && (m[t] > 0) == (co > 0) {
					hit = true
				}
			}
			if !hit {
				continue
			}
			nm := map[*Term]int64{}
			for t, co := range m {
				nm[t] = co
			}
			for t, co := range f.m {
				nm[t] -= co
				if nm[t] == 0 {
					delete(nm, t)
				}
			}
			if len(nm) > len(m)+1 {
				continue
			}
			if search(c-f.c, nm, depth-1) {
				return true
			}
		}
		return false
	}
	return search(c, m, 4)
}

func (e *Eng) bounds(fr *Frame, i, n *Term, g B, pos token.Pos, what string) {
	low := proveGE(i, g)
	high := proveGE(addc(sub(n, i), -1), g)
	if !low || !high {
		e.issue("bounds", g, fr, pos, "%s: index %s is not known to be below %s", what, i, n)
		e.soften(g, i, n)
	}
}

// soften marks the issue just reported if it is about amounts that the rule
// for bounds knows nothing about: values carried through a loop, quotients
// and the like.
func (e *Eng) soften(g B, ts ...*Term) {
	if !feasible(g) {
		return
	}
	for _, t := range ts {
		for _, l := range leaves(t) {
			_, m := linParts(l.t)
			for a := range m {
				if !plainAmount(a) || a.k == KIter && e.openEnd(a.loop) {
					e.issues[len(e.issues)-1].soft = true
				}
			}
		}
	}
}

// openEnd: how often the loop is run depends on values carried through it.
func (e *Eng) openEnd(L *Loop) bool {
	if L == nil {
		return false
	}
	for v := range suppOf(L.back) {
		if t := C.atoms[v].t; t != nil && mentionsLoop(t, L) {
			if len(collect(t, func(x *Term) bool { return x.k == KMu && x.loop == L })) > 0 {
				return true
			}
		}
	}
	return false
}

func plainAmount(a *Term) bool {
	switch a.k {
	case KIter, KSym:
		return true
	case KMu:
		return false
	case KApp:
		if a.s == "len" {
			x := a.a[0]
			return x.k != KMu && !hasUnknown(x)
		}
		return a.s == "idx"
	}
	return true
}

// partOf: the length of the text that the text t is the length of is a part of.
func partOf(t *Term) *Term {
	if t.k != KApp || t.s != "len" {
		return nil
	}
	x := t.a[0]
	if x.k != KApp {
		return nil
	}
	switch x.s {
	case "idx":
		if y := x.a[0]; y.k == KApp && (y.s == "split" || y.s == "strings.Fields") {
			return seqLen(y.a[0])
		}
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		return seqLen(x.a[0])
	}
	return nil
}

// sortedKeys is used wherever map order could leak into the analysis.
func sortedKeys(m map[int64]*Term) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// sameCall: the function is being called already, with the same arguments in
// the same state.
func (e *Eng) sameCall(fn *ssa.Function, args, free []*Term, g B, st *State) bool {
	if hasUnknownB(g) {
		return false
	}
frames:
	for _, f := range e.frames {
		if f.fn != fn || len(f.args) != len(args) || len(f.free) != len(free) {
			continue
		}
		for _, p := range [][2][]*Term{{args, f.args}, {free, f.free}} {
			for i := range p[0] {
				a, b := prune(st.resolve(p[0][i]), g), prune(st.resolve(p[1][i]), g)
				if a != b || hasUnknown(a) {
					continue frames
				}
			}
		}
		for o, c := range f.st0.mem {
			if prune(st.resolve(st.mem[o]), g) != prune(st.resolve(c), g) {
				continue frames
			}
		}
		for k, v := range st.ver {
			if f.st0.ver[k] != v {
				continue frames
			}
		}
		for _, ev := range e.log[f.log0:] {
			if !readOnlyEvent(ev) {
				continue frames
			}
		}
		for _, i := range e.issues[f.issues0:] {
			if i.rule == "undecided" || i.rule == "ambient" {
				continue frames
			}
		}
		return true
	}
	return false
}
