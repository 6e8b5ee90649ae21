package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised, not unrolled: the values a loop carries are found by
// a fixpoint that starts from "unchanged" and generalises, component by
// component, to "changes by a constant", "keeps its distance to another
// carried value", or "carried" (a μ term with its initial and next value).

type snap struct{ log, issues, loops, aliases, rets, defers int }

func (e *Eng) snapshot(fr *Frame) snap {
	return snap{len(e.log), len(e.issues), len(e.loops), len(e.aliases), len(fr.rets), len(fr.defers)}
}

func (e *Eng) rollback(fr *Frame, s snap) {
	e.log = e.log[:s.log]
	e.issues = e.issues[:s.issues]
	e.loops = e.loops[:s.loops]
	e.aliases = e.aliases[:s.aliases]
	fr.rets = fr.rets[:s.rets]
	fr.defers = fr.defers[:s.defers]
}

func (e *Eng) loop(fr *Frame, nl *natLoop, ins []inEdge) []inEdge {
	if cond := headerIf(nl.head); cond != nil {
		// a loop whose condition is decided at every turn is evaluated turn
		// by turn
		s := e.snapshot(fr)
		if !e.decided(fr, nl, ins) {
			if x := e.emptyLists(ins); x != nil && e.decided(fr, nl, x) {
				ins = x
			}
		}
		cur := ins
		var acc []inEdge
		var envs []exitVals
		st0 := len(C.terms)
		for k := 0; k < 64; k++ {
			// not for long if every turn calls the storage
			if k > 12 && len(e.log) > s.log || k > 2 && len(C.terms)-st0 > 2500 {
				break
			}
			if !e.decided(fr, nl, cur) {
				break
			}
			b, x := e.region(fr, nl, cur)
			acc = append(acc, x...)
			envs = e.exitEnv(fr, nl, x, envs)
			if len(b) == 0 {
				e.mergeExitEnv(fr, nl, acc, envs)
				return acc
			}
			cur = b
		}
		e.rollback(fr, s)
	}
	s := e.snapshot(fr)
	id := e.loopSeq
	out := e.loopGeneral(fr, nl, ins, true)
	if gs := e.cases(fr, id+1, s); gs != nil {
		// what the loop runs over depends on the way it was reached
		e.rollback(fr, s)
		return e.loopCases(fr, nl, ins, gs)
	}
	return out
}

// cases: the alternatives for what a loop just summarised runs over.
func (e *Eng) cases(fr *Frame, id int, s snap) []B {
	if e.inCases > 1 {
		return nil
	}
	for _, L := range e.loops[s.loops:] {
		if L.n == nil || len(L.parent) != len(fr.loops) {
			continue
		}
		n := prune(L.n, L.entry)
		if n.k != KGate {
			continue
		}
		ls := leaves(n)
		if len(ls) > 3 {
			continue
		}
		var gs []B
		for _, l := range ls {
			if feasible(C.and(L.entry, l.g)) {
				gs = append(gs, l.g)
			}
		}
		if len(gs) > 1 {
			return gs
		}
	}
	return nil
}

// loopCases summarises a loop once for every alternative.
func (e *Eng) loopCases(fr *Frame, nl *natLoop, ins []inEdge, gs []B) []inEdge {
	e.inCases++
	defer func() { e.inCases-- }()
	outer := fr.env
	var acc []inEdge
	var envs []exitVals
	for _, g := range gs {
		fr.env = map[ssa.Value]*Term{}
		for v, t := range outer {
			if t != nil {
				t = prune(t, g)
			}
			fr.env[v] = t
		}
		var in []inEdge
		for _, x := range ins {
			y := x
			if y.g = C.and(x.g, g); !feasible(y.g) {
				continue
			}
			y.st = x.st.clone()
			for o, c := range y.st.mem {
				y.st.mem[o] = prune(c, y.g)
			}
			y.phis = append([]*Term{}, x.phis...)
			for i, p := range y.phis {
				if p != nil {
					y.phis[i] = prune(p, y.g)
				}
			}
			in = append(in, y)
		}
		if len(in) == 0 {
			continue
		}
		x := e.loop(fr, nl, in)
		acc = append(acc, x...)
		envs = e.exitEnv(fr, nl, x, envs)
	}
	fr.env = outer
	e.mergeExitEnv(fr, nl, acc, envs)
	return acc
}

// emptyLists puts the empty list for lists that are known to be empty in what
// a loop starts with.
func (e *Eng) emptyLists(ins []inEdge) []inEdge {
	var out []inEdge
	found := false
	for _, x := range ins {
		st := x.st
		for _, p := range x.phis {
			if p == nil || !hasSlice(p) {
				continue
			}
			for _, l := range collect(e.content(p, x.st), func(t *Term) bool { return t.k == KApp && (t.s == "T" || t.s == "S") && len(t.a) == 1 }) {
				if entails(x.g, C.not(lenGE(l, 1))) {
					if st == x.st {
						st = st.clone()
					}
					st.addSub(l, mkArray(nil))
					found = true
				}
			}
		}
		if st != x.st {
			y := x
			y.st, y.phis = st, nil
			for _, p := range x.phis {
				if p != nil {
					p = st.resolve(p)
				}
				y.phis = append(y.phis, p)
			}
			for o, c := range st.mem {
				st.mem[o] = st.resolve(c)
			}
			x = y
		}
		out = append(out, x)
	}
	if !found {
		return nil
	}
	return out
}

// exitVals are the values a turn of a loop leaves to what follows the loop.
type exitVals map[ssa.Value]*Term

// liveOut gives the values of a loop that are used outside of it.
func (nl *natLoop) liveOut() []ssa.Value {
	if nl.outDone {
		return nl.out
	}
	nl.outDone = true
	for _, b := range nl.head.Parent().Blocks {
		if !nl.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if u.Block() != nil && !nl.blocks[u.Block()] {
					nl.out = append(nl.out, v)
					break
				}
			}
		}
	}
	return nl.out
}

// exitEnv notes the values of the turn just evaluated for its exits.
func (e *Eng) exitEnv(fr *Frame, nl *natLoop, x []inEdge, envs []exitVals) []exitVals {
	m := exitVals{}
	for _, v := range nl.liveOut() {
		if t := fr.env[v]; t != nil {
			m[v] = t
		}
	}
	for range x {
		envs = append(envs, m)
	}
	return envs
}

// mergeExitEnv makes the values used after a loop depend on the turn in which
// it was left.
func (e *Eng) mergeExitEnv(fr *Frame, nl *natLoop, acc []inEdge, envs []exitVals) {
	for _, v := range nl.liveOut() {
		var ls []leaf
		same := true
		for i, x := range acc {
			t := envs[i][v]
			if t == nil || !feasible(x.g) {
				continue
			}
			if len(ls) > 0 && ls[0].t != t {
				same = false
			}
			ls = append(ls, leaf{x.g, prune(x.st.resolve(t), x.g)})
		}
		if len(ls) > 1 && !same {
			fr.env[v] = gateFlat(ls)
		} else if len(ls) > 0 {
			fr.env[v] = ls[0].t
		}
	}
}

// decided tells whether the loop condition is a constant on entry.
func (e *Eng) decided(fr *Frame, nl *natLoop, ins []inEdge) bool {
	s := e.snapshot(fr)
	g := False
	var sts []stEdge
	for _, x := range ins {
		g = C.or(g, x.g)
		sts = append(sts, stEdge{x.g, x.st})
	}
	e.mergePhis(fr, nl.head, ins, g)
	delete(e.hdrCond, nl.head)
	e.block(fr, nl.head, g, mergeStates(sts, g).clone(), func(inEdge) {})
	e.rollback(fr, s)
	return e.hdrCond[nl.head] == 1
}

func headerIf(b *ssa.BasicBlock) *ssa.If {
	if len(b.Instrs) == 0 {
		return nil
	}
	i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i
}

type lmode struct {
	kind  string // aff mu rel seq ptr
	c     int64
	base  string
	obj   int64
	maybe bool // may turn out not to change
}

// isNodeGate: alternatives of plain nodes.
func isNodeGate(t *Term) bool {
	for _, l := range t.a {
		switch l.k {
		case KSym, KNext, KMu:
		case KApp:
			if isStringTerm(l) || looksSeq(l) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type lctx struct {
	e     *Eng
	L     *Loop
	kappa *Term
	modes map[string]*lmode
	noRel map[string]bool
	same  map[string]bool
	lenC  map[string]*int64 // known growth of the length per turn
	noLen map[string]bool
	chg   bool
	peel  bool
	info  map[string]*muInfo
	mu    map[string]*Term
	mem   map[int64]*Term // contents of summary objects at the header
	st0   *State
	sb    *State
}

func (lc *lctx) muTerm(path string, init *Term) *Term {
	t := mkRaw(Term{k: KMu, loop: lc.L, s: path})
	lc.mu[path] = t
	if isStringTerm(init) {
		C.symType[t] = typesString
	}
	return t
}

// build gives the value assumed at the loop header.
func (lc *lctx) build(path string, init *Term) *Term {
	if m := lc.modes[path]; m != nil {
		switch m.kind {
		case "aff":
			return add(init, mulc(lc.kappa, m.c))
		case "mu":
			t := lc.muTerm(path, init)
			lc.L.mus[t] = &muInfo{init: init, next: t, key: path} // until known
			lc.setLen(path, t, init)
			if init.k == KBool {
				return mkBool(termAtom(t))
			}
			return t
		case "dep":
			t := lc.muTerm(path, init)
			lc.L.mus[t] = &muInfo{init: init, next: t, key: path}
			lc.e.deps[t] = init
			return t
		case "rel":
			return mkNext(lc.muTerm(m.base, mkInt(0)), m.c)
		case "seq":
			ic := lc.e.content(init, lc.st0)
			t := lc.muTerm(path+"#", mkInt(0))
			lc.L.mus[t] = &muInfo{init: ic, next: t, key: path + "#"}
			lc.setLen(path+"#", t, ic)
			lc.mem[m.obj] = t
			return mkRaw(Term{k: KSlice, n: m.obj, a: []*Term{mkInt(0), seqLen(t)}})
		case "ptr":
			lc.mem[m.obj] = lc.build(path+"*", lc.st0.mem[init.n])
			return mkPtr(m.obj)
		}
	}
	if init.k == KGate && path[0] == 'p' && isNodeGate(init) && !lc.same[path] {
		// presumably moving from node to node
		lc.modes[path] = &lmode{kind: "mu", maybe: true}
		return lc.build(path, init)
	}
	switch init.k {
	case KStruct, KIface, KTuple, KArray, KSlice, KFunc:
		a := make([]*Term, len(init.a))
		ch := false
		for i := range a {
			a[i] = lc.build(fmt.Sprintf("%s.%d", path, i), init.a[i])
			ch = ch || a[i] != init.a[i]
		}
		if ch {
			return rebuildLike(init, a)
		}
	}
	return init
}

func (lc *lctx) setLen(path string, t, init *Term) {
	delete(C.muLen, t)
	if !looksSeq(init) {
		return
	}
	if lc.noLen[path] {
		return
	}
	c := int64(0)
	if p := lc.lenC[path]; p != nil {
		c = *p
	}
	C.muLen[t] = add(seqLen(init), mulc(lc.kappa, c))
}

func looksSeq(t *Term) bool {
	switch t.k {
	case KArray:
		return true
	case KApp:
		switch t.s {
		case "fill", "store", "concat", "map", "rev", "sub", "runes", "bytes", "split", "T", "S", "filter", "flat":
			return true
		}
	case KGate:
		for _, l := range t.a {
			if !looksSeq(l) {
				return false
			}
		}
		return true
	case KMu:
		if strings.HasSuffix(t.s, "#") {
			return true
		}
		_, ok := C.muLen[t]
		return ok
	}
	return false
}

func hasSlice(t *Term) bool {
	for _, l := range leaves(t) {
		if l.t.k == KSlice {
			return true
		}
	}
	return false
}

func (lc *lctx) upgrade(path, kind string, c int64) {
	lc.chg = true
	m := &lmode{kind: kind, c: c}
	if kind == "seq" || kind == "ptr" {
		m.obj = lc.e.newObj("carried "+path, lc.L.pos)
	}
	lc.modes[path] = m
}

func (lc *lctx) checkLen(path string, t, init, next *Term) {
	if lc.noLen[path] || !looksSeq(init) {
		return
	}
	d := sub(seqLen(next), seqLen(t))
	cur := int64(0)
	if p := lc.lenC[path]; p != nil {
		cur = *p
	}
	if d.k == KInt && d.n == cur {
		return
	}
	if d.k == KInt && lc.lenC[path] == nil {
		n := d.n
		lc.lenC[path] = &n
	} else {
		lc.noLen[path] = true
	}
	lc.chg = true
}

// check compares the value at the back edge with the one assumed.
func (lc *lctx) check(path string, init, next, A *Term) {
	if m := lc.modes[path]; m != nil {
		switch m.kind {
		case "aff":
			if next != add(init, mulc(addc(lc.kappa, 1), m.c)) {
				lc.upgrade(path, "mu", 0)
			}
		case "mu":
			if m.maybe && next == lc.mu[path] {
				delete(lc.modes, path)
				lc.same[path] = true
				lc.chg = true
				return
			}
			m.maybe = false
			lc.info[path] = &muInfo{init: init, next: next, key: path}
			lc.checkLen(path, lc.mu[path], init, next)
			if init == mkStr("") && len(lc.emptyTests(lc.mu[path], next)) > 0 && lenGE(next, 1) == True {
				lc.peel = true // empty in the first turn only
			}
		case "dep":
			if !mayBeLost(init, next, lc.mu[path]) {
				delete(lc.e.deps, lc.mu[path])
				lc.upgrade(path, "mu", 0)
				return
			}
			lc.info[path] = &muInfo{init: init, next: next, key: path}
		case "rel":
			lc.info[path] = &muInfo{init: init, next: next, key: path}
		case "seq":
			ic := lc.e.content(init, lc.st0)
			nc := prune(lc.e.content(next, lc.sb), lc.L.back)
			lc.info[path+"#"] = &muInfo{init: ic, next: nc, key: path + "#"}
			lc.checkLen(path+"#", lc.mu[path+"#"], ic, nc)
		case "ptr":
			if next.k != KPtr || len(next.a) > 0 || init.k != KPtr {
				lc.upgrade(path, "mu", 0)
				return
			}
			lc.check(path+"*", lc.st0.mem[init.n], lc.sb.resolve(lc.sb.mem[next.n]), lc.mem[m.obj])
		}
		return
	}
	if next == A || prune(A, lc.L.back) == next {
		return
	}
	window := init.k == KSlice && next.k == KSlice && A.k == KSlice && init.n == next.n && A.n == init.n && len(init.a) == 2 && len(next.a) == 2
	if window || sameCtor(init, next) && sameCtor(init, A) {
		for i := range init.a {
			lc.check(fmt.Sprintf("%s.%d", path, i), init.a[i], next.a[i], A.a[i])
		}
		return
	}
	if init.k == KFunc && next.k == KFunc && init.fn != next.fn || init.k == KNil && hasCtor(next) || isConstTerm(next) && isConstTerm(init) && init.k != KNil && !(init.k == KInt && next.k == KInt) {
		lc.peel = true
	}
	if init.k == KBool && next.k == KBool && next.b <= True {
		lc.peel = true
	}
	if (init.k == KIface || init == lc.e.S) && mayBeLost(init, next, A) {
		lc.upgrade(path, "dep", 0)
		return
	}
	dbg("upgrade L%d %s\n  init %s\n  next %s\n  A %s", lc.L.id, path, init, next, A)
	if hasSlice(next) && (hasSlice(init) || init.k == KNil) {
		lc.upgrade(path, "seq", 0)
		return
	}
	if init.k == KPtr && next.k == KPtr && len(init.a) == 0 && len(next.a) == 0 {
		lc.upgrade(path, "ptr", 0)
		return
	}
	if d := sub2(next, A); d != nil && d.k == KInt && d.n != 0 {
		lc.upgrade(path, "aff", d.n)
		return
	}
	lc.upgrade(path, "mu", 0)
}

// mayBeLost: the value stays as it is or becomes nil.
func mayBeLost(init, next, now *Term) bool {
	for _, l := range leaves(next) {
		if l.t != init && l.t != now && l.t.k != KNil {
			return false
		}
	}
	return true
}

func sub2(a, b *Term) *Term {
	for _, t := range []*Term{a, b} {
		switch t.k {
		case KInt, KLin, KSym, KApp, KIter, KMu:
			if isStringTerm(t) || looksSeq(t) {
				return nil
			}
		default:
			return nil
		}
	}
	return sub(a, b)
}

func hasCtor(t *Term) bool {
	for _, l := range leaves(t) {
		switch l.t.k {
		case KIface, KPtr, KStruct:
			return true
		}
	}
	return false
}

func isConstTerm(t *Term) bool {
	switch t.k {
	case KInt, KStr, KNil, KErr:
		return true
	case KBool:
		return t.b <= True
	}
	return false
}

// A rotation cuts a loop after the tests at its head: a value that the tests
// decide is not carried from turn to turn.
type rotation struct {
	tests map[*ssa.BasicBlock]bool
	body  map[*ssa.BasicBlock]bool
	cut   *ssa.BasicBlock
	vars  []ssa.Value // of the tests, used elsewhere in the loop
}

func pureTest(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.ChangeInterface, *ssa.Extract:
		case *ssa.UnOp:
			if x.Op == token.MUL || x.Op == token.ARROW {
				return false
			}
		default:
			return false
		}
	}
	return headerIf(b) != nil
}

func (e *Eng) rotationOf(fr *Frame, nl *natLoop) *rotation {
	if nl.rotDone {
		return nl.rot
	}
	nl.rotDone = true
	if !pureTest(nl.head) {
		return nil
	}
	leaves := func(b *ssa.BasicBlock) bool {
		for _, x := range b.Succs {
			if !nl.blocks[x] {
				return true
			}
		}
		return false
	}
	if !leaves(nl.head) {
		return nil
	}
	r := &rotation{tests: map[*ssa.BasicBlock]bool{nl.head: true}, body: map[*ssa.BasicBlock]bool{}}
	li := e.loopsOf(fr.fn)
	for ch := true; ch; {
		ch = false
		for b := range nl.blocks {
			if r.tests[b] || li.inner[b] != nl || !pureTest(b) || !leaves(b) {
				continue
			}
			ok := true
			for _, p := range b.Preds {
				ok = ok && r.tests[p]
			}
			for _, x := range b.Succs {
				ok = ok && x != nl.head
			}
			if ok {
				r.tests[b] = true
				ch = true
			}
		}
	}
	for b := range nl.blocks {
		if !r.tests[b] {
			r.body[b] = true
		}
	}
	for b := range r.tests {
		for _, x := range b.Succs {
			if nl.blocks[x] && !r.tests[x] {
				if r.cut != nil && r.cut != x {
					return nil
				}
				r.cut = x
			}
		}
	}
	if r.cut == nil || r.cut == nl.head || li.inner[r.cut] != nl {
		return nil
	}
	for _, b := range nl.head.Parent().Blocks {
		if !r.tests[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if r.body[u.Block()] {
					r.vars = append(r.vars, v)
					break
				}
			}
		}
	}
	if len(r.cut.Preds) != 1 { // its phis would have to be carried too
		for _, in := range r.cut.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				return nil
			}
		}
		for _, p := range r.cut.Preds {
			if !r.tests[p] {
				return nil
			}
		}
	}
	nl.rot = r
	return r
}

// runTests evaluates the tests; the edges into the loop carry the variables.
func (e *Eng) runTests(fr *Frame, nl *natLoop, r *rotation, ins []inEdge) (in, exits []inEdge) {
	in, exits = e.regionOf(fr, nl, r.tests, r.cut, ins)
	for k := range in {
		x := &in[k]
		x.phis = nil
		for _, v := range r.vars {
			t := fr.env[v]
			if t != nil {
				t = prune(x.st.resolve(t), x.g)
			}
			x.phis = append(x.phis, t)
		}
	}
	return
}

// loopRotated summarises a loop cut after its tests.
func (e *Eng) loopRotated(fr *Frame, nl *natLoop, r *rotation, ins []inEdge, allowPeel bool) (out []inEdge, flags int) {
	in, exits := e.runTests(fr, nl, r, ins)
	envs := e.exitEnv(fr, nl, exits, nil)
	if len(in) > 0 {
		run := func(g B, st *State, As []*Term) (back, exits []inEdge, envs []exitVals) {
			for i, v := range r.vars {
				if As[i] != nil {
					fr.env[v] = As[i]
				}
			}
			b, x := e.regionOf(fr, nl, r.body, nl.head, []inEdge{{to: r.cut, g: g, st: st}})
			envs = e.exitEnv(fr, nl, x, nil)
			if len(b) == 0 {
				return nil, x, envs
			}
			back, y := e.runTests(fr, nl, r, b)
			return back, append(x, y...), e.exitEnv(fr, nl, y, envs)
		}
		x, ev, fl := e.summarise(fr, nl, len(r.vars), in, run, allowPeel, true)
		exits, envs, flags = append(exits, x...), append(envs, ev...), fl
	}
	e.mergeExitEnv(fr, nl, exits, envs)
	return exits, flags
}

func (e *Eng) loopGeneral(fr *Frame, nl *natLoop, ins []inEdge, allowPeel bool) []inEdge {
	nphi := 0
	for _, in := range nl.head.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		nphi++
	}
	run := func(g B, st *State, As []*Term) (back, exits []inEdge, envs []exitVals) {
		back, exits = e.region(fr, nl, []inEdge{{to: nl.head, g: g, st: st, phis: As}})
		return back, exits, e.exitEnv(fr, nl, exits, nil)
	}
	sn := e.snapshot(fr)
	exits, envs, flags := e.summarise(fr, nl, nphi, ins, run, allowPeel, false)
	if flags > 0 {
		if r := e.rotationOf(fr, nl); r != nil {
			e.rollback(fr, sn)
			out, fl := e.loopRotated(fr, nl, r, ins, allowPeel)
			if fl < flags {
				return out
			}
			e.rollback(fr, sn)
			exits, envs, _ = e.summarise(fr, nl, nphi, ins, run, allowPeel, false)
		}
	}
	e.mergeExitEnv(fr, nl, exits, envs)
	return exits
}

// summarise finds the fixpoint; it also gives the number of flags that stay
// carried.
func (e *Eng) summarise(fr *Frame, nl *natLoop, nphi int, ins []inEdge, run func(B, *State, []*Term) ([]inEdge, []inEdge, []exitVals), allowPeel, invs bool) ([]inEdge, []exitVals, int) {
	var g0 B = False
	var sts []stEdge
	for _, x := range ins {
		g0 = C.or(g0, x.g)
		sts = append(sts, stEdge{x.g, x.st})
	}
	st0 := mergeStates(sts, g0).clone()
	for o, c := range st0.mem {
		st0.mem[o] = prune(st0.resolve(c), g0)
	}
	inits := make([]*Term, nphi)
	for i := range inits {
		var ls []leaf
		for _, x := range ins {
			if x.phis[i] == nil {
				continue
			}
			ls = append(ls, leaf{C.restrict(x.g, g0), prune(x.phis[i], x.g)})
		}
		if len(ls) == 0 {
			inits[i] = mkNil()
			continue
		}
		inits[i] = st0.resolve(gateFlat(ls))
	}
	e.collectGarbage(st0, inits)
	e.loopSeq++
	L := &Loop{id: e.loopSeq, fresh0: C.fresh, fn: fr.fn, pos: loopPos(nl), parent: append([]*Loop{}, fr.loops...), entry: g0, mus: map[*Term]*muInfo{}, full: -1}
	lc := &lctx{e: e, L: L, kappa: mkIter(L), modes: map[string]*lmode{}, noRel: map[string]bool{}, same: map[string]bool{}, lenC: map[string]*int64{}, noLen: map[string]bool{}, st0: st0}
	memObjs := sortedKeys(st0.mem)
	saved := fr.loops
	var back, exits []inEdge
	var envs []exitVals
	sn := e.snapshot(fr)
	relDone, lensDone := false, false
	inv := True
	converged := false
	var head *State
	var headAs []*Term
	verFix := map[*Term]int64{}
	var losses []Issue
	for round := 0; round < 14; round++ {
		e.rollback(fr, sn)
		losses = nil
		lc.chg = false
		lc.info = map[string]*muInfo{}
		lc.mu = map[string]*Term{}
		lc.mem = map[int64]*Term{}
		st := st0.clone()
		for k, v := range verFix {
			st.ver[k] = v
		}
		As := make([]*Term, nphi)
		for i := range As {
			As[i] = lc.build(fmt.Sprintf("p%d", i), inits[i])
		}
		Am := map[int64]*Term{}
		for _, o := range memObjs {
			a := lc.build(fmt.Sprintf("m%d", o), st0.mem[o])
			Am[o] = a
			st.mem[o] = a
		}
		for o, c := range lc.mem {
			st.mem[o] = c
		}
		e.loops = append(e.loops, L)
		fr.loops = append(append([]*Loop{}, saved...), L)
		head, headAs = st.clone(), As
		back, exits, envs = run(C.and(g0, inv), st, As)
		fr.loops = saved
		if len(back) == 0 {
			converged = true
			break
		}
		gb := False
		var bs []stEdge
		for _, x := range back {
			gb = C.or(gb, x.g)
			bs = append(bs, stEdge{x.g, x.st})
		}
		L.back = gb
		sb := mergeStates(bs, gb)
		lc.sb = sb
		nexts := make([]*Term, len(As))
		for i := range As {
			var ls []leaf
			for _, x := range back {
				ls = append(ls, leaf{C.restrict(x.g, gb), prune(x.phis[i], x.g)})
			}
			next := prune(sb.resolve(gateFlat(ls)), gb)
			nexts[i] = next
		}
		for i, next := range nexts {
			p := fmt.Sprintf("p%d", i)
			if kept, some, lost := partsLost(inits[i], next, gb); lost != False && lc.modes[p] == nil {
				fr.loops = append(append([]*Loop{}, saved...), L)
				is, ok := e.afterLoss(fr, lost, sb, nexts, i, some, run)
				fr.loops = saved
				if ok {
					next = kept
					if !hasUnknownB(lost) {
						losses = append(losses, is...)
					}
				}
			}
			lc.check(p, inits[i], next, As[i])
		}
		for _, o := range memObjs {
			lc.check(fmt.Sprintf("m%d", o), st0.mem[o], prune(sb.resolve(sb.mem[o]), gb), Am[o])
		}
		for k, v := range sb.ver {
			if st.ver[k] != v && !mentionsLoop(k, L) {
				if _, ok := verFix[k]; !ok {
					C.fresh++
					verFix[k] = C.fresh
					lc.chg = true
				}
			}
		}
		if lc.peel && allowPeel {
			// the first turn differs from the others
			e.rollback(fr, sn)
			var pst []stEdge
			for _, y := range ins {
				pst = append(pst, stEdge{y.g, y.st})
			}
			b, x, ev := run(g0, mergeStates(pst, g0).clone(), append([]*Term{}, inits...))
			if len(b) == 0 {
				return x, ev, 0
			}
			y, ev2, fl := e.summarise(fr, nl, nphi, b, run, false, invs)
			return append(x, y...), append(ev, ev2...), fl
		}
		// distances between carried values
		if !lc.chg {
			for p, m := range lc.modes {
				if m.kind == "rel" {
					bi, ji := lc.info[m.base], lc.info[p]
					if bi == nil || ji == nil || mkNext(bi.next, m.c) != ji.next {
						lc.noRel[p] = true
						lc.modes[p] = &lmode{kind: "mu"}
						lc.chg = true
					}
				}
			}
		}
		if !lc.chg && !relDone {
			relDone = true
			lc.relate()
		}
		if !lc.chg && invs {
			// what the tests found at every turn
			invs = false
			if inv = lc.invariants(g0); inv != True {
				lc.chg = true
			}
		}
		if !lc.chg && !lensDone {
			lensDone = true
			if c := lc.neverEmpty(g0); c != True {
				inv, lc.chg = C.and(inv, c), true
			}
		}
		if !lc.chg {
			converged = true
			break
		}
	}
	if !converged {
		e.issue("undecided", g0, fr, L.pos, "loop summary does not converge")
	}
	L.mus = map[*Term]*muInfo{}
	for p, i := range lc.info {
		if t := lc.mu[p]; t != nil && (lc.modes[p] == nil || lc.modes[p].kind != "rel") {
			L.mus[t] = i
		}
	}
	e.lostReceivers(L, sn.issues)
	for _, x := range losses {
		if !hasUnknownB(x.guard) && feasible(x.guard) {
			x.msg += ", which is nil after a turn of the loop"
			e.issues = append(e.issues, x)
		}
	}
	if converged {
		e.stuck(fr, L, head, headAs, memObjs, back, sn.issues)
	}
	if os.Getenv("SA_LOOPS") != "" {
		fmt.Fprintf(os.Stderr, "loop %d in %s\n", L.id, fr.fn)
		for t, i := range L.mus {
			fmt.Fprintf(os.Stderr, "   %s init %s\n      next %s\n", t, i.init, i.next)
		}
		fmt.Fprintf(os.Stderr, "   back %s\n", showB(L.back))
		for _, x := range exits {
			fmt.Fprintf(os.Stderr, "   exit %s\n", showB(C.restrict(x.g, g0)))
		}
	}
	e.closeExits(L, g0, exits)
	flags := 0
	for p, m := range lc.modes {
		if m.kind == "mu" && lc.info[p] != nil && p[0] == 'p' {
			if i := lc.info[p]; i.init.k == KBool || i.next.k == KBool || isErrTerm(i.init) || isErrTerm(i.next) {
				if L.full >= 0 && closedForm(L, lc.mu[p], i, L.n, mkIter(L)) != nil {
					continue
				}
				flags++
			}
		}
	}
	if !converged {
		flags += 100
	}
	return exits, envs, flags
}

// withoutNil: the value without the cases in which it is nil, and those cases.
func withoutNil(t *Term, g B) (*Term, B) {
	ls := leaves(t)
	lost := False
	var kept []leaf
	for _, l := range ls {
		if l.t.k == KNil {
			lost = C.or(lost, C.and(g, l.g))
		} else {
			kept = append(kept, l)
		}
	}
	if lost == False || len(kept) == 0 {
		return t, False
	}
	rest := C.and(g, C.not(lost))
	for i := range kept {
		kept[i].g = C.restrict(kept[i].g, rest)
	}
	return prune(gateFlat(kept), rest), lost
}

// partsLost: the value without the cases in which a part of it that is an
// object at first is nil, the value with the first object there, and those
// cases.
func partsLost(init, next *Term, g B) (kept, some *Term, lost B) {
	if init.k == KIface && next.k != KIface {
		kept, lost := withoutNil(next, g)
		if lost == False || !sameCtor(init, kept) {
			return next, next, False
		}
		more, some, too := partsLost(init, kept, C.and(g, C.not(lost)))
		if too != False {
			return more, prune(ite(lost, init, some), C.or(lost, too)), C.or(lost, too)
		}
		return kept, init, lost
	}
	if !sameCtor(init, next) || init.k != KIface && init.k != KStruct {
		return next, next, False
	}
	lost = False
	ks, ss := make([]*Term, len(next.a)), make([]*Term, len(next.a))
	for i := range next.a {
		var l B
		ks[i], ss[i], l = partsLost(init.a[i], next.a[i], g)
		lost = C.or(lost, l)
	}
	if lost == False {
		return next, next, False
	}
	return prune(rebuildLike(next, ks), C.and(g, C.not(lost))), prune(rebuildLike(next, ss), lost), lost
}

// afterLoss runs the turn after one in which a carried value has become nil.
// It holds when nothing comes of such a turn but leaving the loop as it would
// be left anyway or a method called on nil.
func (e *Eng) afterLoss(fr *Frame, lost B, sb *State, nexts []*Term, i int, some *Term, run func(B, *State, []*Term) ([]inEdge, []inEdge, []exitVals)) ([]Issue, bool) {
	if !feasible(lost) {
		return nil, false
	}
	turn := func(v *Term) (back, exits B, is []Issue) {
		sn := e.snapshot(fr)
		as := make([]*Term, len(nexts))
		for j, n := range nexts {
			as[j] = prune(n, lost)
		}
		if v != nil {
			as[i] = v
		}
		b, x, _ := run(lost, sb.clone(), as)
		for _, y := range e.issues[sn.issues:] {
			if y.rule == "nil" {
				is = append(is, y)
			}
		}
		e.rollback(fr, sn)
		back, exits = False, False
		for _, y := range b {
			back = C.or(back, y.g)
		}
		for _, y := range x {
			exits = C.or(exits, y.g)
		}
		return
	}
	back, exits, is := turn(nil)
	if len(is) == 0 || feasible(back) {
		return nil, false
	}
	if _, usual, _ := turn(some); feasible(C.and(exits, C.not(usual))) {
		return nil, false
	}
	return is, true
}

// lostReceivers: methods called on a value that a turn of the loop may have
// replaced by nil.
func (e *Eng) lostReceivers(L *Loop, from int) {
	var rest []Issue
	for _, x := range e.issues[from:] {
		if x.recv == nil || e.deps[x.recv] == nil || L.mus[x.recv] == nil {
			rest = append(rest, x)
		}
	}
	all := append([]Issue{}, e.issues[from:]...)
	e.issues = append(e.issues[:from], rest...)
	for _, x := range all {
		i := L.mus[x.recv]
		if x.recv == nil || i == nil || hasUnknownB(x.guard) || !feasible(C.and(x.guard, L.atLeast(1))) {
			continue
		}
		for _, l := range leaves(i.next) {
			if g := C.and(L.back, l.g); l.t.k == KNil && feasible(g) && !hasUnknownB(g) {
				x.rule, x.recv = "nil", nil
				x.msg += ", which is nil after a turn of the loop"
				e.issues = append(e.issues, x)
				break
			}
		}
	}
}

// atLeast: the loop has been run so often.
func (L *Loop) atLeast(n int64) B { return cmpGE(mkIter(L), mkInt(n)) }

// collectGarbage drops the objects nothing refers to any more: variables of
// functions that have returned are not carried through a loop.
func (e *Eng) collectGarbage(st *State, more []*Term) {
	live := map[int64]bool{}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	object := func(o int64) {
		if c, ok := st.mem[o]; ok && !live[o] {
			live[o] = true
			mark(c)
		}
	}
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.k {
		case KInt, KStr, KBool:
		default:
			object(t.n)
		}
		for _, a := range t.a {
			mark(a)
		}
	}
	for o := range e.globalObjs {
		object(o)
	}
	for _, f := range e.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, t := range f.args {
			mark(t)
		}
		for _, t := range f.free {
			mark(t)
		}
		for _, d := range f.defers {
			for _, t := range d.vals {
				mark(t)
			}
		}
	}
	for _, t := range more {
		mark(t)
	}
	for o := range st.mem {
		if !live[o] {
			delete(st.mem, o)
		}
	}
}

// isErrTerm: alternatives of errors.
func isErrTerm(t *Term) bool {
	for _, l := range leaves(t) {
		if l.t.k == KErr || l.t.k == KSym && strings.Contains(l.t.s, "error") {
			return true
		}
	}
	return false
}

func loopPos(nl *natLoop) (p tokenPos) {
	for _, in := range nl.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range nl.blocks {
		for _, in := range b.Instrs {
			if q := in.Pos(); q.IsValid() && (!p.IsValid() || q < p) {
				p = q
			}
		}
	}
	return p
}

func mentionsLoop(t *Term, L *Loop) bool {
	return len(collect(t, func(x *Term) bool {
		return (x.k == KMu || x.k == KIter) && x.loop == L || x.k == KSym && x.s == "new" && x.n > L.fresh0
	})) > 0
}

// emptyTests are the tests for mu being empty that next depends on.
func (lc *lctx) emptyTests(mu, next *Term) []B {
	if mu == nil {
		return nil
	}
	var out []B
	for _, l := range leaves(next) {
		for v := range suppOf(l.g) {
			if a := C.atoms[v]; a.kind == "ge" && a.k == 1 && a.t.k == KApp && a.t.s == "len" && a.t.a[0] == mu {
				out = append(out, C.bdd.atom(v))
			}
		}
	}
	return out
}

// neverEmpty: the texts a loop carries that are empty at no turn.
func (lc *lctx) neverEmpty(g0 B) B {
	inv := True
	for _, p := range sortedPaths(lc.info) {
		W, i := lc.mu[p], lc.info[p]
		if W == nil || !isText(i.init) {
			continue
		}
		for _, j := range lc.info {
			for _, c := range lc.emptyTests(W, j.next) {
				if entails(g0, substB(c, map[*Term]*Term{W: i.init})) && entails(lc.L.back, substB(c, map[*Term]*Term{W: i.next})) {
					inv = C.and(inv, c)
				}
			}
		}
	}
	return inv
}

func isText(t *Term) bool { return t.k == KStr || t.k == KText || isStringTerm(t) }

func sortedPaths(m map[string]*muInfo) []string {
	var ps []string
	for p := range m {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// invariants gives the conditions on carried values that hold on entry and
// again at the end of each turn.
func (lc *lctx) invariants(g0 B) B {
	inv := True
	var ps []string
	for p := range lc.info {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		W, i := lc.mu[p], lc.info[p]
		if W == nil || i.next == W || i.init.k == KBool || i.init.k == KGate || i.next.k == KGate || looksSeq(i.init) {
			continue
		}
		nb, off := baseOff(i.next)
		var vs []int32
		for v := range suppOf(lc.L.back) {
			if t := C.atoms[v].t; t != nil && contains(t, nb) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(a, b int) bool { return vs[a] < vs[b] })
		for _, v := range vs {
			a := C.bdd.atom(v)
			if !entails(lc.L.back, a) {
				if a = C.not(a); !entails(lc.L.back, a) {
					continue
				}
			}
			c := substB(a, map[*Term]*Term{nb: mkNext(W, -off)})
			if entails(g0, substB(c, map[*Term]*Term{W: i.init})) && entails(lc.L.back, substB(c, map[*Term]*Term{W: i.next})) {
				inv = C.and(inv, c)
			}
		}
	}
	return inv
}

func (lc *lctx) relate() {
	var ps []string
	for p, m := range lc.modes {
		if m.kind == "mu" && lc.info[p] != nil && !lc.noRel[p] {
			i := lc.info[p]
			if i.init.k == KBool || looksSeq(i.init) || isStringTerm(i.init) || i.init.k == KStr || i.init.k == KInt {
				continue
			}
			ps = append(ps, p)
		}
	}
	// the node that stands for an entity first
	first := func(p string) bool { r := lc.e.role(lc.info[p].init); return r.valid() && r.idx == 0 }
	sort.Slice(ps, func(i, j int) bool {
		if a, b := first(ps[i]), first(ps[j]); a != b {
			return a
		}
		return ps[i] < ps[j]
	})
	done := map[string]bool{}
	for i, p := range ps {
		if done[p] {
			continue
		}
		for _, q := range ps[i+1:] {
			if done[q] {
				continue
			}
			a, b := lc.info[p], lc.info[q]
			for d := int64(-7); d <= 7; d++ {
				if mkNext(a.init, d) != b.init {
					continue
				}
				// presumably the distance is kept: then it must be kept by a turn
				n := mkNext(a.next, d)
				if n != b.next && len(leaves(b.next)) <= 64 {
					m := map[*Term]*Term{lc.mu[q]: mkNext(lc.mu[p], d)}
					if x := substT(b.next, m); x != b.next && substT(n, m) == x {
						n = b.next
					}
				}
				if n == b.next {
					lc.modes[q] = &lmode{kind: "rel", base: p, c: d}
					lc.chg = true
					done[q] = true
					break
				}
			}
		}
	}
}

// closeExits gives the values of a loop that ends by exhausting its range
// in closed form on that exit.
func (e *Eng) closeExits(L *Loop, g0 B, exits []inEdge) {
	kappa := mkIter(L)
	full := false
	defer func() {
		if full && len(L.mus) == 0 {
			L.searches(L.n, kappa)
		}
	}()
	for xi := range exits {
		x := &exits[xi]
		L.exits = append(L.exits, exitInfo{guard: x.g, to: x.to, from: x.from})
		c := C.restrict(x.g, g0)
		n := exhausted(c, kappa)
		if os.Getenv("SA_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "   exit of %d: n=%v\n", L.id, n)
		}
		if m := halfway(c, kappa); n == nil && m != nil || n != nil {
			for mu, i := range L.mus {
				if k := swapped(mu, i, kappa); k != nil && (m != nil && (k == m || addc(k, -1) == m) || n != nil && n == mkApp("op/", 0, k, mkInt(2))) {
					x.st.addSub(mu, mkRev(i.init))
				}
			}
		}
		if n == nil || mentionsLoop(n, L) || !proveGE(n, g0) {
			for i := range x.phis {
				x.phis[i] = x.st.resolve(x.phis[i])
			}
			continue
		}
		L.n = n
		L.full = xi
		full = true
		m := map[*Term]*Term{kappa: n}
		for mu, i := range L.mus {
			if cf := closedForm(L, mu, i, n, kappa); cf != nil {
				m[mu] = cf
			}
		}
		for k := range m {
			// in a fixed order
			_ = k
		}
		var ks []*Term
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			x.st.addSub(k, substT(m[k], x.st.sub))
		}
		for i := range x.phis {
			x.phis[i] = x.st.resolve(x.phis[i])
		}
	}
}

// halfway recognises the condition "2κ has reached m".
func halfway(c B, kappa *Term) *Term {
	if c <= True {
		return nil
	}
	nd := C.nodes[c]
	a := C.atoms[nd.v]
	if a.kind != "ge" || nd.lo > True || nd.hi > True {
		return nil
	}
	neg := nd.hi == False
	co, m := linParts(a.t)
	k := m[kappa]
	delete(m, kappa)
	rest := mkLin(co, m)
	switch {
	case k == 2 && !neg:
		return sub(mkInt(a.k), rest)
	case k == -2 && neg:
		return addc(rest, 1-a.k)
	}
	return nil
}

// swapped recognises that the elements at κ and at the same distance from the
// end change places; it gives the length.
func swapped(mu *Term, i *muInfo, kappa *Term) *Term {
	n := seqLen(i.init)
	t := i.next
	if t.k != KApp || t.s != "store" || t.a[0].k != KApp || t.a[0].s != "store" || t.a[0].a[0] != mu {
		return nil
	}
	p, q := t.a[0].a[1], t.a[1]
	r := sub(addc(n, -1), kappa)
	if !(p == kappa && q == r || p == r && q == kappa) || t.a[0].a[2] != seqIdx(mu, q) || t.a[2] != seqIdx(mu, p) {
		return nil
	}
	return n
}

// exhausted recognises the condition "κ has reached n".
func exhausted(c B, kappa *Term) *Term {
	if c <= True {
		return nil
	}
	sup := suppOf(c)
	var other []int32
	for v := range sup {
		if a := C.atoms[v]; a.t == nil || !contains(a.t, kappa) {
			other = append(other, v)
		}
	}
	if len(other) > 0 {
		if len(other) > 12 || len(other) == len(sup) {
			return nil
		}
		sort.Slice(other, func(i, j int) bool { return other[i] < other[j] })
		v := C.bdd.atom(other[0])
		hi, lo := exhausted(C.cofactor(c, other[0], true), kappa), exhausted(C.cofactor(c, other[0], false), kappa)
		if hi == nil || lo == nil {
			return nil
		}
		return ite(v, hi, lo)
	}
	nd := C.nodes[c]
	var neg bool
	switch {
	case nd.lo == False && nd.hi == True:
	case nd.lo == True && nd.hi == False:
		neg = true
	default:
		return nil
	}
	a := C.atoms[nd.v]
	if a.kind != "ge" {
		return nil
	}
	co, m := linParts(a.t)
	k := m[kappa]
	delete(m, kappa)
	rest := mkLin(co, m)
	switch {
	case k == 1 && !neg: // κ + rest >= k
		return sub(mkInt(a.k), rest)
	case k == -1 && neg: // -κ + rest <= k-1
		return addc(rest, 1-a.k)
	}
	return nil
}

func onlyKappa(t *Term, L *Loop) bool {
	return len(collect(t, func(x *Term) bool { return x.k == KMu && x.loop == L })) == 0
}

// memberOf recognises that the condition q of a turn compares the element of a
// list with a fixed value.
func memberOf(q B, L *Loop, n, kappa *Term) *Term {
	for v := range suppOf(q) {
		a := C.atoms[v]
		if a.kind != "ge" {
			continue
		}
		_, m := linParts(a.t)
		for t, co := range m {
			if t.k != KApp || t.s != "idx" || t.a[1] != kappa || co != 1 && co != -1 || mentionsLoop(t.a[0], L) || seqLen(t.a[0]) != n {
				continue
			}
			for d := int64(0); d < 2; d++ {
				x := sub(t, mulc(addc(a.t, d-a.k), co))
				if mentionsLoop(x, L) || !entails(q, cmpEQint(t, x)) {
					continue
				}
				if lt := cmpLT(kappa, n); !entails(allOf(cmpEQint(t, x), lt), q) {
					continue
				}
				return mkAppRaw("has", 0, t.a[0], x)
			}
		}
	}
	return nil
}

// searches recognises a loop that looks for a value in a list.
func (L *Loop) searches(n, kappa *Term) {
	for v := range suppOf(L.back) {
		a := C.atoms[v]
		if a.kind != "ge" {
			continue
		}
		_, m := linParts(a.t)
		for t, co := range m {
			if t.k != KApp || t.s != "idx" || t.a[1] != kappa || co != 1 && co != -1 || mentionsLoop(t.a[0], L) || seqLen(t.a[0]) != n {
				continue
			}
			for d := int64(0); d < 2; d++ {
				x := sub(t, mulc(addc(a.t, d-a.k), co))
				if mentionsLoop(x, L) {
					continue
				}
				eq := cmpEQint(t, x)
				ok := entails(L.back, C.not(eq))
				for i, y := range L.exits {
					ok = ok && (i == L.full || entails(y.guard, eq))
				}
				if ok {
					L.member, L.search = mkAppRaw("has", 0, t.a[0], x), cmpLT(kappa, n)
					return
				}
			}
		}
	}
}

// found puts, in a condition, the membership in the list for the outcome of
// a search; it gives -1 when the condition depends on a loop in another way.
func found(c B, kappa *Term) B {
	seen := map[*Loop]bool{}
	for ch := true; ch; {
		ch = false
		for v := range suppOf(c) {
			a := C.atoms[v]
			if a.t == nil {
				continue
			}
			for _, k := range collect(a.t, func(t *Term) bool { return t.k == KIter && t != kappa && t.loop.inside(kappa.loop) }) {
				L := k.loop
				if L.member == nil || seen[L] {
					return -1
				}
				seen[L] = true
				nd := C.nodes[L.search]
				h := termAtom(L.member)
				if nd.lo == True {
					h = C.not(h)
				}
				c = C.subst(c, func(w int32) B {
					if w == nd.v {
						return h
					}
					return C.bdd.atom(w)
				})
				ch = true
				break
			}
			if ch {
				break
			}
		}
	}
	return c
}

func (L *Loop) inside(o *Loop) bool {
	for _, p := range L.parent {
		if p == o {
			return true
		}
	}
	return false
}

// outsideOnly gives x without the positions of searches, where the element
// found is the one looked for, or nil if it depends on a loop inside.
func outsideOnly(x, kappa *Term) *Term {
	inner := func() []*Term {
		return collect(x, func(t *Term) bool { return t.k == KIter && t != kappa && t.loop.inside(kappa.loop) })
	}
	for _, k := range inner() {
		if h := k.loop.member; h != nil {
			x = subst1(x, seqIdx(h.a[0], k), h.a[1])
		}
	}
	if len(inner()) > 0 {
		return nil
	}
	return x
}

// storeOnce makes one store of alternatives that store at the same place.
func storeOnce(mu *Term, i *muInfo, kappa *Term) *Term {
	if i.next.k != KGate {
		return i.next
	}
	var at *Term
	var ls []leaf
	for _, l := range leaves(i.next) {
		switch {
		case l.t == mu:
			ls = append(ls, leaf{l.g, nil})
		case l.t.k == KApp && l.t.s == "store" && l.t.a[0] == mu && (at == nil || at == l.t.a[1]):
			at = l.t.a[1]
			ls = append(ls, leaf{l.g, l.t.a[2]})
		default:
			return i.next
		}
	}
	if at == nil {
		return i.next
	}
	_, m := linParts(at)
	if m[kappa] != 1 && m[kappa] != -1 { // each place once
		return i.next
	}
	for k := range ls {
		if ls[k].t == nil {
			ls[k].t = seqIdx(i.init, at)
		}
	}
	return mkAppRaw("store", 0, mu, at, gateFlat(ls))
}

func mkGateCond(t *Term) []leaf { return leaves(t) }

// closedForm is the value of mu after n turns, if it has a known shape.
func closedForm(L *Loop, mu *Term, i *muInfo, n, kappa *Term) *Term {
	next := storeOnce(mu, i, kappa)
	if isStringTerm(mu) || i.init.k == KStr || i.init.k == KText {
		return closedText(L, mu, i, n, kappa)
	}
	if looksSeq(i.init) || looksSeq(next) {
		if next.k == KApp && next.s == "concat" && next.a[0] == mu {
			x := mkConcat(next.a[1:]...)
			if onlyKappa(x, L) {
				if x.k == KArray && len(x.a) == 1 {
					return mkConcat(i.init, mkMap(n, x.a[0], kappa))
				}
				return mkConcat(i.init, mkBind("flat", n, x, kappa))
			}
		}
		if next.k == KApp && next.s == "store" && next.a[0] == mu {
			at, v := next.a[1], next.a[2]
			if onlyKappa(at, L) && onlyKappa(v, L) && seqLen(i.init) == n {
				if at == kappa {
					return mkMap(n, v, kappa)
				}
				if at == sub(addc(n, -1), kappa) {
					return mkRev(mkMap(n, v, kappa))
				}
			}
		}
		if next.k == KGate && next.a[0].k != KBool {
			// appended under a condition
			var c B = False
			var x *Term
			ok := true
			for _, l := range leaves(next) {
				switch {
				case l.t == mu:
				case l.t.k == KApp && l.t.s == "concat" && l.t.a[0] == mu && onlyKappa(mkConcat(l.t.a[1:]...), L):
					y := mkConcat(l.t.a[1:]...)
					if x == nil {
						x = y
					} else {
						x = ite(l.g, y, x)
					}
					c = C.or(c, l.g)
				default:
					ok = false
				}
			}
			if ok && x != nil {
				if c, x = found(c, kappa), outsideOnly(x, kappa); c < 0 || x == nil {
					return nil
				}
				if c == True && x.k == KArray && len(x.a) == 1 {
					return mkConcat(i.init, mkMap(n, x.a[0], kappa))
				}
				return mkConcat(i.init, mkBind("filter", n, mkTuple(mkBool(c), x), kappa))
			}
		}
		return nil
	}
	if i.next.k == KBool && i.init == mkBool(False) {
		// true from the first turn on that has a property
		v := C.nodes[termAtom(mu)].v
		if C.cofactor(i.next.b, v, true) == True {
			if q := C.cofactor(i.next.b, v, false); onlyKappa(mkBool(q), L) {
				if h := memberOf(q, L, n, kappa); h != nil {
					return mkBool(termAtom(h))
				}
			}
		}
		return nil
	}
	if next.k == KApp && next.s == "mapset" && next.a[0] == mu && i.init.k == KApp && i.init.s == "map0" && onlyKappa(next.a[1], L) && !contains(next.a[2], kappa) && onlyKappa(next.a[2], L) {
		return mkAppRaw("mapof", 0, mkMap(n, next.a[1], kappa), next.a[2])
	}
	// binary digits, most significant first
	if i.init == mkInt(0) {
		if b := digit(next, mu); b != nil && onlyKappa(b, L) {
			return mkAppRaw("frombits", 0, mkMap(n, b, kappa))
		}
	}
	return nil
}

// digit recognises 2*mu+b.
func digit(next, mu *Term) *Term {
	var res *Term = mkBool(False)
	for _, l := range leaves(next) {
		c, m := linParts(l.t)
		if m[mu] != 2 {
			return nil
		}
		delete(m, mu)
		rest := mkLin(c, m)
		var b B
		switch {
		case rest == mkInt(0):
			b = False
		case rest == mkInt(1):
			b = True
		case rest.k == KApp && rest.s == "bitat":
			b = cmpGE(rest, mkInt(1))
		default:
			return nil
		}
		res = mkBool(C.or(res.b, C.and(l.g, b)))
	}
	return res
}

func mkBind(name string, n, body, it *Term) *Term {
	d := boundDepth(body) + 1
	return mkAppRaw(name, int64(d), n, subst1(body, it, mkBound(d)))
}

func closedText(L *Loop, mu *Term, i *muInfo, n, kappa *Term) *Term {
	tail := func(t *Term) (*Term, bool) {
		if t.k != KText || t.a[0] != mu {
			return nil, false
		}
		r := mkText(t.a[1:]...)
		return r, onlyKappa(r, L)
	}
	if t, ok := tail(i.next); ok {
		return mkText(i.init, joinMap(n, t, kappa))
	}
	if i.next.k == KGate && len(i.next.a) == 2 && i.init == mkStr("") {
		// a separator before all but the first
		first := C.not(cmpGE(kappa, mkInt(1)))
		for k := 0; k < 2; k++ {
			a, b := i.next.a[k], i.next.a[1-k]
			if i.next.g[k] != first {
				continue
			}
			x, ok1 := tail(a)
			y, ok2 := tail(b)
			if ok1 && ok2 && y.k == KText && len(y.a) >= 2 && y.a[0].k == KStr && mkText(y.a[1:]...) == x {
				return mkJoin(mkMap(n, x, kappa), y.a[0])
			}
		}
	}
	return nil
}

// joinMap is the concatenation of the texts t(0), t(1), ..., t(n-1).
func joinMap(n, t, kappa *Term) *Term {
	if t.k == KApp && t.s == "string" && t.a[0].k == KArray && len(t.a[0].a) == 1 {
		// characters one by one
		return mkString(mkMap(n, t.a[0].a[0], kappa))
	}
	if t.k != KText {
		return mkJoin(mkMap(n, t, kappa), mkStr(""))
	}
	r := mkBind("joinmap", n, t, kappa)
	C.symType[r] = typesString
	return r
}

var _ = strings.Contains

// stuck: a turn of the loop that leaves everything as it was is followed by
// the same turn, for ever.
func (e *Eng) stuck(fr *Frame, L *Loop, head *State, As []*Term, mem []int64, back []inEdge, issues int) {
	for _, i := range e.issues[issues:] {
		if i.rule == "undecided" || i.rule == "ambient" {
			return
		}
	}
	failing := True // nothing is changed if every call fails that would change something
	for _, ev := range e.log {
		if len(ev.loops) > len(L.parent) && ev.loops[len(L.parent)] == L && !readOnlyEvent(ev) {
			if ev.kind == "call" || len(ev.loops) > len(L.parent)+1 {
				return
			}
			failing = C.and(failing, C.or(C.not(ev.guard), C.not(ev.ok)))
		}
	}
	first := map[*Term]*Term{mkIter(L): mkInt(0)}
	for t, i := range L.mus {
		first[t] = i.init
	}
	for _, x := range back {
		for _, m := range []map[*Term]*Term{nil, first} {
			at := func(t *Term) *Term {
				if m == nil || t == nil {
					return t
				}
				return substT(t, m)
			}
			g := C.and(x.g, failing)
			if m != nil {
				g = substB(g, m)
			}
			for k, v := range x.st.ver {
				if head.ver[k] != v && failing == True {
					g = False
				}
			}
			// what changes but decides nothing about going on does not matter
			var skipped []*Term
			same := func(next, now *Term) {
				if g == False {
					return
				}
				own := collect(now, func(t *Term) bool { return (t.k == KMu || t.k == KIter) && mentionsLoop(t, L) })
				if m == nil && len(own) > 0 && !speaksOf(g, own) {
					skipped = append(skipped, own...)
					return
				}
				now = at(now)
				next = prune(at(x.st.resolve(next)), g)
				if next == prune(now, g) {
					return
				}
				eq := False
				for _, l := range leaves(next) {
					lg := C.and(g, l.g)
					if feasible(lg) && prune(l.t, lg) == prune(now, lg) {
						eq = C.or(eq, lg)
					}
				}
				g = eq
			}
			for i := range As {
				same(x.phis[i], As[i])
			}
			for _, o := range mem {
				c, ok := x.st.mem[o]
				if ok {
					same(c, head.mem[o])
				}
			}
			if g != False && feasible(g) && !hasUnknownB(g) && !speaksOf(g, skipped) {
				e.issue("stuck", g, fr, L.pos, "a turn of the loop changes nothing that could end it, so the loop never ends")
				return
			}
		}
	}
}

// readOnlyEvent: the call changes nothing in the storage.
func readOnlyEvent(ev *Event) bool {
	switch ev.kind {
	case "Has", "ReadTargets", "ReadSources", "GetReference":
		return true
	case "call":
		return !strings.HasSuffix(ev.name, ".Provide")
	}
	return false
}

// speaksOf: the condition speaks about one of the terms.
func speaksOf(g B, ts []*Term) bool {
	if len(ts) == 0 {
		return false
	}
	in := map[*Term]bool{}
	for _, t := range ts {
		in[t] = true
	}
	for v := range suppOf(g) {
		if a := C.atoms[v]; a.t != nil && len(collect(a.t, func(t *Term) bool { return in[t] })) > 0 {
			return true
		}
	}
	return false
}
