package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// instr evaluates one instruction that is not a control transfer.
func (e *Eng) instr(fr *Frame, in ssa.Instruction, g B, st *State) (B, *State) {
	e.curPos = in.Pos()
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		o := e.newObj(x.Comment, x.Pos())
		st.mem[o] = e.zero(t)
		set(x, mkPtr(o))
	case *ssa.BinOp:
		set(x, e.binop(fr, x, g, st))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			set(x, e.load(fr, e.addr(fr, x.X, st), x.Type(), g, st, x.Pos()))
		case token.NOT:
			set(x, mkBool(C.not(asBool(e.val(fr, x.X, st)))))
		case token.SUB:
			if isIntType(x.Type()) {
				set(x, mulc(e.val(fr, x.X, st), -1))
			} else {
				set(x, mkApp("neg", 0, e.val(fr, x.X, st)))
			}
		case token.ARROW:
			e.issue("undecided", g, fr, x.Pos(), "channel receive")
			set(x, e.unknownOf(x.Type(), "channel"))
		default:
			set(x, mkApp("un"+x.Op.String(), 0, e.val(fr, x.X, st)))
		}
	case *ssa.Call:
		v, ng, nst := e.callInstr(fr, &x.Call, x.Type(), g, st, x.Pos())
		set(x, v)
		return ng, nst
	case *ssa.ChangeInterface:
		set(x, e.val(fr, x.X, st))
	case *ssa.ChangeType:
		set(x, e.retype(e.val(fr, x.X, st), x.Type()))
	case *ssa.Convert:
		set(x, e.convert(fr, x, st))
	case *ssa.MakeInterface:
		v := e.val(fr, x.X, st)
		t := x.X.Type()
		set(x, lift(v, func(v *Term) *Term {
			if v.k == KErr {
				return v
			}
			return mkIface(t, v)
		}))
	case *ssa.MakeClosure:
		var fv []*Term
		for _, b := range x.Bindings {
			fv = append(fv, e.val(fr, b, st))
		}
		set(x, mkRaw(Term{k: KFunc, fn: x.Fn.(*ssa.Function), a: fv}))
	case *ssa.MakeMap:
		o := e.newObj("map", x.Pos())
		st.mem[o] = mkAppRaw("map0", 0)
		set(x, mkPtr(o))
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len, st)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if !proveGE(n, g) {
			e.issue("bounds", g, fr, x.Pos(), "make with a length that may be negative: %s", n)
			e.soften(g, n)
		}
		if c := e.val(fr, x.Cap, st); c != n && !proveGE(sub(c, n), g) {
			e.issue("bounds", g, fr, x.Pos(), "make with a capacity %s that may be below the length %s", c, n)
			e.soften(g, c, n)
		}
		set(x, lift(n, func(n *Term) *Term {
			var c *Term
			if n.k == KInt && n.n <= 64 && n.n >= 0 {
				a := make([]*Term, n.n)
				for i := range a {
					a[i] = e.zero(et)
				}
				c = mkArray(a)
			} else {
				c = mkAppRaw("fill", 0, e.zero(et), n)
			}
			return e.newSlice(c, st, "slice", x.Pos())
		}))
	case *ssa.MakeChan:
		e.issue("undecided", g, fr, x.Pos(), "channel")
		set(x, e.unknownOf(x.Type(), "channel"))
	case *ssa.Extract:
		set(x, e.tupleAt(e.val(fr, x.Tuple, st), x.Index))
	case *ssa.Field:
		set(x, st.resolve(selectField(e.val(fr, x.X, st), x.Field)))
	case *ssa.FieldAddr:
		p := e.addr(fr, x.X, st)
		set(x, e.ptrStep(fr, p, mkField(x.Field), g, st, x.Pos(), e.frozenPtr(x.X.Type())))
	case *ssa.Index:
		c := e.val(fr, x.X, st)
		i := e.val(fr, x.Index, st)
		e.bounds(fr, i, seqLen(c), g, x.Pos(), "index")
		set(x, st.resolve(e.typed(seqIdx(c, i), x.Type())))
	case *ssa.IndexAddr:
		p := e.val(fr, x.X, st)
		i := e.val(fr, x.Index, st)
		if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			e.bounds(fr, i, mkInt(at.Len()), g, x.Pos(), "index")
			set(x, e.ptrStep(fr, p, i, g, st, x.Pos(), false))
			break
		}
		p = prune(p, g)
		e.bounds(fr, i, e.sliceLen(p), g, x.Pos(), "index")
		set(x, lift2(p, i, func(p, i *Term) *Term {
			switch p.k {
			case KSlice:
				return mkPtr(p.n, append(append([]*Term{}, p.a[2:]...), add(p.a[0], i))...)
			case KNil:
				return mkNil()
			}
			// element of an opaque sequence: a read-only cell
			o := e.newObj("cell", x.Pos())
			st.mem[o] = p
			return mkPtr(o, i)
		}))
	case *ssa.Lookup:
		set(x, e.lookup(fr, x, g, st))
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, x.Map, st), e.val(fr, x.Key, st), e.val(fr, x.Value, st)
		for _, l := range leaves(prune(m, g)) {
			if l.t.k == KPtr {
				c := e.loadPath(st.mem[l.t.n], l.t.a)
				nc := mkAppRaw("mapset", 0, c, k, v)
				n := e.storePath(st.mem[l.t.n], l.t.a, nc)
				if l.g != True {
					n = ite(l.g, n, st.mem[l.t.n])
				}
				st.mem[l.t.n] = n
			} else if feasible(C.and(g, l.g)) {
				e.issue("nil", C.and(g, l.g), fr, x.Pos(), "assignment to an entry of a map that may be nil")
			}
		}
	case *ssa.Range:
		v := e.val(fr, x.X, st)
		o := e.newObj("iterator", x.Pos())
		st.mem[o] = mkInt(0)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			e.issue("maporder", g, fr, x.Pos(), "iteration over a map")
			set(x, mkTuple(mkPtr(o), mkUnknown("map iteration")))
		} else {
			set(x, mkTuple(mkPtr(o), v))
		}
	case *ssa.Next:
		set(x, e.next(fr, x, g, st))
	case *ssa.Slice:
		set(x, e.slice(fr, x, g, st))
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.FieldAddr); ok && e.unread[fieldOf(a)] {
			e.addr(fr, x.Addr, st) // may fail
			break
		}
		e.store(fr, e.addr(fr, x.Addr, st), e.val(fr, x.Val, st), g, st, x.Pos())
	case *ssa.TypeAssert:
		set(x, e.typeAssert(fr, x, g, st))
	case *ssa.Defer:
		if e.loopsOf(fr.fn).inner[x.Block()] != nil {
			e.issue("undecided", g, fr, x.Pos(), "deferred call in a loop")
			break
		}
		fr.defers = append(fr.defers, e.deferCall(fr, x, g, st))
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			dg := C.and(g, d.g)
			if !feasible(dg) {
				continue
			}
			rest := C.and(g, C.not(d.g))
			if !feasible(rest) {
				_, g, st = d.run(fr, dg, st)
				continue
			}
			_, ng, ns := d.run(fr, dg, st.clone())
			g = C.or(ng, rest)
			st = mergeStates([]stEdge{{ng, ns}, {rest, st}}, g)
		}
		return g, st
	case *ssa.Go:
		if waits(fr.fn) && len(fr.loops) == 0 && !operates(x.Call.StaticCallee(), modPath, map[*ssa.Function]bool{}) {
			e.issue("undecided", g, fr, x.Pos(), "goroutine started")
		} else {
			e.issue("ambient", g, fr, x.Pos(), "goroutine started")
		}
	case *ssa.Send:
		e.issue("undecided", g, fr, x.Pos(), "channel send")
	case *ssa.Select:
		if len(x.States) > 1 || !x.Blocking {
			e.issue("ambient", g, fr, x.Pos(), "select")
		} else {
			e.issue("undecided", g, fr, x.Pos(), "select")
		}
		set(x, e.unknownOf(x.Type(), "select"))
	default:
		e.issue("undecided", g, fr, in.Pos(), "instruction %T is not analysed", in)
		if v, ok := in.(ssa.Value); ok {
			set(v, e.unknownOf(v.Type(), "instruction"))
		}
	}
	return g, st
}

// typed remembers the type of an opaque scalar term.
func (e *Eng) typed(t *Term, ty types.Type) *Term {
	for _, l := range leaves(t) {
		if l.t.k == KApp || l.t.k == KMu {
			if _, ok := C.symType[l.t]; !ok {
				C.symType[l.t] = ty
			}
		}
	}
	if isBoolType(ty) {
		return mkBool(asBool(t))
	}
	return t
}

func (e *Eng) retype(v *Term, t types.Type) *Term {
	return lift(v, func(v *Term) *Term {
		if v.k == KStruct {
			return mkStruct(t, v.a)
		}
		return v
	})
}

func (e *Eng) tupleAt(t *Term, i int) *Term {
	return lift(t, func(t *Term) *Term {
		if t.k == KTuple && i < len(t.a) {
			return t.a[i]
		}
		return mkUnknown("component of " + t.String())
	})
}

func (e *Eng) ptrStep(fr *Frame, p, step *Term, g B, st *State, pos token.Pos, frozen bool) *Term {
	p = prune(p, g)
	var ls []leaf
	for _, l := range leaves(p) {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		switch l.t.k {
		case KPtr:
			for _, s := range leaves(step) {
				ls = append(ls, leaf{C.and(l.g, s.g), mkPtr(l.t.n, append(append([]*Term{}, l.t.a...), s.t)...)})
			}
		case KNil:
			e.issue("nil", lg, fr, pos, "nil pointer dereference")
		default:
			if l.t.k == KStruct || frozen && !isUnknown(l.t) {
				o := e.newObj("frozen", pos)
				st.mem[o] = l.t
				ls = append(ls, leaf{l.g, mkPtr(o, step)})
				continue
			}
			e.issue("undecided", lg, fr, pos, "address of a part of %s", l.t)
			ls = append(ls, leaf{l.g, mkUnknown("opaque pointer")})
		}
	}
	if len(ls) == 0 {
		return mkNil()
	}
	return gateOf(ls)
}

// frozenEq compares the addresses of objects that are carried by value.
func (e *Eng) frozenEq(a, b *Term) B {
	r := False
	for _, p := range leaves(a) {
		for _, q := range leaves(b) {
			g := C.and(p.g, q.g)
			switch {
			case g == False:
			case p.t.k == KNil && q.t.k == KNil:
				r = C.or(r, g)
			case p.t.k == KNil && q.t.k == KStruct, q.t.k == KNil && p.t.k == KStruct:
			case p.t.k == KNil || q.t.k == KNil:
				r = C.or(r, C.and(g, mkEq(p.t, q.t)))
			default:
				r = C.or(r, C.and(g, termAtom(mkUnknown("comparison of addresses"))))
			}
		}
	}
	return r
}

// reaches: the test of a counter against the limit it is counted to, one at a
// time, made in every turn of the loop and leaving it: the counter is never
// past the limit.
func (e *Eng) reaches(fr *Frame, x *ssa.BinOp, a, b *Term, g B) B {
	if len(fr.loops) == 0 || a.k == KGate || b.k == KGate || !isIntType(x.X.Type()) {
		return False
	}
	nl := e.loopsOf(fr.fn).inner[x.Block()]
	if nl == nil {
		return False
	}
	br, ok := x.Block().Instrs[len(x.Block().Instrs)-1].(*ssa.If)
	if !ok || br.Cond != ssa.Value(x) || nl.blocks[x.Block().Succs[0]] == nl.blocks[x.Block().Succs[1]] || nl.blocks[x.Block().Succs[0]] == (x.Op == token.EQL) {
		return False
	}
	for _, p := range nl.head.Preds {
		if nl.blocks[p] && !x.Block().Dominates(p) {
			return False
		}
	}
	k := mkIter(fr.loops[len(fr.loops)-1])
	d := sub(a, b)
	c, m := linParts(d)
	if m[k] == 1 {
		d = sub(b, a)
		c, m = linParts(d)
	}
	if m[k] != -1 {
		return False
	}
	delete(m, k)
	for t := range m {
		if mentionsLoop(t, k.loop) {
			return False
		}
	}
	if !entails(g, cmpGE(mkLin(c, m), mkInt(0))) {
		return False
	}
	return C.not(cmpGE(d, mkInt(1)))
}

func (e *Eng) binop(fr *Frame, x *ssa.BinOp, g B, st *State) *Term {
	a, b := prune(e.val(fr, x.X, st), g), prune(e.val(fr, x.Y, st), g)
	str := isStringType(x.X.Type())
	isInt := isIntType(x.X.Type())
	switch x.Op {
	case token.EQL, token.NEQ:
		var r B
		if _, ok := x.X.Type().Underlying().(*types.Interface); ok {
			r = e.ifaceEq(a, b)
		} else if str {
			r = e.strEq(a, b)
		} else if isBoolType(x.X.Type()) {
			p, q := asBool(a), asBool(b)
			r = C.ite(p, q, C.not(q))
		} else if e.frozenPtr(x.X.Type()) {
			r = e.frozenEq(a, b)
		} else if r = e.reaches(fr, x, a, b, g); r != False {
			// counting up to a limit
		} else if isInt {
			r = e.sameNode(a, b)
		} else {
			r = mkEq(a, b)
		}
		if x.Op == token.NEQ {
			r = C.not(r)
		}
		return mkBool(r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isInt {
			return mkBool(termAtom(mkApp("cmp"+x.Op.String(), 0, a, b)))
		}
		switch x.Op {
		case token.LSS:
			return mkBool(C.not(cmpGE(a, b)))
		case token.LEQ:
			return mkBool(cmpGE(b, a))
		case token.GTR:
			return mkBool(C.not(cmpGE(b, a)))
		}
		return mkBool(cmpGE(a, b))
	case token.ADD:
		if str {
			return mkText(a, b)
		}
		if isInt {
			return add(a, b)
		}
	case token.SUB:
		if isInt {
			r := sub(a, b)
			return r
		}
	case token.MUL:
		if isInt {
			if a.k == KInt {
				return mulc(b, a.n)
			}
			if b.k == KInt {
				return mulc(a, b.n)
			}
		}
	case token.SHL:
		if isInt && b.k == KInt && b.n >= 0 && b.n < 32 {
			return mulc(a, 1<<uint(b.n))
		}
	case token.OR:
		// x | 1 for an even x
		if isInt {
			if r := orSmall(a, b); r != nil {
				return r
			}
			if r := orSmall(b, a); r != nil {
				return r
			}
		}
	case token.QUO, token.REM:
		if isInt && !(b.k == KInt && b.n != 0) {
			nz := C.not(cmpEQint(b, mkInt(0)))
			if !entails(g, nz) {
				e.issue("bounds", C.and(g, C.not(nz)), fr, x.Pos(), "division by zero")
			}
		}
		if isInt && a.k == KInt && b.k == KInt && b.n > 0 && a.n >= 0 {
			if x.Op == token.QUO {
				return mkInt(a.n / b.n)
			}
			return mkInt(a.n % b.n)
		}
	}
	if x.Op == token.SHL || x.Op == token.SHR {
		if bt, ok := x.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 && !proveGE(b, g) {
			e.issue("bounds", g, fr, x.Pos(), "shift by an amount that may be negative")
			e.soften(g, b)
		}
	}
	return e.typed(mkApp("op"+x.Op.String(), 0, a, b), x.Type())
}

// orSmall is a|b as a sum, when a is a multiple of two and b is 0 or 1.
func orSmall(a, b *Term) *Term {
	c, m := linParts(a)
	if a.k == KGate || c%2 != 0 {
		return nil
	}
	for _, co := range m {
		if co%2 != 0 {
			return nil
		}
	}
	for _, l := range leaves(b) {
		if !(l.t.k == KInt && (l.t.n == 0 || l.t.n == 1)) && !(l.t.k == KApp && l.t.s == "bitat") {
			return nil
		}
	}
	return add(a, b)
}

func (e *Eng) ifaceEq(a, b *Term) B {
	r := False
	for _, x := range leaves(a) {
		for _, y := range leaves(b) {
			g := C.and(x.g, y.g)
			if g == False {
				continue
			}
			r = C.or(r, C.and(g, mkEq(x.t, y.t)))
		}
	}
	return r
}

func (e *Eng) strEq(a, b *Term) B { return mkEq(a, b) }

// mkBytestring is the text with the bytes c.
func mkBytestring(c *Term) *Term {
	switch {
	case c.k == KApp && c.s == "bytes":
		return c.a[0]
	case c.k == KArray:
		b := make([]byte, len(c.a))
		for i, x := range c.a {
			if x.k != KInt {
				b = nil
				break
			}
			b[i] = byte(x.n)
		}
		if b != nil {
			return mkStr(string(b))
		}
	case c.k == KApp && c.s == "concat":
		ps := make([]*Term, len(c.a))
		for i, x := range c.a {
			ps[i] = mkBytestring(x)
		}
		return mkText(ps...)
	case c.k == KApp && c.s == "flat":
		body, it := unbind(c)
		if x := mkBytestring(body); x.k != KApp || x.s != "bytestring" {
			return joinMap(c.a[0], x, it)
		}
	}
	t := mkAppRaw("bytestring", 0, c)
	C.symType[t] = typesString
	return t
}

func (e *Eng) convert(fr *Frame, x *ssa.Convert, st *State) *Term {
	v := e.val(fr, x.X, st)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	if ts, ok := to.(*types.Slice); ok && isStringType(x.X.Type()) {
		if eb, ok := ts.Elem().Underlying().(*types.Basic); ok {
			if eb.Kind() == types.Int32 {
				return lift(v, func(v *Term) *Term { return e.newSlice(mkRunes(v), st, "runes", x.Pos()) })
			}
			return lift(v, func(v *Term) *Term {
				if v.k == KApp && v.s == "bytestring" {
					return e.newSlice(v.a[0], st, "bytes", x.Pos())
				}
				return e.newSlice(mkAppRaw("bytes", 0, v), st, "bytes", x.Pos())
			})
		}
	}
	if isStringType(x.Type()) {
		if fs, ok := from.(*types.Slice); ok {
			if eb, ok := fs.Elem().Underlying().(*types.Basic); ok {
				c := e.content(v, st)
				if eb.Kind() == types.Int32 {
					return mkString(c)
				}
				return lift(c, mkBytestring)
			}
		}
		if isIntType(x.X.Type()) {
			return mkString(mkArray([]*Term{v}))
		}
	}
	if isIntType(x.X.Type()) && isIntType(x.Type()) {
		// widths only matter for values that are not identifiers or runes;
		// narrowing below 32 bits loses information
		sz := func(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }
		if sz(to) < 4 && sz(to) < sz(from) {
			return lift(v, func(v *Term) *Term {
				if v.k == KInt && v.n >= 0 && v.n < 128 {
					return v
				}
				return mkAppRaw(fmt.Sprintf("narrow%d", sz(to)), 0, v)
			})
		}
		return v
	}
	if types.Identical(from, to) {
		return v
	}
	if _, ok := from.(*types.Slice); ok {
		if _, ok := to.(*types.Slice); ok {
			return v
		}
	}
	return e.typed(mkApp("conv:"+typeKey(x.Type()), 0, v), x.Type())
}

func (e *Eng) slice(fr *Frame, x *ssa.Slice, g B, st *State) *Term {
	v := prune(e.val(fr, x.X, st), g)
	lo := mkInt(0)
	if x.Low != nil {
		lo = e.val(fr, x.Low, st)
	}
	var hi *Term
	if x.High != nil {
		hi = e.val(fr, x.High, st)
	}
	if isStringType(x.X.Type()) {
		n := seqLen(v)
		h := hi
		if h == nil {
			h = n
		}
		e.sliceBounds(fr, lo, h, n, g, x.Pos())
		return lift(v, func(v *Term) *Term {
			if lo == mkInt(0) && h == n {
				return v
			}
			if t := substr(v, lo, h); t != nil {
				return t
			}
			return e.typed(mkApp("substr", 0, v, lo, h), x.Type())
		})
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		h := hi
		if h == nil {
			h = mkInt(at.Len())
		}
		e.sliceBounds(fr, lo, h, mkInt(at.Len()), g, x.Pos())
		return lift(v, func(p *Term) *Term {
			if p.k != KPtr {
				return mkUnknown("slice of an unknown array")
			}
			return mkRaw(Term{k: KSlice, n: p.n, a: append([]*Term{lo, sub(h, lo)}, p.a...)})
		})
	}
	n := e.sliceLen(v)
	h := hi
	if h == nil {
		h = n
	}
	e.sliceBounds(fr, lo, h, n, g, x.Pos())
	return lift(v, func(v *Term) *Term {
		h := hi
		if h == nil {
			h = e.sliceLen(v)
		}
		switch v.k {
		case KSlice:
			return mkRaw(Term{k: KSlice, n: v.n, a: append([]*Term{add(v.a[0], lo), sub(h, lo)}, v.a[2:]...)})
		case KNil:
			return v
		}
		return mkSub(v, lo, sub(h, lo))
	})
}

func (e *Eng) sliceBounds(fr *Frame, lo, hi, n *Term, g B, pos token.Pos) {
	if !proveGE(lo, g) || !proveGE(sub(hi, lo), g) || !proveGE(sub(n, hi), g) {
		e.issue("bounds", g, fr, pos, "slice bounds [%s:%s] are not known to be within length %s", lo, hi, n)
		e.soften(g, lo, hi, n)
	}
}

func (e *Eng) mapGet(m, k *Term, zero *Term) (*Term, B) {
	if m.k == KGate || k.k == KGate {
		v, ok := zero, False
		for _, a := range leaves(m) {
			for _, b := range leaves(k) {
				g := C.and(a.g, b.g)
				if g == False {
					continue
				}
				w, o := e.mapGet(a.t, b.t, zero)
				v = ite(g, w, v)
				ok = C.or(ok, C.and(g, o))
			}
		}
		return v, ok
	}
	if m.k == KApp && m.s == "map0" || m.k == KNil {
		return zero, False
	}
	if m.k == KApp && m.s == "mapset" {
		eq := mkEq(m.a[1], k)
		v, ok := e.mapGet(m.a[0], k, zero)
		return ite(eq, m.a[2], v), C.or(eq, ok)
	}
	if m.k == KApp && m.s == "mapof" {
		// keys key(0..n-1), all with the same value
		ok := termAtom(mkAppRaw("has", 0, m.a[0], k))
		return ite(ok, m.a[1], zero), ok
	}
	ok := termAtom(mkAppRaw("haskey", 0, m, k))
	return ite(ok, mkAppRaw("mapget", 0, m, k), zero), ok
}

func (e *Eng) lookup(fr *Frame, x *ssa.Lookup, g B, st *State) *Term {
	c, k := e.val(fr, x.X, st), e.val(fr, x.Index, st)
	if isStringType(x.X.Type()) {
		e.bounds(fr, k, seqLen(c), g, x.Pos(), "string index")
		return seqIdx(c, k)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	z := e.zero(mt.Elem())
	c = lift(c, func(p *Term) *Term {
		if p.k == KPtr {
			return st.resolve(e.loadPath(st.mem[p.n], p.a))
		}
		return p
	})
	v, ok := e.mapGet(c, k, z)
	if isBoolType(mt.Elem()) {
		v = mkBool(asBool(v))
	}
	if x.CommaOk {
		return mkTuple(v, mkBool(ok))
	}
	return v
}

func (e *Eng) next(fr *Frame, x *ssa.Next, g B, st *State) *Term {
	it := e.val(fr, x.Iter, st)
	if it.k != KTuple || len(it.a) != 2 || it.a[0].k != KPtr {
		e.issue("undecided", g, fr, x.Pos(), "iterator")
		return e.unknownResult(x.Type().(*types.Tuple), "iterator")
	}
	o := it.a[0].n
	pos := st.resolve(st.mem[o])
	if !x.IsString {
		st.mem[o] = addc(pos, 1)
		tt := x.Type().(*types.Tuple)
		C.fresh++
		return mkTuple(mkBool(termAtom(mkUnknown("map iteration ends"))), e.unknownOf2(tt.At(1).Type()), e.unknownOf2(tt.At(2).Type()))
	}
	s := it.a[1]
	rs := mkRunes(s)
	st.mem[o] = addc(pos, 1)
	ok := cmpLT(pos, seqLen(rs))
	key := lift(s, func(s *Term) *Term {
		if isASCII(s) {
			return pos
		}
		k := mkAppRaw("bytepos", 0, s, pos)
		C.nonneg[k] = true
		return k
	})
	return mkTuple(mkBool(ok), key, seqIdx(rs, pos))
}

func (e *Eng) unknownOf2(t types.Type) *Term {
	if t == nil || t == types.Typ[types.Invalid] {
		return mkUnknown("unused")
	}
	return e.unknownOf(t, "map iteration")
}

func isASCII(s *Term) bool {
	if s.k == KStr {
		for i := 0; i < len(s.s); i++ {
			if s.s[i] >= 0x80 {
				return false
			}
		}
		return true
	}
	return s.k == KApp && s.s == "fmtb"
}

func (e *Eng) typeAssert(fr *Frame, x *ssa.TypeAssert, g B, st *State) *Term {
	v := prune(e.val(fr, x.X, st), g)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	okB := False
	var ls []leaf
	for _, l := range leaves(v) {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		switch {
		case l.t.k == KIface && toIface:
			if types.Implements(l.t.t, x.AssertedType.Underlying().(*types.Interface)) {
				okB = C.or(okB, l.g)
				ls = append(ls, leaf{l.g, l.t})
			} else {
				ls = append(ls, leaf{l.g, mkNil()})
			}
		case l.t.k == KIface:
			if types.Identical(l.t.t, x.AssertedType) {
				okB = C.or(okB, l.g)
				ls = append(ls, leaf{l.g, l.t.a[0]})
			} else {
				ls = append(ls, leaf{l.g, e.zero(x.AssertedType)})
			}
		case l.t.k == KNil:
			ls = append(ls, leaf{l.g, e.zero(x.AssertedType)})
		case l.t == e.S && toIface && types.AssignableTo(x.X.Type(), x.AssertedType):
			okB = C.or(okB, l.g)
			ls = append(ls, leaf{l.g, l.t})
		case l.t == e.S && toIface:
			b := termAtom(mkAppRaw("storage implements "+typeKey(x.AssertedType), 0))
			okB = C.or(okB, C.and(l.g, b))
			ls = append(ls, leaf{l.g, l.t})
		default:
			b := termAtom(mkUnknown("type assertion"))
			okB = C.or(okB, C.and(l.g, b))
			ls = append(ls, leaf{l.g, e.unknownOf(x.AssertedType, "type assertion")})
		}
	}
	r := mkUnknown("type assertion")
	if len(ls) > 0 {
		r = gateFlat(ls)
	}
	if x.CommaOk {
		return mkTuple(r, mkBool(okB))
	}
	if bad := C.and(g, C.not(okB)); feasible(bad) {
		e.issue("nil", bad, fr, x.Pos(), "type assertion may fail")
	}
	return r
}

// ---- calls

// deferred is a call to be made when its function returns.
type deferred struct {
	g    B
	vals []*Term
	run  func(fr *Frame, g B, st *State) (*Term, B, *State)
}

// deferCall evaluates the function and the arguments of a deferred call.
func (e *Eng) deferCall(fr *Frame, x *ssa.Defer, g B, st *State) deferred {
	env := map[ssa.Value]*Term{}
	vals := append([]ssa.Value{x.Call.Value}, x.Call.Args...)
	for _, v := range vals {
		if _, ok := v.(*ssa.Builtin); !ok {
			env[v] = e.val(fr, v, st)
		}
	}
	var ts []*Term
	for _, v := range vals {
		if t := env[v]; t != nil {
			ts = append(ts, t)
		}
	}
	return deferred{g, ts, func(fr *Frame, g B, st *State) (*Term, B, *State) {
		saved := fr.env
		fr.env = map[ssa.Value]*Term{}
		for v, t := range saved {
			fr.env[v] = t
		}
		for v, t := range env {
			switch v.(type) {
			case *ssa.Const, *ssa.Function, *ssa.Global:
			default:
				fr.env[v] = t
			}
		}
		v, ng, ns := e.callInstr(fr, &x.Call, nil, g, st, x.Pos())
		fr.env = saved
		return v, ng, ns
	}}
}

func (e *Eng) callInstr(fr *Frame, c *ssa.CallCommon, rt types.Type, g B, st *State, pos token.Pos) (*Term, B, *State) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(fr, a, st))
	}
	if c.IsInvoke() {
		recv := prune(e.val(fr, c.Value, st), g)
		return e.dispatch(fr, recv, g, st, pos, c.Signature(), func(r *Term, g B, st *State) (*Term, B, *State) {
			return e.invoke(fr, r, c.Method, args, g, st, pos)
		})
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, b, c, args, rt, g, st, pos), g, st
	}
	f := prune(e.val(fr, c.Value, st), g)
	return e.dispatch(fr, f, g, st, pos, c.Signature(), func(r *Term, g B, st *State) (*Term, B, *State) {
		if r.k == KFunc {
			return e.call(r.fn, args, r.a, g, st, fr, pos)
		}
		if r.k == KNil {
			e.issue("nil", g, fr, pos, "call of a nil function")
			return e.unknownResult(c.Signature().Results(), "nil function"), False, st
		}
		e.issue("undecided", g, fr, pos, "call of an unknown function %s", r)
		return e.unknownResult(c.Signature().Results(), "unknown function"), g, st
	})
}

// dispatch does one call per alternative of the callee.
func (e *Eng) dispatch(fr *Frame, r *Term, g B, st *State, pos token.Pos, sig *types.Signature, f func(*Term, B, *State) (*Term, B, *State)) (*Term, B, *State) {
	if r.k != KGate {
		return f(r, g, st)
	}
	out := False
	type res struct {
		v  *Term
		g  B
		st *State
	}
	var rs []res
	for _, l := range leaves(r) {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		v, ng, ns := f(l.t, lg, st.clone())
		if feasible(ng) {
			out = C.or(out, ng)
			rs = append(rs, res{v, ng, ns})
		}
	}
	if len(rs) == 0 {
		return e.unknownResult(sig.Results(), "no callee"), False, st
	}
	var ls []leaf
	var ss []stEdge
	for _, x := range rs {
		ls = append(ls, leaf{C.restrict(x.g, out), x.v})
		ss = append(ss, stEdge{x.g, x.st})
	}
	return gateFlat(ls), out, mergeStates(ss, out)
}

func (e *Eng) invoke(fr *Frame, r *Term, m *types.Func, args []*Term, g B, st *State, pos token.Pos) (*Term, B, *State) {
	sig := m.Type().(*types.Signature)
	switch {
	case r == e.S:
		return e.storageOp(fr, m.Name(), args, sig, g, st, pos)
	case r.k == KIface:
		fn := e.prog.LookupMethod(r.t, m.Pkg(), m.Name())
		if fn == nil {
			e.issue("undecided", g, fr, pos, "method %s of %s", m.Name(), r.t)
			return e.unknownResult(sig.Results(), "method"), g, st
		}
		return e.call(fn, append([]*Term{r.a[0]}, args...), nil, g, st, fr, pos)
	case r.k == KNil:
		e.issue("nil", g, fr, pos, "call of method %s on a nil value", m.Name())
		return e.unknownResult(sig.Results(), "nil receiver"), False, st
	case r.k == KErr && m.Name() != "Error":
		// what an error of the storage tells about itself
		if sig.Results().Len() == 1 && r.s == "storage" && len(args) == 0 {
			if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return mkBool(termAtom(mkAppRaw("error."+m.Name(), 0, r))), g, st
			}
		}
		e.issue("undecided", g, fr, pos, "call of method %s of an error", m.Name())
		return e.unknownResult(sig.Results(), "method of an error"), g, st
	case r.k == KErr:
		return e.typed(mkAppRaw("errtext", 0), types.Typ[types.String]), g, st
	}
	if feasible(g) {
		e.issue("undecided", g, fr, pos, "call of method %s on %s", m.Name(), r)
		e.issues[len(e.issues)-1].recv = r
		if d := e.deps[r]; d != nil {
			return e.invoke(fr, d, m, args, g, st, pos)
		}
	}
	return e.unknownResult(sig.Results(), "unknown receiver"), g, st
}

func (e *Eng) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, rt types.Type, g B, st *State, pos token.Pos) *Term {
	switch b.Name() {
	case "len":
		a := args[0]
		if isStringType(c.Args[0].Type()) {
			return seqLen(a)
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			t := lift(a, func(p *Term) *Term {
				if p.k == KPtr {
					m := e.loadPath(st.mem[p.n], p.a)
					if m.k == KApp && m.s == "map0" {
						return mkInt(0)
					}
					return mkLenRaw(m)
				}
				return mkInt(0)
			})
			return t
		}
		if at, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return mkInt(at.Len())
		}
		return e.sliceLen(a)
	case "cap":
		t := mkApp("cap", 0, args[0])
		C.nonneg[t] = true
		return t
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a, x := args[0], args[1]
		var xc *Term
		if isStringType(c.Args[1].Type()) {
			xc = mkApp("bytes", 0, prune(x, g))
		} else {
			xc = e.content(x, st)
		}
		ac := e.content(a, st)
		if ac.k == KApp && (ac.s == "S" || ac.s == "T") && entails(g, C.not(lenGE(ac, 1))) {
			ac = mkArray(nil) // known to be empty
		}
		nc := mkConcat(ac, xc)
		// appending nothing to nil gives nil; an empty slice serves as well
		if nc.k == KGate {
			return lift(nc, func(c *Term) *Term { return e.newSlice(c, st, "append", pos) })
		}
		return e.newSlice(nc, st, "append", pos)
	case "copy":
		dst, src := args[0], args[1]
		var sc *Term
		if isStringType(c.Args[1].Type()) {
			sc = mkApp("bytes", 0, src)
		} else {
			sc = e.content(src, st)
		}
		dl, sl := e.sliceLen(dst), seqLen(sc)
		if dst.k == KSlice && len(dst.a) == 2 && dst.a[0] == mkInt(0) && dl == sl {
			cur := st.mem[dst.n]
			if seqLen(cur) == dl {
				st.mem[dst.n] = sc
				return dl
			}
			if proveGE(sub(seqLen(cur), dl), g) {
				st.mem[dst.n] = mkConcat(sc, mkSub(cur, dl, sub(seqLen(cur), dl)))
				return dl
			}
		}
		if dst.k == KSlice {
			e.issue("undecided", g, fr, pos, "copy of a length that is not known to fit")
			st.mem[dst.n] = mkUnknown("copy")
		}
		t := mkApp("copied", 0, dl, sl)
		C.nonneg[t] = true
		return t
	case "delete":
		m, k := args[0], args[1]
		for _, l := range leaves(m) {
			if l.t.k == KPtr {
				st.mem[l.t.n] = e.storePath(st.mem[l.t.n], l.t.a, mkAppRaw("mapdel", 0, e.loadPath(st.mem[l.t.n], l.t.a), k))
			}
		}
		return mkTuple()
	case "print", "println":
		e.issue("ambient", g, fr, pos, "output by %s", b.Name())
		return mkTuple()
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			c := cmpGE(r, x)
			if b.Name() == "min" {
				c = C.not(c)
			}
			r = ite(c, r, x)
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		e.issue("undecided", g, fr, pos, "%s recovers from panics", fr.fn)
		return mkNil()
	}
	e.issue("undecided", g, fr, pos, "builtin %s", b.Name())
	if rt == nil {
		return mkTuple()
	}
	return e.unknownOf(rt, "builtin")
}

// waits tells whether the function waits for something another goroutine does.
func waits(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				return true
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "sync" && c.Name() == "Wait" {
					return true
				}
			case *ssa.Defer:
				if c := x.Call.StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "sync" && c.Name() == "Wait" {
					return true
				}
			}
		}
	}
	return false
}

// operates tells whether the function may reach an operation of the graph's
// storage: any call through an interface of the module counts.
func operates(fn *ssa.Function, mod string, seen map[*ssa.Function]bool) bool {
	if fn == nil {
		return true
	}
	if seen[fn] || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				if p := cc.Method.Pkg(); p != nil && strings.HasPrefix(p.Path(), mod) {
					return true
				}
			} else if f := cc.StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), mod) && operates(f, mod, seen) {
				return true
			}
		}
	}
	return false
}
