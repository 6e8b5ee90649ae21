package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values. Terms are interned, so equality is pointer equality.

type Kind uint8

const (
	KInt Kind = iota
	KStr
	KBool
	KNil
	KErr  // some error that is not nil
	KSym  // named constant of the analysis: parameter, created node, ...
	KMu   // value carried by a loop
	KIter // number of completed iterations of a loop
	KApp
	KStruct
	KArray
	KIface
	KTuple
	KPtr // pointer into an abstract object, a = path
	KFunc
	KGate
	KLin
	KNext  // n-th successor of a[0] in its reference chain
	KSlice // slice over the content of object n
	KText  // concatenation of strings
	KField // path step
)

type Term struct {
	id   int32
	k    Kind
	s    string
	n    int64
	a    []*Term
	g    []B
	co   []int64
	t    types.Type
	fn   *ssa.Function
	loop *Loop
	b    B
}

type atom struct {
	kind string // ok, term, ge
	t    *Term
	k    int64
	name string
}

type ctx struct {
	bdd
	intern  map[string]*Term
	terms   []*Term
	atoms   []*atom
	atomKey map[string]int32
	ges     map[*Term][]int64
	feas    map[B]bool
	nonneg  map[*Term]bool
	muLen   map[*Term]*Term
	typeKey map[types.Type]string
	fresh   int64
	symType map[*Term]types.Type
}

var C *ctx

func resetCtx() {
	C = &ctx{bdd: *newBDD(), intern: map[string]*Term{}, atomKey: map[string]int32{}, ges: map[*Term][]int64{}, feas: map[B]bool{},
		nonneg: map[*Term]bool{}, muLen: map[*Term]*Term{}, typeKey: map[types.Type]string{}, symType: map[*Term]types.Type{}}
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := C.typeKey[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	C.typeKey[t] = s
	return s
}

func mkRaw(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.k))
	sb.WriteString(t.s)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.n, 10))
	for _, a := range t.a {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(int(a.id)))
	}
	for _, g := range t.g {
		sb.WriteByte('g')
		sb.WriteString(strconv.Itoa(int(g)))
	}
	for _, c := range t.co {
		sb.WriteByte('c')
		sb.WriteString(strconv.FormatInt(c, 10))
	}
	if t.k == KBool {
		sb.WriteByte('b')
		sb.WriteString(strconv.Itoa(int(t.b)))
	}
	if t.t != nil && t.k != KNil {
		sb.WriteByte('t')
		sb.WriteString(typeKey(t.t))
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "f%p", t.fn)
	}
	if t.loop != nil {
		fmt.Fprintf(&sb, "l%d", t.loop.id)
	}
	key := sb.String()
	if r, ok := C.intern[key]; ok {
		return r
	}
	r := &t
	r.id = int32(len(C.terms))
	C.terms = append(C.terms, r)
	C.intern[key] = r
	return r
}

func mkInt(n int64) *Term                  { return mkRaw(Term{k: KInt, n: n}) }
func mkStr(s string) *Term                 { return mkRaw(Term{k: KStr, s: s}) }
func mkBool(b B) *Term                     { return mkRaw(Term{k: KBool, b: b}) }
func mkNil() *Term                         { return mkRaw(Term{k: KNil}) }
func mkErr() *Term                         { return mkRaw(Term{k: KErr}) }
func mkSym(s string) *Term                 { return mkRaw(Term{k: KSym, s: s}) }
func mkFreshSym(s string) *Term            { C.fresh++; return mkRaw(Term{k: KSym, s: s, n: C.fresh}) }
func mkField(i int) *Term                  { return mkRaw(Term{k: KField, n: int64(i)}) }
func mkPtr(obj int64, path ...*Term) *Term { return mkRaw(Term{k: KPtr, n: obj, a: path}) }
func mkIter(l *Loop) *Term {
	t := mkRaw(Term{k: KIter, loop: l})
	C.nonneg[t] = true
	return t
}
func mkBound(d int) *Term {
	t := mkRaw(Term{k: KSym, s: "β", n: int64(d)})
	C.nonneg[t] = true
	return t
}

func isUnknown(t *Term) bool {
	return t.k == KApp && (t.s == "unknown" || len(t.s) > 0 && t.s[0] == 63)
}

var unknownWhy = map[*Term]string{}

func mkUnknown(why string) *Term {
	C.fresh++
	t := mkRaw(Term{k: KApp, s: "unknown", n: C.fresh})
	unknownWhy[t] = why
	return t
}

func mkStruct(t types.Type, f []*Term) *Term { return mkRaw(Term{k: KStruct, t: t, a: f}) }
func mkArray(e []*Term) *Term                { return mkRaw(Term{k: KArray, a: e}) }
func mkTuple(e ...*Term) *Term               { return mkRaw(Term{k: KTuple, a: e}) }
func mkIface(t types.Type, v *Term) *Term {
	return mkRaw(Term{k: KIface, t: t, a: []*Term{v}})
}

// ---- guards

// feasible: g is not contradictory, knowing that x>=k+1 implies x>=k.
func feasible(g B) bool {
	if g <= True {
		return g == True
	}
	if r, ok := C.feas[g]; ok {
		return r
	}
	r := C.withOrder(g) != False
	C.feas[g] = r
	return r
}

// withOrder adds to g what relates the comparisons it contains.
func (c *ctx) withOrder(g B) B {
	type av struct {
		k int64
		v int32
	}
	by := map[*Term][]av{}
	for v := range suppOf(g) {
		if a := c.atoms[v]; a.kind == "ge" {
			by[a.t] = append(by[a.t], av{a.k, v})
		}
	}
	var imp []bnode
	for _, l := range by {
		if len(l) < 2 {
			continue
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		for i := 1; i < len(l); i++ {
			imp = append(imp, bnode{0, B(l[i].v), B(l[i-1].v)})
		}
	}
	sort.Slice(imp, func(i, j int) bool {
		if imp[i].lo != imp[j].lo {
			return imp[i].lo > imp[j].lo
		}
		return imp[i].hi > imp[j].hi
	})
	for _, x := range imp {
		g = c.and(g, c.implies(c.atom(int32(x.lo)), c.atom(int32(x.hi))))
		if g == False {
			break
		}
	}
	return g
}

func entails(g, h B) bool       { return !feasible(C.and(g, C.not(h))) }
func equivUnder(g, a, b B) bool { return entails(C.and(g, a), b) && entails(C.and(g, b), a) }

// simp simplifies b assuming g.
func simp(b, g B) B {
	if b <= True || !feasible(g) {
		return b
	}
	if !feasible(C.and(g, b)) {
		return False
	}
	if !feasible(C.and(g, C.not(b))) {
		return True
	}
	return C.restrict(b, g)
}

func newAtom(key string, a *atom) int32 {
	if v, ok := C.atomKey[key]; ok {
		return v
	}
	v := int32(len(C.atoms))
	C.atoms = append(C.atoms, a)
	C.atomKey[key] = v
	return v
}

func freshOk(name string) B {
	C.fresh++
	v := newAtom(fmt.Sprintf("ok#%d", C.fresh), &atom{kind: "ok", name: name, k: C.fresh})
	return C.bdd.atom(v)
}

func termAtom(t *Term) B {
	v := newAtom(fmt.Sprintf("t%d", t.id), &atom{kind: "term", t: t})
	return C.bdd.atom(v)
}

// asBool gives the condition under which the boolean term t is true.
func asBool(t *Term) B {
	switch t.k {
	case KBool:
		return t.b
	case KGate:
		r := False
		for i, l := range t.a {
			r = C.or(r, C.and(t.g[i], asBool(l)))
		}
		return r
	}
	return termAtom(t)
}

// ---- gates

type leaf struct {
	g B
	t *Term
}

func leaves(t *Term) []leaf {
	if t.k == KGate {
		out := make([]leaf, len(t.a))
		for i := range t.a {
			out[i] = leaf{t.g[i], t.a[i]}
		}
		return out
	}
	return []leaf{{True, t}}
}

func sameCtor(a, b *Term) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case KStruct:
		return types.Identical(a.t, b.t)
	case KIface:
		return types.Identical(a.t, b.t)
	case KTuple, KArray:
		return len(a.a) == len(b.a)
	case KFunc:
		return a.fn == b.fn && len(a.a) == len(b.a)
	}
	return false
}

func rebuildLike(a *Term, args []*Term) *Term {
	c := *a
	c.a = args
	return mkRaw(c)
}

// ite is the value that is a under c and b otherwise.
func ite(c B, a, b *Term) *Term {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	if a.k == KBool && b.k == KBool {
		return mkBool(C.ite(c, a.b, b.b))
	}
	if sameCtor(a, b) {
		args := make([]*Term, len(a.a))
		for i := range args {
			args[i] = ite(c, a.a[i], b.a[i])
		}
		return rebuildLike(a, args)
	}
	var ls []leaf
	for _, l := range leaves(a) {
		if g := C.and(c, l.g); g != False {
			ls = append(ls, leaf{g, l.t})
		}
	}
	nc := C.not(c)
	for _, l := range leaves(b) {
		if g := C.and(nc, l.g); g != False {
			ls = append(ls, leaf{g, l.t})
		}
	}
	return gateOf(ls)
}

func gateOf(in []leaf) *Term {
	var ls []leaf
	for _, l := range in {
		if l.g == False {
			continue
		}
		done := false
		for i := range ls {
			if ls[i].t == l.t {
				ls[i].g = C.or(ls[i].g, l.g)
				done = true
				break
			}
			if ls[i].t.k == KBool && l.t.k == KBool || sameCtor(ls[i].t, l.t) {
				// merge inside the constructor, choosing by the guard
				ls[i].t = ite(ls[i].g, ls[i].t, l.t)
				ls[i].g = C.or(ls[i].g, l.g)
				done = true
				break
			}
		}
		if !done {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return mkUnknown("no feasible value")
	}
	if len(ls) == 1 {
		return ls[0].t
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].t.id < ls[j].t.id })
	r := Term{k: KGate}
	for _, l := range ls {
		r.a = append(r.a, l.t)
		r.g = append(r.g, l.g)
	}
	return mkRaw(r)
}

// lift applies f to the plain leaves of the scalar t.
func lift(t *Term, f func(*Term) *Term) *Term {
	if t.k != KGate {
		return f(t)
	}
	ls := make([]leaf, len(t.a))
	for i, l := range t.a {
		ls[i] = leaf{t.g[i], f(l)}
	}
	return gateOf(ls)
}

func lift2(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.k != KGate && b.k != KGate {
		return f(a, b)
	}
	var ls []leaf
	for _, x := range leaves(a) {
		for _, y := range leaves(b) {
			g := C.and(x.g, y.g)
			if feasible(g) {
				ls = append(ls, leaf{g, f(x.t, y.t)})
			}
		}
	}
	return gateOf(ls)
}

func liftB(t *Term, f func(*Term) B) B {
	if t.k != KGate {
		return f(t)
	}
	r := False
	for i, l := range t.a {
		r = C.or(r, C.and(t.g[i], f(l)))
	}
	return r
}

// prune simplifies t assuming g, through all its structure.
func prune(t *Term, g B) *Term {
	if g == True {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if len(t.a) == 0 && t.k != KBool {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.k {
		case KBool:
			r = mkBool(simp(t.b, g))
		case KGate:
			var ls []leaf
			for i, l := range t.a {
				if feasible(C.and(g, t.g[i])) {
					ls = append(ls, leaf{simp(t.g[i], g), rec(l)})
				}
			}
			if len(ls) == 0 {
				r = t.a[0]
			} else if len(ls) == 1 {
				r = ls[0].t
			} else {
				r = gateOf(ls)
			}
		case KStruct, KArray, KIface, KTuple:
			args := make([]*Term, len(t.a))
			ch := false
			for i, a := range t.a {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			r = t
			if ch {
				r = rebuildLike(t, args)
			}
		case KApp:
			r = t
			if t.s == "concat" || t.s == "store" || t.s == "rev" || t.s == "string" || t.s == "join" {
				args := make([]*Term, len(t.a))
				ch := false
				for i, a := range t.a {
					args[i] = rec(a)
					ch = ch || args[i] != a
				}
				if ch {
					r = rebuild(t, args)
				}
			}
		default:
			r = t
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// cases splits t into alternatives without gates (looking through
// constructors), each with its condition, under g.
func cases(t *Term, g B) []leaf {
	out := []leaf{}
	var rec func(t *Term, g B)
	rec = func(t *Term, g B) {
		t = prune(t, g)
		gs := firstGate(t)
		if gs == nil {
			out = append(out, leaf{g, t})
			return
		}
		for _, c := range gs {
			if h := C.and(g, c); feasible(h) {
				rec(t, h)
			}
		}
	}
	if feasible(g) {
		rec(t, g)
	}
	return out
}

func firstGate(t *Term) []B {
	switch t.k {
	case KGate:
		return t.g
	case KStruct, KArray, KIface, KTuple, KApp, KNext, KLin:
		for _, a := range t.a {
			if g := firstGate(a); g != nil {
				return g
			}
		}
	}
	return nil
}

// ---- linear integer terms

func linParts(t *Term) (int64, map[*Term]int64) {
	m := map[*Term]int64{}
	switch t.k {
	case KInt:
		return t.n, m
	case KLin:
		for i, a := range t.a {
			m[a] = t.co[i]
		}
		return t.n, m
	}
	m[t] = 1
	return 0, m
}

func mkLin(c int64, m map[*Term]int64) *Term {
	r := Term{k: KLin, n: c}
	for t, co := range m {
		if co != 0 {
			r.a = append(r.a, t)
		}
	}
	if len(r.a) == 0 {
		return mkInt(c)
	}
	sort.Slice(r.a, func(i, j int) bool { return r.a[i].id < r.a[j].id })
	for _, t := range r.a {
		r.co = append(r.co, m[t])
	}
	if c == 0 && len(r.a) == 1 && r.co[0] == 1 {
		return r.a[0]
	}
	return mkRaw(r)
}

func addMul(a *Term, b *Term, k int64) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		c, m := linParts(a)
		d, n := linParts(b)
		for t, co := range n {
			m[t] += k * co
		}
		return mkLin(c+k*d, m)
	})
}

func add(a, b *Term) *Term        { return addMul(a, b, 1) }
func sub(a, b *Term) *Term        { return addMul(a, b, -1) }
func addc(a *Term, n int64) *Term { return add(a, mkInt(n)) }
func mulc(a *Term, k int64) *Term { return addMul(mkInt(0), a, k) }

func isNonneg(t *Term) bool {
	if C.nonneg[t] {
		return true
	}
	if t.k == KApp && t.s == "len" {
		return true
	}
	return false
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func ceilDiv(a, d int64) int64 {
	q := a / d
	if a%d != 0 && a > 0 {
		q++
	}
	return q
}

// geZero is the condition d >= 0 for a plain linear term.
func geZero(d *Term) B {
	c, m := linParts(d)
	if len(m) == 0 {
		if c >= 0 {
			return True
		}
		return False
	}
	// sum(m) >= -c
	h := mkLin(0, m)
	k := -c
	var first *Term
	var lead int64
	if h.k == KLin {
		first = h.a[0]
		lead = h.co[0]
	} else {
		first, lead = h, 1
	}
	_ = first
	neg := false
	if lead < 0 {
		neg = true
		for t := range m {
			m[t] = -m[t]
		}
		h = mkLin(0, m)
		// -h' >= k  <=>  h' <= -k  <=>  not (h' >= -k+1)
		k = -k + 1
	}
	var g int64
	for _, co := range m {
		g = gcd(g, co)
	}
	if g > 1 {
		for t := range m {
			m[t] /= g
		}
		h = mkLin(0, m)
		k = ceilDiv(k, g)
	}
	b := geAtom(h, k)
	if neg {
		return C.not(b)
	}
	return b
}

func geAtom(h *Term, k int64) B {
	allNonneg, allNonpos := true, true
	_, m := linParts(h)
	for t, co := range m {
		if !isNonneg(t) {
			allNonneg, allNonpos = false, false
		} else if co > 0 {
			allNonpos = false
		} else {
			allNonneg = false
		}
	}
	if allNonneg && k <= 0 {
		return True
	}
	if allNonpos && k > 0 {
		return False
	}
	// a text is empty exactly when it has no characters
	if k == 1 && h.k == KApp && h.s == "len" && h.a[0].k == KApp && h.a[0].s == "runes" {
		return geAtom(mkLenRaw(h.a[0].a[0]), 1)
	}
	// splitting by a non-empty separator gives at least one part
	if h.k == KApp && h.s == "len" && h.a[0].k == KApp && h.a[0].s == "split" && k <= 1 {
		return True
	}
	if h.k == KApp && h.s == "len" && h.a[0].k == KApp && h.a[0].s == "fmtb" && k <= 1 {
		return True
	}
	if h.k == KApp && h.s == "bitat" {
		if k <= 0 {
			return True
		}
		if k >= 2 {
			return False
		}
	}
	key := fmt.Sprintf("ge%d:%d", h.id, k)
	if v, ok := C.atomKey[key]; ok {
		return C.bdd.atom(v)
	}
	v := newAtom(key, &atom{kind: "ge", t: h, k: k})
	b := C.bdd.atom(v)
	ks := C.ges[h]
	C.ges[h] = append(ks, k)
	return b
}

func cmpGE(a, b *Term) B { // a >= b
	return liftB(sub(a, b), geZero)
}
func cmpLT(a, b *Term) B { return C.not(cmpGE(a, b)) }
func cmpEQint(a, b *Term) B {
	return liftB(sub(a, b), func(d *Term) B {
		// the n-th successors are equal when the nodes they follow are
		if c, m := linParts(d); c == 0 && len(m) == 2 {
			var x, y *Term
			for t, co := range m {
				switch co {
				case 1:
					x = t
				case -1:
					y = t
				}
			}
			if x != nil && y != nil && (x.k == KNext || y.k == KNext) {
				p, i := baseOff(x)
				q, j := baseOff(y)
				if p == q {
					if i == j {
						return True
					}
				} else {
					if p.id < q.id {
						p, i, q, j = q, j, p, i
					}
					d = sub(p, mkNext(q, j-i))
				}
			}
		}
		return C.and(geZero(d), C.not(geZero(addc(d, -1))))
	})
}

func lenGE(seq *Term, k int64) B { return cmpGE(seqLen(seq), mkInt(k)) }

// ---- applications

func mkAppRaw(name string, n int64, args ...*Term) *Term {
	return mkRaw(Term{k: KApp, s: name, n: n, a: args})
}

// mkApp builds an uninterpreted application, lifting gates out of scalar
// arguments.
func mkApp(name string, n int64, args ...*Term) *Term {
	for i, a := range args {
		if a.k == KGate {
			return lift(a, func(l *Term) *Term {
				na := append([]*Term{}, args...)
				na[i] = l
				return mkApp(name, n, na...)
			})
		}
	}
	return mkAppRaw(name, n, args...)
}

func mkLenRaw(x *Term) *Term { return mkAppRaw("len", 0, x) }

func mkNext(b *Term, k int64) *Term {
	if k == 0 {
		return b
	}
	return lift(b, func(b *Term) *Term {
		n := k
		if b.k == KNext {
			n += b.n
			b = b.a[0]
		}
		if n == 0 {
			return b
		}
		return mkRaw(Term{k: KNext, n: n, a: []*Term{b}})
	})
}

// base gives the node a plain node term is an offset of.
func baseOff(t *Term) (*Term, int64) {
	if t.k == KNext {
		return t.a[0], t.n
	}
	return t, 0
}

func isConstLen(t *Term) (int64, bool) {
	l := seqLen(t)
	if l.k == KInt {
		return l.n, true
	}
	return 0, false
}

func seqLen(t *Term) *Term {
	switch t.k {
	case KNil:
		return mkInt(0)
	case KArray:
		return mkInt(int64(len(t.a)))
	case KStr:
		return mkInt(int64(len(t.s)))
	case KText:
		r := mkInt(0)
		for _, p := range t.a {
			r = add(r, seqLen(p))
		}
		return r
	case KGate:
		return lift(t, seqLen)
	case KMu:
		if l, ok := C.muLen[t]; ok {
			return l
		}
	case KApp:
		switch t.s {
		case "concat":
			r := mkInt(0)
			for _, p := range t.a {
				r = add(r, seqLen(p))
			}
			return r
		case "map":
			return t.a[0]
		case "rev":
			return seqLen(t.a[0])
		case "sub":
			return t.a[2]
		case "fill":
			return t.a[1]
		case "store":
			return seqLen(t.a[0])
		case "runes", "bytes":
			if y := t.a[0]; y.k == KApp && y.s == "fmtb" {
				return seqLen(y)
			}
			if t.s == "bytes" {
				return seqLen(t.a[0])
			}
		case "joinmap":
			for _, atEnd := range []bool{true, false} {
				if j, sep := asJoin(t, atEnd); j != nil && someTurns(t.a[0]) {
					return add(seqLen(j), seqLen(sep))
				}
			}
		}
	}
	return mkLenRaw(t)
}

func seqIdx(x, i *Term) *Term {
	if x.k == KGate || i.k == KGate {
		return lift2(x, i, seqIdx)
	}
	switch x.k {
	case KArray:
		if i.k == KInt && i.n >= 0 && i.n < int64(len(x.a)) {
			return x.a[i.n]
		}
	case KStr:
		if i.k == KInt && i.n >= 0 && i.n < int64(len(x.s)) {
			return mkInt(int64(x.s[i.n]))
		}
	case KApp:
		if x.s == "fmtb" {
			return add(mkInt('0'), mkAppRaw("bitat", 0, x.a[0], i))
		}
		switch x.s {
		case "runes", "bytes":
			if y := x.a[0]; y.k == KApp && y.s == "fmtb" {
				return add(mkInt('0'), mkAppRaw("bitat", 0, y.a[0], i))
			}
		case "map":
			return subst1(x.a[1], mkBound(int(x.n)), i)
		case "filter":
			// an element that passed: the value of some turn
			if p := x.a[1]; p.k == KTuple && p.a[1].k == KArray && len(p.a[1].a) == 1 {
				if v := p.a[1].a[0]; v.k == KIface || v.k == KStruct {
					return subst1(v, mkBound(int(x.n)), mkAppRaw("pick", 0, x, i))
				}
			}
		case "rev":
			return seqIdx(x.a[0], sub(addc(seqLen(x.a[0]), -1), i))
		case "sub":
			return seqIdx(x.a[0], add(x.a[1], i))
		case "fill":
			return x.a[0]
		case "store":
			e := cmpEQint(i, x.a[1])
			return ite(e, x.a[2], seqIdx(x.a[0], i))
		case "concat":
			// all but the last, and the last
			if len(x.a) == 2 && i.k == KIter && x.a[0].k == KApp && x.a[0].s == "map" && x.a[1].k == KArray && len(x.a[1].a) == 1 {
				m, last := x.a[0], x.a[1].a[0]
				if v := leaves(last)[0].t; v.k == KIface || v.k == KStruct || v.k == KNil {
					if e := seqIdx(m, i); seqIdx(m, seqLen(m)) == last {
						return e
					} else {
						return ite(cmpLT(i, seqLen(m)), e, last)
					}
				}
			}
			// find the part when the lengths in front are constant
			if i.k == KInt {
				n := i.n
				for _, p := range x.a {
					l, ok := isConstLen(p)
					if !ok {
						if p.k == KArray || n < 0 {
							break
						}
						return mkAppRaw("idx", 0, x, i)
					}
					if n < l {
						return seqIdx(p, mkInt(n))
					}
					n -= l
				}
			} else if len(x.a) > 0 {
				// index counted from the end
				d := sub(seqLen(x), i)
				if d.k == KInt && d.n > 0 {
					n := d.n
					for k := len(x.a) - 1; k >= 0; k-- {
						l, ok := isConstLen(x.a[k])
						if !ok {
							break
						}
						if n <= l {
							return seqIdx(x.a[k], mkInt(l-n))
						}
						n -= l
					}
				}
			}
		}
	}
	return mkAppRaw("idx", 0, x, i)
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		switch {
		case p.k == KNil:
			return
		case p.k == KArray && len(p.a) == 0:
			return
		case p.k == KApp && p.s == "concat":
			for _, q := range p.a {
				push(q)
			}
			return
		case p.k == KApp && p.s == "fill" && p.a[1] == mkInt(0):
			return
		}
		if n := len(out); n > 0 && out[n-1].k == KArray && p.k == KArray {
			out[n-1] = mkArray(append(append([]*Term{}, out[n-1].a...), p.a...))
			return
		}
		out = append(out, p)
	}
	for i, p := range parts {
		if p.k == KGate {
			return lift(p, func(l *Term) *Term {
				np := append([]*Term{}, parts...)
				np[i] = l
				return mkConcat(np...)
			})
		}
		push(p)
	}
	if len(out) == 0 {
		return mkArray(nil)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkAppRaw("concat", 0, out...)
}

func mkSub(x, off, n *Term) *Term {
	if x.k == KGate || off.k == KGate {
		return lift2(x, off, func(x, off *Term) *Term { return mkSub(x, off, n) })
	}
	if n.k == KGate {
		return lift(n, func(n *Term) *Term { return mkSub(x, off, n) })
	}
	if off.k == KInt && off.n == 0 && n == seqLen(x) {
		return x
	}
	if x.k == KNil {
		return x
	}
	if x.k == KArray && off.k == KInt && n.k == KInt && off.n >= 0 && n.n >= 0 && off.n+n.n <= int64(len(x.a)) {
		return mkArray(x.a[off.n : off.n+n.n])
	}
	if n.k == KInt && n.n == 0 {
		return mkArray(nil)
	}
	if x.k == KApp && x.s == "sub" {
		return mkSub(x.a[0], add(x.a[1], off), n)
	}
	return mkAppRaw("sub", 0, x, off, n)
}

func mkStore(x, i, v *Term) *Term {
	if x.k == KGate || i.k == KGate {
		return lift2(x, i, func(x, i *Term) *Term { return mkStore(x, i, v) })
	}
	if i.k == KInt && i.n >= 0 {
		if x.k == KApp && x.s == "fill" && x.a[1].k == KInt && x.a[1].n <= 64 {
			e := make([]*Term, x.a[1].n)
			for j := range e {
				e[j] = x.a[0]
			}
			x = mkArray(e)
		}
		if x.k == KArray && i.n < int64(len(x.a)) {
			e := append([]*Term{}, x.a...)
			e[i.n] = v
			return mkArray(e)
		}
	}
	if x.k == KApp && x.s == "store" && x.a[1] == i {
		x = x.a[0]
	}
	return mkAppRaw("store", 0, x, i, v)
}

func mkRev(x *Term) *Term {
	return lift(x, func(x *Term) *Term {
		if x.k == KApp && x.s == "rev" {
			return x.a[0]
		}
		if x.k == KArray {
			e := make([]*Term, len(x.a))
			for i := range e {
				e[i] = x.a[len(e)-1-i]
			}
			return mkArray(e)
		}
		return mkAppRaw("rev", 0, x)
	})
}

func boundDepth(t *Term) int {
	d := 0
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KSym && t.s == "β" && int(t.n) > d {
			d = int(t.n)
		}
		for _, a := range t.a {
			rec(a)
		}
		for _, g := range append(append([]B{}, t.g...), t.b) {
			sup := map[int32]bool{}
			C.support(g, sup)
			for v := range sup {
				if a := C.atoms[v]; a.t != nil {
					rec(a.t)
				}
			}
		}
	}
	rec(t)
	return d
}

// mkMap is the sequence of n values body(0), body(1), ...; body is given
// with the iteration count it (of the loop that builds it).
func mkMap(n *Term, body *Term, it *Term) *Term {
	d := boundDepth(body) + 1
	bv := mkBound(d)
	b := subst1(body, it, bv)
	if l := mapSimplify(n, b, bv); l != nil {
		return l
	}
	return mkAppRaw("map", int64(d), n, b)
}

func mapSimplify(n, b, bv *Term) *Term {
	if b.k == KBool {
		// a sequence of booleans copied from another one
		for v := range suppOf(b.b) {
			if a := C.atoms[v]; a.kind == "term" && b.b == C.bdd.atom(v) {
				b = a.t
			}
		}
	}
	if b.k == KApp && b.s == "idx" {
		x, i := b.a[0], b.a[1]
		if !contains(x, bv) {
			off := sub(i, bv)
			if !contains(off, bv) {
				return mkSub(x, off, n)
			}
			off = add(i, bv) // x[off-β]
			if !contains(off, bv) {
				// x[off], x[off-1], ..., x[off-n+1]
				return mkRev(mkSub(x, addc(sub(off, n), 1), n))
			}
		}
	}
	return nil
}

func suppOf(b B) map[int32]bool {
	m := map[int32]bool{}
	C.support(b, m)
	return m
}

func mkText(parts ...*Term) *Term {
	var out []*Term
	for i, p := range parts {
		if p.k == KGate {
			return lift(p, func(l *Term) *Term {
				np := append([]*Term{}, parts...)
				np[i] = l
				return mkText(np...)
			})
		}
		ps := []*Term{p}
		if p.k == KText {
			ps = p.a
		}
		for _, q := range ps {
			if q.k == KStr && q.s == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == KStr && q.k == KStr {
				out[n-1] = mkStr(out[n-1].s + q.s)
				continue
			}
			out = append(out, q)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkRaw(Term{k: KText, a: out})
}

func mkRunes(s *Term) *Term {
	return lift(s, func(s *Term) *Term {
		if s.k == KStr {
			var e []*Term
			for _, r := range s.s {
				e = append(e, mkInt(int64(r)))
			}
			return mkArray(e)
		}
		if s.k == KApp && s.s == "string" {
			return s.a[0]
		}
		return mkAppRaw("runes", 0, s)
	})
}

func mkString(seq *Term) *Term {
	return lift(seq, func(q *Term) *Term {
		if q.k == KApp && q.s == "runes" {
			return q.a[0]
		}
		if q.k == KArray {
			s := ""
			for _, e := range q.a {
				if e.k != KInt {
					return mkAppRaw("string", 0, q)
				}
				s += string(rune(e.n))
			}
			return mkStr(s)
		}
		return mkAppRaw("string", 0, q)
	})
}

func mkEq(a, b *Term) B {
	if a == b {
		return True
	}
	if a.k == KGate || b.k == KGate {
		r := False
		for _, x := range leaves(a) {
			for _, y := range leaves(b) {
				g := C.and(x.g, y.g)
				if g != False {
					r = C.or(r, C.and(g, mkEq(x.t, y.t)))
				}
			}
		}
		return r
	}
	if a.k == KBool || b.k == KBool {
		x, y := asBool(a), asBool(b)
		return C.ite(x, y, C.not(y))
	}
	if a.k == KNil || b.k == KNil {
		o := a
		if a.k == KNil {
			o = b
		}
		switch o.k {
		case KNil:
			return True
		case KErr, KIface, KPtr, KFunc, KStruct:
			return False
		case KSlice, KArray:
			return False
		case KApp:
			if o.s == "map0" || o.s == "mapset" {
				return False
			}
		case KSym:
			return False
		}
		return termAtom(mkAppRaw("isnil", 0, o))
	}
	if a.k == KStr && b.k == KStr {
		return False
	}
	if a.k == KStr && a.s == "" {
		return C.not(lenGE(b, 1))
	}
	if b.k == KStr && b.s == "" {
		return C.not(lenGE(a, 1))
	}
	if a.k == KStruct && b.k == KStruct && len(a.a) == len(b.a) {
		r := True
		for i := range a.a {
			r = C.and(r, mkEq(a.a[i], b.a[i]))
		}
		return r
	}
	if a.k == KIface && b.k == KIface {
		if !types.Identical(a.t, b.t) {
			return False
		}
		return mkEq(a.a[0], b.a[0])
	}
	if a.k == KPtr && b.k == KPtr {
		if a.n != b.n {
			return False
		}
	}
	if a.k == KErr && b.k == KErr {
		return sameErr(a, b)
	}
	if a.k == KErr || b.k == KErr {
		return termAtom(mkUnknown("comparison of errors"))
	}
	if isIntish(a) && isIntish(b) {
		return cmpEQint(a, b)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return termAtom(mkAppRaw("eq", 0, a, b))
}

func isIntish(t *Term) bool {
	switch t.k {
	case KInt, KLin, KIter:
		return true
	case KStr, KText:
		return false
	}
	return !isStringTerm(t)
}

func isStringTerm(t *Term) bool {
	switch t.k {
	case KStr, KText:
		return true
	case KSym, KMu:
		if ty, ok := C.symType[t]; ok {
			b, ok := ty.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		}
	case KApp:
		switch t.s {
		case "string", "join", "fmtb", "sprintf", "value:word", "value:phrase", "detail.object", "detail.property", "itoa", "joinmap":
			return true
		case "idx":
			switch {
			case t.a[0].k == KApp && t.a[0].s == "split":
				return true
			}
		}
		if ty, ok := C.symType[t]; ok {
			b, ok := ty.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		}
	}
	return false
}

// ---- substitution

func contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.a {
			if rec(a) {
				return true
			}
		}
		if t.k == KGate || t.k == KBool {
			for _, g := range append(append([]B{}, t.g...), t.b) {
				for v := range suppOf(g) {
					if a := C.atoms[v]; a.t != nil && rec(a.t) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(t)
}

func guardMentions(g B, x *Term) bool {
	for v := range suppOf(g) {
		if a := C.atoms[v]; a.t != nil && contains(a.t, x) {
			return true
		}
	}
	return false
}

func subst1(t, from, to *Term) *Term {
	return substT(t, map[*Term]*Term{from: to})
}

type substituter struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	atom map[int32]B
}

func newSubst(m map[*Term]*Term) *substituter {
	return &substituter{m: m, memo: map[*Term]*Term{}, atom: map[int32]B{}}
}

func substT(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return newSubst(m).term(t)
}

func substB(b B, m map[*Term]*Term) B {
	if len(m) == 0 {
		return b
	}
	return newSubst(m).bool(b)
}

func (s *substituter) bool(b B) B {
	return C.subst(b, func(v int32) B {
		if r, ok := s.atom[v]; ok {
			return r
		}
		a := C.atoms[v]
		r := C.bdd.atom(v)
		switch a.kind {
		case "term":
			if nt := s.term(a.t); nt != a.t {
				if a.t.k == KApp && a.t.s == "eq" && nt.k == KApp && nt.s == "eq" {
					r = termAtom(nt)
				} else {
					r = asBool(nt)
				}
			}
		case "ge":
			if nt := s.term(a.t); nt != a.t {
				r = cmpGE(nt, mkInt(a.k))
			}
		}
		s.atom[v] = r
		return r
	})
}

func (s *substituter) term(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.a) == 0 && t.k != KBool {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	switch t.k {
	case KBool:
		r = mkBool(s.bool(t.b))
	case KGate:
		ls := make([]leaf, len(t.a))
		for i, a := range t.a {
			ls[i] = leaf{s.bool(t.g[i]), s.term(a)}
		}
		r = gateFlat(ls)
	default:
		args := make([]*Term, len(t.a))
		ch := false
		for i, a := range t.a {
			args[i] = s.term(a)
			ch = ch || args[i] != a
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	s.memo[t] = r
	return r
}

func gateFlat(in []leaf) *Term {
	var ls []leaf
	for _, l := range in {
		if l.t.k == KGate {
			for _, x := range leaves(l.t) {
				ls = append(ls, leaf{C.and(l.g, x.g), x.t})
			}
		} else {
			ls = append(ls, l)
		}
	}
	return gateOf(ls)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.k {
	case KLin:
		r := mkInt(t.n)
		for i, x := range a {
			r = addMul(r, x, t.co[i])
		}
		return r
	case KNext:
		return mkNext(a[0], t.n)
	case KText:
		return mkText(a...)
	case KApp:
		switch t.s {
		case "len":
			return seqLen(a[0])
		case "idx":
			return seqIdx(a[0], a[1])
		case "sub":
			return mkSub(a[0], a[1], a[2])
		case "rev":
			return mkRev(a[0])
		case "concat":
			return mkConcat(a...)
		case "store":
			return mkStore(a[0], a[1], a[2])
		case "runes":
			return mkRunes(a[0])
		case "string":
			return mkString(a[0])
		case "eq":
			return mkBool(mkEq(a[0], a[1]))
		case "isnil":
			return mkBool(mkEq(a[0], mkNil()))
		case "field":
			return selectField(a[0], int(t.n))
		case "map":
			bv := mkBound(int(t.n))
			if l := mapSimplify(a[0], a[1], bv); l != nil {
				return l
			}
			return mkAppRaw("map", t.n, a...)
		}
		if strings.HasPrefix(t.s, "value:") {
			return mkValue(t.s[6:], a[0])
		}
		r := mkApp(t.s, t.n, a...)
		if ty, ok := C.symType[t]; ok && r.k == KApp {
			C.symType[r] = ty
		}
		return r
	}
	return rebuildLike(t, a)
}

func selectField(x *Term, i int) *Term {
	return lift(x, func(x *Term) *Term {
		if x.k == KStruct {
			return x.a[i]
		}
		return mkAppRaw("field", int64(i), x)
	})
}

// gather all subterms (through gates and atoms) satisfying p.
func collect(t *Term, p func(*Term) bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if p(t) {
			out = append(out, t)
		}
		for _, a := range t.a {
			rec(a)
		}
		if t.k == KGate || t.k == KBool {
			for _, g := range append(append([]B{}, t.g...), t.b) {
				for v := range suppOf(g) {
					if a := C.atoms[v]; a.t != nil {
						rec(a.t)
					}
				}
			}
		}
	}
	rec(t)
	return out
}

// ---- printing

func (t *Term) String() string { return show(t, 0) }

func showType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func show(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 14 {
		return "…"
	}
	list := func(a []*Term) string {
		s := make([]string, len(a))
		for i := range a {
			s[i] = show(a[i], d+1)
		}
		return strings.Join(s, ", ")
	}
	switch t.k {
	case KInt:
		return strconv.FormatInt(t.n, 10)
	case KStr:
		return strconv.Quote(t.s)
	case KBool:
		return showB(t.b)
	case KNil:
		return "nil"
	case KErr:
		if t.s != "" {
			return "error(" + t.s + ")"
		}
		return "error"
	case KSym:
		if t.n != 0 {
			return fmt.Sprintf("%s%d", t.s, t.n)
		}
		return t.s
	case KMu:
		return fmt.Sprintf("μ%d.%s", t.loop.id, t.s)
	case KIter:
		return fmt.Sprintf("κ%d", t.loop.id)
	case KApp:
		n := ""
		if t.n != 0 {
			n = fmt.Sprintf("#%d", t.n)
		}
		return t.s + n + "(" + list(t.a) + ")"
	case KStruct:
		return showType(t.t) + "{" + list(t.a) + "}"
	case KArray:
		return "[" + list(t.a) + "]"
	case KIface:
		return "‹" + show(t.a[0], d+1) + "›"
	case KTuple:
		return "(" + list(t.a) + ")"
	case KPtr:
		if len(t.a) > 0 {
			return fmt.Sprintf("&o%d[%s]", t.n, list(t.a))
		}
		return fmt.Sprintf("&o%d", t.n)
	case KFunc:
		return "func " + t.fn.String()
	case KGate:
		s := make([]string, len(t.a))
		for i := range t.a {
			s[i] = showB(t.g[i]) + ": " + show(t.a[i], d+1)
		}
		return "{" + strings.Join(s, " ; ") + "}"
	case KLin:
		var s []string
		for i, a := range t.a {
			if t.co[i] == 1 {
				s = append(s, show(a, d+1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", t.co[i], show(a, d+1)))
			}
		}
		if t.n != 0 {
			s = append(s, strconv.FormatInt(t.n, 10))
		}
		return strings.Join(s, "+")
	case KNext:
		return fmt.Sprintf("%s%+d", show(t.a[0], d+1), t.n)
	case KSlice:
		return fmt.Sprintf("slice(o%d,%s)", t.n, list(t.a))
	case KText:
		return strings.Join(strings.Split(list(t.a), ", "), "·")
	case KField:
		return fmt.Sprintf(".%d", t.n)
	}
	return "?"
}

func showAtom(v int32) string {
	a := C.atoms[v]
	switch a.kind {
	case "ok":
		return a.name
	case "ge":
		return fmt.Sprintf("%s≥%d", show(a.t, 4), a.k)
	}
	return show(a.t, 4)
}

func showB(b B) string {
	if b == True {
		return "true"
	}
	if b == False {
		return "false"
	}
	// sum of at most a few cubes
	var cubes []string
	var rec func(b B, pre []string)
	rec = func(b B, pre []string) {
		if len(cubes) > 3 {
			return
		}
		if b == False {
			return
		}
		if b == True {
			cubes = append(cubes, strings.Join(pre, "∧"))
			return
		}
		n := C.nodes[b]
		rec(n.hi, append(append([]string{}, pre...), showAtom(n.v)))
		rec(n.lo, append(append([]string{}, pre...), "¬"+showAtom(n.v)))
	}
	rec(b, nil)
	if len(cubes) > 3 {
		cubes = append(cubes[:3], "…")
	}
	return strings.Join(cubes, " ∨ ")
}
