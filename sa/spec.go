package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Status of one obligation.
type Status int

const (
	Held Status = iota
	Undecided
	Violated
)

func (s Status) String() string { return []string{"held", "undecided", "violated"}[s] }

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	Props  []string
	Rule   string
	Root   string
	What   string
	Status Status
	Pos    token.Pos
	Fn     string
	Why    string
	Key    string
}

type Spec struct {
	w      *World
	e      *Eng
	obs    []*Ob
	made   map[*Root][]*Made
	isLost map[*Root]bool
	folT   map[Role]bool
	folS   map[Role]bool
}

// Made is an entity an operation creates.
type Made struct {
	base  *Term
	cls   int
	guard B // class registration succeeded
	loops []*Loop
	ev    *Event
}

func (s *Spec) pos(p token.Pos) string {
	q := s.e.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/internal/concrete/"); i >= 0 {
		f = f[i+1:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (s *Spec) ob(props, rule string, r *Root, st Status, pos token.Pos, fn, what, why string) {
	o := &Ob{Props: strings.Fields(props), Rule: rule, Status: st, Pos: pos, Fn: fn, What: what}
	if r != nil {
		o.Root = r.name
		if o.Fn == "" && r.fn != nil {
			o.Fn = shortFn(r.fn)
		}
		if pos == token.NoPos && r.fn != nil {
			o.Pos = r.fn.Pos()
		}
	}
	if st == Violated && r != nil && rule != "creates" && soft(o.Props) && s.lost(r) {
		o.Status = Undecided
	}
	if st != Held {
		o.Why = why
	}
	s.obs = append(s.obs, o)
}

// soft: what the property asks for is held against the summary of a whole
// operation, not against single calls.
func soft(props []string) bool {
	for _, p := range props {
		switch p {
		case "C01", "C02", "C12", "C13", "C14", "C15", "C16", "C19":
			return true
		}
	}
	return false
}

// lost: part of the operation is beyond what the summaries can express: a
// construct that is not analysed, or a list or text put together by a loop
// whose number of turns is not known and that follows no links.
func (s *Spec) lost(r *Root) bool {
	if v, ok := s.isLost[r]; ok {
		return v
	}
	v := s.undecidedIn(r)
	for _, L := range r.loops {
		made, walks := false, false
		for m, i := range L.mus {
			switch {
			case looksSeq(i.init) || isStringTerm(m):
				made = true
			case s.e.role(m).valid():
				walks = true
			case s.counts(r, L, m, i):
				v = true
			}
		}
		if L.n == nil && made && !walks {
			v = true
		}
	}
	s.isLost[r] = v
	return v
}

// counts: a number or flag that a loop changes under a condition; the folding
// of bits into a number is known.
func (s *Spec) counts(r *Root, L *Loop, m *Term, i *muInfo) bool {
	switch i.init.k {
	case KInt, KBool:
	default:
		return false
	}
	if i.next.k != KGate || L.n == nil {
		return true
	}
	two := mulc(m, 2)
	for _, l := range i.next.a {
		if l != two && l != addc(two, 1) {
			return true
		}
	}
	return false
}

func (s *Spec) evOb(props, rule string, r *Root, ev *Event, st Status, what, why string) {
	fn := ""
	if ev.fn != nil {
		fn = shortFn(ev.fn)
	}
	s.ob(props, rule, r, st, ev.pos, fn, what, why)
}

// ---- unknowns

func hasUnknown(t *Term) bool { return t == nil || len(collect(t, isUnknown)) > 0 }

func hasUnknownB(b B) bool {
	for v := range suppOf(b) {
		a := C.atoms[v]
		if a.t != nil && hasUnknown(a.t) {
			return true
		}
	}
	return false
}

// holds turns "g entails c" into a status.
func holds(g, c B) Status {
	if entails(g, c) {
		return Held
	}
	if hasUnknownB(g) || hasUnknownB(c) {
		return Undecided
	}
	return Violated
}

// allOk assumes that every call succeeded.
func allOk(b B) B {
	for v := range suppOf(b) {
		if C.atoms[v].kind == "ok" {
			b = C.cofactor(b, v, true)
		}
	}
	return b
}

func (s *Spec) undecidedIn(r *Root) bool {
	for _, i := range r.issues {
		if i.rule == "undecided" {
			return true
		}
	}
	return false
}

// miss is the status of something expected that was not found.
func (s *Spec) miss(r *Root, terms ...*Term) Status {
	for _, t := range terms {
		if hasUnknown(t) {
			return Undecided
		}
	}
	if s.undecidedIn(r) {
		return Undecided
	}
	return Violated
}

// ---- entities created by an operation

func (s *Spec) madeBy(r *Root) []*Made {
	if m, ok := s.made[r]; ok {
		return m
	}
	var out []*Made
	for _, ev := range r.log {
		if ev.kind != "Connect" {
			continue
		}
		c := ev.args[1]
		if c.k != KInt || c.n < 1 || c.n > 8 {
			continue
		}
		for _, l := range leaves(ev.args[0]) {
			if _, ok := s.e.newSyms[l.t]; ok {
				out = append(out, &Made{base: l.t, cls: int(c.n), guard: C.and(ev.guard, ev.ok), loops: ev.loops, ev: ev})
			}
		}
	}
	s.made[r] = out
	return out
}

func (s *Spec) madeOf(r *Root, base *Term) *Made {
	for _, m := range s.madeBy(r) {
		if m.base == base {
			return m
		}
	}
	return nil
}

// done is the condition under which an event of the kind with the arguments
// happened and succeeded.
func (s *Spec) done(r *Root, kind string, args ...*Term) B {
	d := False
	for _, ev := range r.log {
		if ev.kind != kind || len(ev.args) != len(args) {
			continue
		}
		g := C.and(ev.guard, ev.ok)
		for i := range args {
			g = C.and(g, sameTerm(ev.args[i], args[i]))
		}
		d = C.or(d, g)
	}
	return d
}

// sameTerm is the condition under which two node terms are the same term.
func sameTerm(a, b *Term) B {
	if a == b {
		return True
	}
	r := False
	for _, x := range leaves(a) {
		for _, y := range leaves(b) {
			if x.t == y.t {
				r = C.or(r, C.and(x.g, y.g))
			}
		}
	}
	return r
}

// equal compares a result with what is expected, component by component.
func equal(got, want *Term) B {
	if got == want {
		return True
	}
	if got.k == KGate || want.k == KGate {
		r := False
		for _, x := range leaves(got) {
			for _, y := range leaves(want) {
				if g := C.and(x.g, y.g); g != False {
					r = C.or(r, C.and(g, equal(x.t, y.t)))
				}
			}
		}
		return r
	}
	if got.k == want.k && (got.k == KTuple || got.k == KStruct) && len(got.a) == len(want.a) {
		r := True
		for i := range got.a {
			r = C.and(r, equal(got.a[i], want.a[i]))
		}
		return r
	}
	if got.k == KIface && want.k == KIface {
		if !types.Identical(got.t, want.t) {
			return False
		}
		return equal(got.a[0], want.a[0])
	}
	if got.k == KBool || want.k == KBool {
		x, y := asBool(got), asBool(want)
		return C.ite(x, y, C.not(y))
	}
	if got.k == KNil || want.k == KNil || got.k == KPtr || want.k == KPtr {
		return False
	}
	return mkEq(got, want)
}

// expect: under g, got is want.
func (s *Spec) expect(props, rule string, r *Root, g B, got, want *Term, what string) bool {
	st := Held
	why := ""
	if got == nil {
		st = s.miss(r)
		why = "no result"
	} else if got != want {
		c := equal(prune(got, g), want)
		st = holds(g, c)
		if st == Violated && hasUnknown(prune(got, g)) {
			st = Undecided
		}
		why = fmt.Sprintf("got %s, expected %s", prune(got, g), want)
	}
	s.ob(props, rule, r, st, token.NoPos, "", what, why)
	return st == Held
}

func (s *Spec) must(props, rule string, r *Root, g, c B, what string) bool {
	st := holds(g, c)
	why := ""
	if st != Held {
		why = "not when " + showB(C.and(g, C.not(c)))
		if st == Violated && s.undecidedIn(r) {
			st = Undecided
		}
	}
	s.ob(props, rule, r, st, token.NoPos, "", what, why)
	return st == Held
}

// ---- node terms

func tOf(n *Term) *Term         { return mkAppRaw("T", 0, n) }
func sOf(n *Term) *Term         { return mkAppRaw("S", 0, n) }
func first(x *Term) *Term       { return seqIdx(x, mkInt(0)) }
func nx(n *Term, k int64) *Term { return mkNext(n, k) }
func single(x *Term) B          { return C.and(lenGE(x, 1), C.not(lenGE(x, 2))) }
func anyOf(bs ...B) B {
	r := False
	for _, b := range bs {
		r = C.or(r, b)
	}
	return r
}
func allOf(bs ...B) B {
	r := True
	for _, b := range bs {
		r = C.and(r, b)
	}
	return r
}

// baseOf is the node all identifiers of a result agree on.
func (s *Spec) baseOf(t *Term, st *State, cls int) *Term {
	out := map[*Term]bool{}
	if t == nil {
		return nil
	}
	s.e.nodesOf(t, nil, st, cls, out)
	if len(out) != 1 {
		return nil
	}
	for b := range out {
		return b
	}
	return nil
}

func root(s *Spec, n string) *Root {
	r := s.w.roots[n]
	if r == nil || r.missing != "" || r.st == nil {
		return nil
	}
	return r
}

// ---- results

func (s *Spec) sorted() []*Ob {
	out := append([]*Ob{}, s.obs...)
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Status != b.Status {
			return a.Status > b.Status
		}
		return a.Root < b.Root
	})
	return out
}
