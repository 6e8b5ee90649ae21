package main

import (
	"fmt"
	"strings"
)

// What each layer has to do, stated on the terms the analysis finds.

type partSpec struct {
	cls   int
	layer string
	seq   *Term // the parts of the stored text
	lower string
	hi    int64 // node of a part that points to the entities starting with it
}

func (s *Spec) partsOf(c int, r *Root) *partSpec {
	x := r.args[1]
	switch c {
	case 2:
		return &partSpec{c, "character", mkFmtb(x), "bit", 1}
	case 3:
		return &partSpec{c, "word", mkRunes(x), "character", 3}
	case 4:
		return &partSpec{c, "phrase", mkAppRaw("split", 0, x, mkStr(" ")), "word", 3}
	}
	return nil
}

// id of the i-th part, and the condition that an entity has its value.
func (p *partSpec) id(i *Term) *Term {
	v := seqIdx(p.seq, i)
	if p.lower == "bit" {
		v = mkBool(cmpEQint(v, mkInt('1')))
	}
	return mkId(p.lower, v)
}

func (p *partSpec) eq(i, base *Term) B {
	v := seqIdx(p.seq, i)
	w := mkValue(p.lower, base)
	if p.lower == "bit" {
		x, y := cmpEQint(v, mkInt('1')), asBool(w)
		return C.ite(x, y, C.not(y))
	}
	return mkEq(v, w)
}

func loopIn(L *Loop, r *Root) []*Loop {
	var out []*Loop
	for _, x := range r.loops {
		for _, p := range x.parent {
			if p == L {
				out = append(out, x)
			}
		}
	}
	return out
}

// linkSpec is a link an operation has to make.
type linkSpec struct {
	a, b *Term
	g    B
	loop *Loop
}

// links checks the links an operation makes against those it has to make.
func (s *Spec) links(props string, r *Root, want []linkSpec) {
	for _, ev := range r.log {
		if ev.kind != "Connect" || !feasible(ev.guard) {
			continue
		}
		if c := ev.args[1]; c.k == KInt && c.n >= 1 && c.n <= 8 {
			continue
		}
		ok := False
		for _, w := range want {
			ok = C.or(ok, C.and(sameTerm(ev.args[0], w.a), sameTerm(ev.args[1], w.b)))
		}
		st := Held
		if !entails(ev.guard, ok) {
			st = Violated
			if hasUnknown(ev.args[0]) || hasUnknown(ev.args[1]) {
				st = Undecided
			}
		}
		s.evOb(s.alsoFor(props, ev.args[0], ev.args[1]), "link-expected", r, ev, st, evText(ev), "a link that should not be made")
	}
	for _, w := range want {
		d := s.done(r, "Connect", w.a, w.b)
		st, why := Held, ""
		if !entails(w.g, d) {
			if rest := C.and(w.g, C.not(d)); entails(rest, already(rest, w.a, w.b)) {
				d = w.g
			}
		}
		if !entails(w.g, d) {
			st = s.miss(r, w.a, w.b)
			why = "not made when " + showB(C.and(w.g, C.not(d)))
			for _, ev := range r.log {
				if ev.kind == "Connect" && (hasUnknown(ev.args[0]) || hasUnknown(ev.args[1])) {
					st = Undecided
				}
			}
		}
		s.ob(s.alsoFor(props, w.a, w.b), "link-made", r, st, 0, "", fmt.Sprintf("link %s -> %s", w.a, w.b), why)
	}
}

// what a kind of link is for, whoever makes it
var linkFor = map[[2]Role]string{
	{{5, 2}, {6, 1}}: "C01",                                                                            // the text of a remark
	{{6, 3}, {7, 1}}: "C12", {{7, 1}, {6, 3}}: "C12", {{7, 3}, {8, 1}}: "C12", {{8, 1}, {7, 3}}: "C12", // the way to the first fact
	{{7, 2}, {7, 2}}: "C14", {{8, 2}, {8, 2}}: "C15", {{8, 3}, {8, 3}}: "C15",
}

func (s *Spec) alsoFor(props string, a, b *Term) string {
	if p := linkFor[[2]Role{s.e.role(a), s.e.role(b)}]; p != "" && !strings.Contains(props, p) {
		return props + " " + p
	}
	return props
}

// ---- storing characters, words and phrases

func (s *Spec) provide(c int) {
	r := root(s, layers[c]+".Provide")
	if r == nil {
		return
	}
	p := s.partsOf(c, r)
	const props = "C01 C02"
	base := s.baseOf(prune(r.succ, r.success), r.st, c)
	var cases []leaf
	if base != nil {
		for _, l := range leaves(base) {
			if l.g = C.and(r.success, l.g); feasible(l.g) {
				cases = append(cases, l)
			}
		}
	}
	walked := len(cases) > 0
	for _, l := range cases {
		walked = walked && l.t.k == KMu && l.t.loop.mus[l.t] != nil
	}
	if !walked {
		st := s.miss(r, base)
		for _, l := range cases {
			if b, _ := baseOff(l.t); b.k == KSym && strings.HasSuffix(b.s, remembered) {
				x := r.args[len(r.args)-1]
				if y := mkSym(x.String() + remembered); !entails(l.g, equal(x, y)) && !hasUnknownB(l.g) {
					s.ob(props, "path", r, Violated, 0, "", "the stored path is extended part by part", "what was stored for another value is given")
					return
				}
			}
		}
		if base != nil && len(collect(base, func(t *Term) bool { return t.k == KMu })) > 0 {
			st = Undecided
		}
		if base == nil {
			st = Undecided
		}
		s.ob(props, "path", r, st, 0, "", "the stored path is extended part by part", fmt.Sprintf("result %s", base))
		return
	}
	var want []linkSpec
	for _, l := range cases {
		q := *p
		if len(cases) > 1 {
			q.seq = prune(p.seq, l.g)
		}
		s.providePath(props, r, &q, l.t, l.g, &want)
	}
	s.links(props, r, want)
}

// providePath checks one loop that stores a path.
func (s *Spec) providePath(props string, r *Root, p *partSpec, base *Term, success B, want *[]linkSpec) {
	L := base.loop
	mi := L.mus[base]
	kappa := mkIter(L)
	n := seqLen(p.seq)
	// merged: the first part is handled in the first turn
	merged := !entails(success, cmpGE(kappa, addc(n, -1))) || L.n != nil && L.n == n
	initT, initG := prune(mi.init, L.entry), L.entry
	nextT, nextG := prune(mi.next, L.back), L.back
	idx := addc(kappa, 1)
	cnt := addc(n, -1)
	if merged {
		first := cmpEQint(kappa, mkInt(0))
		initG, nextG = C.and(L.back, first), C.and(L.back, C.not(first))
		initT, nextT = prune(mi.next, initG), prune(mi.next, nextG)
		idx, cnt = kappa, n
	}
	// all parts, once each
	s.must("C01 C19", "all-parts", r, success, cmpGE(kappa, cnt), "every part of the text is stored before the operation succeeds")
	s.must("C01 C05", "no-more-parts", r, nextG, cmpLT(kappa, cnt), "no part beyond the end of the text")
	// first part
	h := mkNext(p.id(mkInt(0)), p.hi)
	X := tOf(h)
	s.startAt(props, r, p, initT, initG, X, h, want, merged)
	// further parts
	s.step(props, r, p, L, base, nextT, nextG, idx, want)
}

// vagueArgs: some call is given a text that is not known.
func vagueArgs(r *Root) bool {
	for _, ev := range r.log {
		for _, a := range ev.args {
			for _, l := range leaves(a) {
				if feasible(C.and(ev.guard, l.g)) && hasUnknown(l.t) {
					return true
				}
			}
		}
	}
	return false
}

func (s *Spec) startAt(props string, r *Root, p *partSpec, t *Term, g B, X, h *Term, want *[]linkSpec, merged bool) {
	var got []string
	st, why := Held, ""
	vague := vagueArgs(r)
	bad := func(x Status, f string, a ...interface{}) {
		if x == Violated && vague {
			x = Undecided
		}
		if x > st {
			st, why = x, fmt.Sprintf(f, a...)
		}
	}
	nNew, nOld := 0, 0
	for _, l := range leaves(t) {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		got = append(got, l.t.String())
		if m := s.madeOf(r, l.t); m != nil {
			nNew++
			if m.cls != p.cls {
				bad(Violated, "new entity of class %d", m.cls)
			}
			if !entails(lg, C.not(lenGE(X, 1))) {
				bad(Violated, "a new entity although one may start with the part already")
			}
			*want = append(*want, linkSpec{nx(l.t, 1), h, lg, nil}, linkSpec{h, nx(l.t, 1), lg, nil})
			continue
		}
		nOld++
		if l.t != nx(first(X), -1) {
			bad(s.miss(r, l.t), "the path starts at %s, not at %s", l.t, nx(first(X), -1))
		} else if !entails(lg, lenGE(X, 1)) {
			bad(Violated, "the path starts at an entity that may not be there")
		}
	}
	if nNew == 0 || nOld == 0 {
		bad(s.miss(r, t), "the path starts at %s", t)
	}
	s.ob(props, "first-part", r, st, 0, "", "the path starts at the only entity that starts with the first part, or at a new one if there is none: "+strings.Join(got, " | "), why)
}

func (s *Spec) step(props string, r *Root, p *partSpec, L *Loop, P, t *Term, g B, idx *Term, want *[]linkSpec) {
	X := tOf(nx(P, 2))
	part := nx(p.id(idx), p.hi)
	var got []string
	st, why := Held, ""
	vague := vagueArgs(r)
	bad := func(x Status, f string, a ...interface{}) {
		if x == Violated && vague {
			x = Undecided
		}
		if x > st {
			st, why = x, fmt.Sprintf(f, a...)
		}
	}
	child := func(k *Term) *Term { return seqIdx(X, k) }
	same := func(k *Term) B {
		return p.eq(idx, nx(first(tOf(nx(child(k), -1))), -p.hi))
	}
	var search []*Loop
	for _, l := range loopIn(L, r) {
		if feasible(l.back) && (entails(l.back, C.not(same(mkIter(l)))) || entails(l.back, C.not(same(backwards(X, l))))) {
			search = append(search, l)
		}
	}
	nNew, nOld := 0, 0
	skipped := false
	for _, l := range leaves(t) {
		lg := C.and(g, l.g)
		if !feasible(lg) {
			continue
		}
		got = append(got, l.t.String())
		if m := s.madeOf(r, l.t); m != nil {
			nNew++
			if m.cls != p.cls {
				bad(Violated, "new entity of class %d", m.cls)
			}
			ok := false
			for _, q := range search {
				if entails(lg, C.not(cmpLT(mkIter(q), seqLen(X)))) {
					ok = true
				}
			}
			if !ok && !entails(lg, C.not(lenGE(X, 1))) {
				x := Violated
				if len(search) == 0 {
					x = s.loopsUnknown(r, L, X)
				}
				bad(x, "a new entity although not all existing ones were compared with the part")
			}
			*want = append(*want, linkSpec{nx(l.t, 1), part, lg, L}, linkSpec{nx(P, 2), nx(l.t, 2), lg, L})
			continue
		}
		if l.t == P && p.cls == 4 {
			if !entails(lg, lenGE(seqIdx(p.seq, idx), 1)) {
				skipped = true
			}
		}
		nOld++
		b, off := baseOff(l.t)
		if off == -2 && b.k == KApp && b.s == "idx" && b.a[0] == X && (b.a[1].k == KIter || fromEnd(X, b.a[1])) {
			if !entails(lg, same(b.a[1])) {
				bad(Violated, "an existing entity is taken that may not have the part: %s", l.t)
			}
			continue
		}
		x := s.miss(r, l.t)
		if len(collect(l.t, func(q *Term) bool { return q.k == KMu && q != P })) > 0 {
			x = Undecided
		}
		bad(x, "the path goes on at %s", l.t)
	}
	if nNew == 0 || nOld == 0 {
		bad(s.miss(r, t), "the path goes on at %s", t)
	}
	if skipped {
		s.ob("C19", "all-parts", r, Violated, 0, "", "every part is stored as a word, which rejects an empty one", "a part that may be empty is passed over")
	}
	s.ob(props, "next-part", r, st, 0, "", "the path goes on at the following entity that has the part, or at a new one if all were compared and none has it: "+strings.Join(got, " | "), why)
}

// backwards: the position a search from the end looks at.
func backwards(X *Term, l *Loop) *Term {
	return add(addc(seqLen(X), -1), mulc(mkIter(l), -1))
}

func fromEnd(X, k *Term) bool {
	for _, it := range collect(k, func(t *Term) bool { return t.k == KIter }) {
		if k == backwards(X, it.loop) {
			return true
		}
	}
	return false
}

// loopsUnknown: some loop over X compares in a way that is not recognised.
func (s *Spec) loopsUnknown(r *Root, L *Loop, X *Term) Status {
	for _, l := range loopIn(L, r) {
		if l.n != nil && l.n == seqLen(X) {
			for m, i := range l.mus {
				// a list of all of them decides nothing
				if i.next == nil || i.next.k != KApp || i.next.s != "concat" || len(i.next.a) != 2 || i.next.a[0] != m || len(collect(i.next.a[1], func(q *Term) bool { return q.k == KGate })) > 0 {
					return Undecided
				}
			}
		}
	}
	return Violated
}

// ---- reading them back

type walkSpec struct {
	props string
	start *Term
	link  func(w *Term) *Term // links that lead on
	step  func(w *Term) *Term
	chunk func(w *Term) []*Term
	text  bool

	front   bool   // texts are put in front of what there is
	between string // with this between two of them
}

// seqParts splits a concatenation.
func seqParts(t *Term) []*Term {
	if t.k == KApp && t.s == "concat" {
		return t.a
	}
	return []*Term{t}
}

func (s *Spec) walk(r *Root, ws *walkSpec, E *Term, reversed bool) {
	st, why := Held, ""
	bad := func(x Status, f string, a ...interface{}) {
		if x > st {
			st, why = x, fmt.Sprintf(f, a...)
		}
	}
	what := "every element is given once, in order, from the first to the last"
	formed := true // but for what it gives
	defer func() {
		if st != Held {
			w, same := s.firstTurns(r, ws, E, reversed)
			if same && formed {
				st = Undecided // only the way it is done differs, as far as can be seen
			}
			if w != "" {
				// shown by the first turns, whatever the rest does
				s.obs = append(s.obs, &Ob{Props: strings.Fields(ws.props), Rule: "walk", Root: r.name, Fn: shortFn(r.fn), Pos: r.fn.Pos(), Status: Violated, What: what, Why: w})
				return
			}
		}
		s.ob(ws.props, "walk", r, st, 0, "", what, why)
	}()
	if hasUnknown(E) {
		bad(Undecided, "result %s", E)
		return
	}
	full := E
	if reversed {
		full = mkAppRaw("rev", 0, E)
	}
	if s.collects(r, ws, full) {
		return
	}
	// the accumulated sequence and what is added after the loop
	mus := collect(E, func(t *Term) bool { return t.k == KMu && t.loop.mus[t] != nil })
	var A *Term
	for _, m := range mus {
		if i := m.loop.mus[m]; looksSeq(i.init) || isStringTerm(m) {
			if A != nil && A != m {
				bad(Undecided, "result %s", E)
				return
			}
			A = m
		}
	}
	if A == nil {
		bad(s.miss(r, E), "result %s is not accumulated along the path", E)
		return
	}
	L := A.loop
	ai := L.mus[A]
	// the position
	var W *Term
	for m, i := range L.mus {
		if m == A {
			continue
		}
		if s.e.role(m).valid() && s.e.role(m).idx == 0 && !looksSeq(i.init) {
			if W != nil {
				bad(Undecided, "several positions")
				return
			}
			W = m
		}
	}
	if W == nil {
		bad(s.miss(r, E), "no position moves along the path")
		return
	}
	wi := L.mus[W]
	wInit, wNext := prune(wi.init, L.entry), prune(wi.next, L.back)
	if wNext.k == KGate {
		bad(Undecided, "the position moves to %s", wNext)
		return
	}
	if !entails(L.entry, sameTerm(wInit, ws.start)) {
		bad(s.miss(r, wInit), "starts at %s, not at %s", wInit, ws.start)
	}
	if wNext != ws.step(W) {
		bad(s.miss(r, wNext), "moves to %s, not to %s", wNext, ws.step(W))
	}
	if !entails(L.back, lenGE(ws.link(W), 1)) {
		formed = false
		bad(Violated, "goes on without a link")
	}
	if !entails(r.success, C.not(lenGE(ws.link(W), 1))) {
		formed = false
		bad(Violated, "ends although there is a link to follow")
	}
	cat := func(rev bool, acc *Term, ch []*Term) *Term {
		if ws.text {
			return mkText(append([]*Term{acc}, ch...)...)
		}
		if rev {
			return mkConcat(mkArray(ch), acc)
		}
		return mkConcat(acc, mkArray(ch))
	}
	chunk := func(w *Term) []*Term { return ws.chunk(w) }
	empty := mkArray(nil)
	var one *Term
	if ws.text {
		empty = mkStr("")
		one = mkText(chunk(ws.start)...)
	} else {
		one = mkArray(chunk(ws.start))
	}
	aInit, aNext := prune(ai.init, L.entry), prune(ai.next, L.back)
	prepend := !ws.text && !reversed
	eq := func(a, b *Term) bool {
		if a == b {
			return true
		}
		if ws.text {
			return false
		}
		return seqEqual(a, b, C.and(L.entry, True))
	}
	formA := E == A && eq(aInit, one) && aNext == cat(prepend, A, chunk(wNext))
	formB := E == cat(prepend, A, chunk(W)) && eq(aInit, empty) && aNext == cat(prepend, A, chunk(W))
	if !formA && !formB {
		x := s.miss(r, aInit, aNext, E)
		for _, t := range []*Term{aNext, E} {
			if len(collect(t, func(t *Term) bool {
				return t.k == KApp && (t.s == "map" || t.s == "joinmap" || t.s == "join" || t.s == "flat" || t.s == "bytestring")
			})) > 0 {
				x = Undecided
			}
		}
		bad(x, "starts with %s, continues with %s, gives %s", aInit, aNext, E)
	}
}

// firstTurns compares what the walk gives after one, two and three turns with
// what it has to give then; it tells where they differ, or whether they are
// all the same.
func (s *Spec) firstTurns(r *Root, ws *walkSpec, E *Term, reversed bool) (diff string, same bool) {
	var L *Loop
	for _, m := range collect(E, func(t *Term) bool { return t.k == KMu || t.k == KIter }) {
		if L != nil && m.loop != L {
			return "", false
		}
		L = m.loop
	}
	if L == nil || hasUnknown(E) || hasUnknownB(r.success) {
		return "", false
	}
	// what is to be given when the walk has 1, 2, ... elements
	const most = 4
	var wants []*Term
	var conds []B
	w, on := ws.start, True
	var text, list, front []*Term
	for k := 0; k < most; k++ {
		c := ws.chunk(w)
		conds = append(conds, C.and(on, C.not(lenGE(ws.link(w), 1))))
		switch {
		case ws.text && ws.front:
			fs := []*Term{c[0]}
			if k > 0 {
				fs = append(fs, mkStr(ws.between))
			}
			front = append(fs, front...)
			wants = append(wants, mkText(front...))
		case ws.text:
			text = append(text, c...)
			wants = append(wants, mkText(text...))
		default:
			list = append(append([]*Term{}, c...), list...) // the walk goes backwards
			wants = append(wants, mkArray(list))
		}
		on = C.and(on, lenGE(ws.link(w), 1))
		w = ws.step(w)
	}
	var seen [most]B
	same = true
	for i := range seen {
		seen[i] = False
	}
	compare := func(got *Term, g B) string {
		if reversed {
			got = mkRev(got)
		}
		for _, l := range leaves(got) {
			for k, want := range wants {
				lg := allOf(g, l.g, conds[k])
				if !feasible(lg) || emptyValue(lg) {
					continue
				}
				seen[k] = C.or(seen[k], lg)
				if l.t == want {
					continue
				}
				if !ws.text && !(l.t.k == KArray && want.k == KArray) || len(collect(l.t, func(t *Term) bool { return t.k == KMu || t.k == KIter })) > 0 || hasUnknown(l.t) || hasUnknownB(lg) || !plain(l.t) {
					same = false
					continue
				}
				if !ws.text && seqEqual(l.t, want, lg) || ws.text && sameTextUnder(l.t, want, lg) {
					continue
				}
				return fmt.Sprintf("after %d turns it gives %s, not %s", k+1, l.t, want)
			}
		}
		return ""
	}
	carried := func(t *Term) bool { return t.loop == L && (t.k == KMu || t.k == KIter) }
	var looped []leaf
	for _, l := range leaves(prune(E, r.success)) {
		if len(collect(l.t, carried)) > 0 {
			looped = append(looped, l)
			continue
		}
		dependent := false
		for v := range suppOf(C.and(r.success, l.g)) {
			dependent = dependent || C.atoms[v].t != nil && len(collect(C.atoms[v].t, carried)) > 0
		}
		if dependent {
			looped = append(looped, l)
		} else if d := compare(l.t, C.and(r.success, l.g)); d != "" {
			return d, false
		}
	}
	cur := map[*Term]*Term{}
	for m, i := range L.mus {
		cur[m] = prune(i.init, L.entry)
	}
	back := L.entry
	for k := int64(0); k < most; k++ {
		cur[mkIter(L)] = mkInt(k)
		for _, l := range looped {
			g := C.and(back, substB(C.and(r.success, l.g), cur))
			if !feasible(g) {
				continue
			}
			if d := compare(substT(l.t, cur), g); d != "" {
				return d, false
			}
		}
		back = C.and(back, substB(L.back, cur))
		if !feasible(back) {
			break
		}
		next := map[*Term]*Term{}
		for m, i := range L.mus {
			next[m] = prune(substT(prune(i.next, L.back), cur), back)
		}
		cur = next
	}
	return "", same && seen[0] != False && seen[1] != False && seen[2] != False && !s.laterThan(L, most)
}

// laterThan: something happens in a loop after more than n turns only.
func (s *Spec) laterThan(L *Loop, n int64) bool {
	dep := map[int32]bool{}
	for v := range suppOf(L.back) {
		dep[v] = true
	}
	for _, i := range L.mus {
		for _, l := range leaves(i.next) {
			for v := range suppOf(l.g) {
				dep[v] = true
			}
		}
	}
	for v := range dep {
		if a := C.atoms[v]; a.kind == "ge" && a.k > n && len(collect(a.t, func(t *Term) bool { return (t.k == KMu || t.k == KIter) && t.loop == L })) > 0 {
			return true
		}
	}
	return false
}

// plain: put together from stored values and constants only.
func plain(t *Term) bool {
	switch t.k {
	case KStr, KInt, KBool:
		return true
	case KText, KArray:
		for _, a := range t.a {
			if !plain(a) {
				return false
			}
		}
		return true
	case KApp:
		return strings.HasPrefix(t.s, "value:") || t.s == "string" && t.a[0].k == KArray && plain(t.a[0])
	}
	return false
}

// emptyValue: the condition needs a stored text to be empty.
func emptyValue(g B) bool {
	for v := range suppOf(g) {
		a := C.atoms[v]
		x := C.bdd.atom(v)
		if a.kind == "term" && a.t.k == KApp && a.t.s == "eq" {
			for i := 0; i < 2; i++ {
				if a.t.a[i] == mkStr("") && entails(g, x) {
					return true
				}
			}
		}
		if a.kind == "ge" && a.t.k == KApp && a.t.s == "len" && isStringTerm(a.t.a[0]) && a.k == 1 && entails(g, C.not(x)) {
			return true
		}
	}
	return false
}

// sameTextUnder: equal texts under the condition, which may make pieces equal.
func sameTextUnder(a, b *Term, g B) bool {
	if a.k != KText || b.k != KText || len(a.a) != len(b.a) {
		return false
	}
	for i := range a.a {
		if a.a[i] != b.a[i] && !entails(g, equal(a.a[i], b.a[i])) {
			return false
		}
	}
	return true
}

func seqEqual(a, b *Term, g B) bool {
	if a.k == KArray && b.k == KArray && len(a.a) == len(b.a) {
		for i := range a.a {
			if a.a[i] != b.a[i] && !entails(g, equal(prune(a.a[i], g), b.a[i])) {
				return false
			}
		}
		return true
	}
	if n, ok := isConstLen(a); ok && n == 0 {
		m, ok := isConstLen(b)
		return ok && m == 0
	}
	return false
}

func (s *Spec) extract(c int) {
	l := layers[c]
	r := root(s, l+".Extract")
	if r == nil {
		return
	}
	var node *Term
	for _, x := range collect(r.args[0], func(t *Term) bool { return t.k == KSym && t.s == l+" node" }) {
		node = x
	}
	if node == nil {
		return
	}
	hi := []int64{0, 0, 1, 3, 3}[c]
	lower := layers[c-1]
	val := prune(r.succ, r.success)
	wrapper := []string{"", "", "frombits", "string", "join"}[c]
	const props = "C01 C21"
	chain := &walkSpec{props: props, start: node,
		link: func(w *Term) *Term { return sOf(nx(w, 2)) },
		step: func(w *Term) *Term { return nx(first(sOf(nx(w, 2))), -2) },
		chunk: func(w *Term) []*Term {
			return []*Term{mkValue(lower, nx(first(tOf(nx(w, 1))), -hi))}
		}}
	if val.k == KGate {
		ok := true
		E := lift(val, func(t *Term) *Term {
			if t.k != KApp || t.s != wrapper || c == 4 && t.a[1] != mkStr(" ") {
				ok = false
				return t
			}
			return t.a[0]
		})
		if ok && s.collects(r, chain, E) {
			s.ob(props, "walk", r, Held, 0, "", "every element is given once, in order, from the first to the last", "")
			return
		}
	}
	if val.k != KApp || val.s != wrapper {
		if c >= 3 {
			// put together piece by piece
			texts := *chain
			texts.text, texts.front = true, true
			piece := chain.chunk
			texts.chunk = func(w *Term) []*Term {
				if c == 3 {
					return []*Term{mkString(mkArray(piece(w)))}
				}
				return piece(w)
			}
			if c == 4 {
				texts.between = " "
			}
			if s.collects(r, &texts, val) {
				s.ob(props, "walk", r, Held, 0, "", "every element is given once, in order, from the first to the last", "")
				return
			}
			w, same := s.firstTurns(r, &texts, val, false)
			if same {
				s.ob(props, "read-back", r, Undecided, 0, "", "the text is put together from its parts", "result "+val.String())
				return
			}
			if w != "" {
				s.obs = append(s.obs, &Ob{Props: strings.Fields(props), Rule: "walk", Root: r.name, Fn: shortFn(r.fn), Pos: r.fn.Pos(), Status: Violated, What: "every element is given once, in order, from the first to the last", Why: w})
				return
			}
		}
		st := s.miss(r, val)
		for _, m := range collect(val, func(t *Term) bool { return t.k == KMu && t.loop.mus[t] != nil }) {
			if !looksSeq(m.loop.mus[m].init) && !s.e.role(m).valid() {
				st = Undecided // put together in another way
			}
		}
		if st == Undecided {
			s.ob(props, "read-back", r, st, 0, "", "the text is put together from its parts", "result "+val.String())
			return
		}
		s.ob(props, "read-back", r, s.miss(r, val), 0, "", "the text is put together from its parts", "result "+val.String())
		return
	}
	if c == 4 && val.a[1] != mkStr(" ") {
		s.ob(props, "read-back", r, s.miss(r, val), 0, "", "words are joined by spaces", "result "+val.String())
		return
	}
	E := val.a[0]
	rev := false
	if E.k == KApp && E.s == "rev" {
		rev = true
		E = E.a[0]
	}
	s.walk(r, chain, E, rev)
}

// ---- object-property pairs

func (s *Spec) details() {
	if r := root(s, "detail.Provide"); r != nil {
		s.detailProvide(r)
	}
	if r := root(s, "detail.GetObjectAndProperty"); r != nil {
		node := mkSym("detail node")
		want := mkTuple(mkValue("phrase", nx(first(sOf(nx(node, 1))), -3)), mkValue("phrase", nx(first(tOf(nx(node, 1))), -3)))
		s.expect("C01", "pair-read", r, r.success, r.succ, want, "the object is read from the phrase that leads to the pair, the property from the phrase it leads to")
	}
}

// common: t is an element both lists have, when g.
func (s *Spec) detailProvide(r *Root) {
	const props = "C01 C02"
	o, p := mkId("phrase", r.args[1]), mkId("phrase", r.args[2])
	a, b := tOf(nx(o, 3)), sOf(nx(p, 3))
	base := s.baseOf(prune(r.succ, r.success), r.st, 5)
	st, why := Held, ""
	bad := func(x Status, f string, a ...interface{}) {
		if x > st {
			st, why = x, fmt.Sprintf(f, a...)
		}
	}
	var want []linkSpec
	if base == nil {
		bad(Undecided, "result %s", r.succ)
	} else {
		nNew, nOld := 0, 0
		for _, l := range leaves(prune(base, r.success)) {
			g := C.and(r.success, l.g)
			if !feasible(g) {
				continue
			}
			if m := s.madeOf(r, l.t); m != nil {
				nNew++
				if m.cls != 5 {
					bad(Violated, "new entity of class %d", m.cls)
				}
				if x := s.noneCommon(r, a, b, g); x != Held {
					bad(x, "a new pair although the pair may be stored already, when %s", showB(g))
				}
				want = append(want, linkSpec{nx(o, 3), nx(l.t, 1), g, nil}, linkSpec{nx(l.t, 1), nx(p, 3), g, nil})
				continue
			}
			nOld++
			if x := s.oneCommon(r, nx(l.t, 1), a, b, g); x != Held {
				bad(x, "the pair %s may not be the stored one", l.t)
			}
		}
		if nNew == 0 || nOld == 0 {
			bad(s.miss(r, base), "result %s", base)
		}
	}
	s.ob(props, "pair", r, st, 0, "", "a pair is the only one its object leads to and that leads to its property, or a new one if there is none", why)
	s.links(props, r, want)
}

// intersection recognises the elements two lists have in common.
func intersection(x, a, b *Term) bool {
	if x.k != KApp {
		return false
	}
	parts := func(t *Term) (n, body *Term) {
		if t.k == KApp && (t.s == "flat" || t.s == "filter") && len(t.a) == 2 {
			return t.a[0], t.a[1]
		}
		return nil, nil
	}
	on, ob := parts(x)
	if on != nil && x.s == "filter" && ob.k == KTuple && len(ob.a) == 2 {
		// the elements of one that the other has
		for _, l := range [][2]*Term{{a, b}, {b, a}} {
			el := seqIdx(l[0], mkBound(int(x.n)))
			if on == seqLen(l[0]) && ob.a[0].k == KBool && ob.a[0].b == termAtom(mkAppRaw("has", 0, l[1], el)) {
				v := ob.a[1]
				return v.k == KArray && len(v.a) == 1 && v.a[0] == el
			}
		}
		return false
	}
	if on == nil || x.s != "flat" {
		return false
	}
	in, ib := parts(ob)
	if in == nil || ob.s != "filter" || ib.k != KTuple || len(ib.a) != 2 {
		return false
	}
	var la, lb *Term
	switch {
	case on == seqLen(a) && in == seqLen(b):
		la, lb = a, b
	case on == seqLen(b) && in == seqLen(a):
		la, lb = b, a
	default:
		return false
	}
	oi, ii := seqIdx(la, mkBound(int(x.n))), seqIdx(lb, mkBound(int(ob.n)))
	if ib.a[0].k != KBool || ib.a[0].b != cmpEQint(ii, oi) && ib.a[0].b != cmpEQint(oi, ii) {
		return false
	}
	v := ib.a[1]
	return v.k == KArray && len(v.a) == 1 && (v.a[0] == oi || v.a[0] == ii)
}

func interTerms(r *Root, t *Term) []*Term {
	return collect(t, func(t *Term) bool { return t.k == KApp && (t.s == "flat" || t.s == "filter") })
}

func (s *Spec) interIn(g B, a, b *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for v := range suppOf(g) {
		if t := C.atoms[v].t; t != nil {
			for _, x := range interTerms(nil, t) {
				if !seen[x] && intersection(x, a, b) {
					seen[x] = true
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func (s *Spec) noneCommon(r *Root, a, b *Term, g B) Status {
	none := C.or(C.not(lenGE(a, 1)), C.not(lenGE(b, 1)))
	for _, x := range s.interIn(g, a, b) {
		none = C.or(none, C.not(lenGE(x, 1)))
	}
	if entails(g, none) {
		return Held
	}
	// a search through both lists that stops at the first common element
	for _, o := range r.loops {
		for _, i := range loopIn(o, r) {
			for _, ab := range [][2]*Term{{a, b}, {b, a}} {
				eq := cmpEQint(seqIdx(ab[0], mkIter(o)), seqIdx(ab[1], mkIter(i)))
				if entails(i.back, C.not(eq)) && entails(o.back, cmpGE(mkIter(i), seqLen(ab[1]))) && entails(g, cmpGE(mkIter(o), seqLen(ab[0]))) {
					return Held
				}
			}
		}
	}
	if hasUnknownB(g) || s.undecidedIn(r) || s.strangeLoops(r, a, b) {
		return Undecided
	}
	return Violated
}

// strangeLoops: the lists are used in a way that is not recognised.
func (s *Spec) strangeLoops(r *Root, a, b *Term) bool {
	for _, L := range r.loops {
		for m := range L.mus {
			if i := L.mus[m]; contains(i.next, a) || contains(i.next, b) {
				if !looksSeq(i.init) {
					return true
				}
			}
		}
	}
	return false
}

func (s *Spec) oneCommon(r *Root, t, a, b *Term, g B) Status {
	if t.k == KApp && t.s == "idx" {
		if intersection(t.a[0], a, b) && t.a[1] == mkInt(0) {
			if entails(g, lenGE(t.a[0], 1)) {
				return Held
			}
			return Violated
		}
		// the element a search stopped at
		for _, o := range r.loops {
			for _, i := range r.loops {
				x, y := seqIdx(a, mkIter(o)), seqIdx(b, mkIter(i))
				if (t == x || t == y) && entails(g, cmpEQint(x, y)) {
					return Held
				}
			}
		}
	}
	if hasUnknown(t) || s.undecidedIn(r) || s.strangeLoops(r, a, b) || len(collect(t, func(x *Term) bool { return x.k == KMu })) > 0 {
		return Undecided
	}
	return Violated
}
