package main

import (
	"fmt"
	"strings"
)

// ---- remarks, facts and stories

func (s *Spec) remarkArg() *Term { return mkSym("remark") }

// The places reached from a remark.
func factOf(rem *Term) *Term       { return first(tOf(nx(rem, 3))) }               // fact.remark
func storyOf(rem *Term) *Term      { return first(tOf(nx(factOf(rem), 2))) }       // story.fact
func remarkOfFact(f *Term) *Term   { return nx(first(tOf(f)), -3) }                // first remark; f is fact.remark
func remarkOfStory(st *Term) *Term { return remarkOfFact(nx(first(tOf(st)), -2)) } // st is story.fact

// remarkAt: the operation gives the complete remark with the class node.
func (s *Spec) remarkAt(props, rule string, r *Root, t, want *Term, what string) {
	b := s.w.remarkB
	if b == nil || t == nil {
		s.ob(props, rule, r, Undecided, 0, "", what, "no result")
		return
	}
	if t.k == KIface && b.shape.k != KIface {
		t = unbox(t)
	}
	st, why := Held, ""
	base := s.baseOf(t, r.st, 6)
	if base == nil || hasUnknown(base) {
		st, why = s.miss(r, base), "identifiers of the result do not belong to one remark: "+t.String()
		if base != nil && isUnknown(base) {
			st = Undecided
			if !hasUnknown(t) {
				st = Violated
			}
		}
		if base == nil && !hasUnknown(t) && s.strays(t) && !s.undecidedIn(r) {
			st = Violated
		}
	} else {
		c := sameTerm(prune(base, r.success), want)
		if !entails(r.success, c) {
			st, why = s.miss(r, base), fmt.Sprintf("remark %s, expected %s", base, want)
			if st == Violated && s.loopTerm(base) {
				st = Undecided
			}
		} else {
			x := unwrap(s.e.inst(b, unbox(b.shape), b.typ, base, r.st))
			if e := equal(unwrap(prune(t, r.success)), x); !entails(r.success, e) {
				st, why = s.miss(r, t, x), fmt.Sprintf("result %s, expected %s", t, x)
			}
		}
	}
	s.ob(props, rule, r, st, 0, "", what, why)
	if st != Held {
		return
	}
	s.ob("C05", "complete", r, Held, 0, "", "the remark is complete: every operation can be used on it", "")
}

// strays: an identifier lies outside the entity that its neighbour is a node of.
func (s *Spec) strays(t *Term) bool {
	return len(collect(unwrap(t), func(x *Term) bool {
		return x.k == KNext && s.e.role(x.a[0]) != noRole && s.e.role(x) == noRole
	})) > 0
}

// unwrap takes away interfaces and structs that only embed another value.
func unwrap(t *Term) *Term {
	for {
		switch {
		case t.k == KIface:
			t = t.a[0]
		case t.k == KStruct && len(t.a) == 1 && t.a[0].k == KIface:
			t = t.a[0]
		default:
			return t
		}
	}
}

func (s *Spec) loopTerm(t *Term) bool {
	return len(collect(t, func(x *Term) bool { return x.k == KMu })) > 0
}

// only gives the entity of a class an operation creates.
func (s *Spec) only(props string, r *Root, cls int) *Made {
	var out *Made
	st, why := Held, ""
	for _, m := range s.madeBy(r) {
		if m.cls != cls {
			continue
		}
		if out != nil {
			if feasible(allOf(r.success, out.guard, m.guard)) {
				st, why = Violated, "several are created"
			} else if st == Held {
				st, why = Undecided, "created in several places"
			}
		}
		out = m
		if len(m.loops) > 0 {
			st, why = Violated, "created in a loop"
		}
	}
	if out == nil {
		st, why = s.miss(r), "none is created"
	} else if st == Held && !entails(r.success, out.guard) {
		st, why = Violated, "not always created"
	}
	s.ob(props, "creates", r, st, 0, "", "exactly one new "+layers[cls], why)
	if st != Held {
		return nil
	}
	return out
}

func (s *Spec) noOther(props string, r *Root, cls ...int) {
	for _, m := range s.madeBy(r) {
		ok := false
		for _, c := range cls {
			ok = ok || m.cls == c
		}
		if !ok {
			s.evOb(props, "creates", r, m.ev, Violated, evText(m.ev), "an operation creates a "+layers[m.cls])
		}
	}
}

func detailID(o, p *Term) *Term { return mkId("detail", o, p) }

func (s *Spec) stories() {
	rem := s.remarkArg()
	obj, prop := mkSym("object"), mkSym("property")
	d := nx(detailID(obj, prop), 2)

	// CreateStory
	if r := root(s, "CreateStory"); r != nil {
		const p = "C12"
		R, F, S := s.only(p, r, 6), s.only(p, r, 7), s.only(p, r, 8)
		if R != nil && F != nil && S != nil {
			r6, f7, s8 := R.base, F.base, S.base
			s.links(p, r, []linkSpec{
				{d, nx(r6, 1), r.success, nil},
				{nx(r6, 3), nx(f7, 1), r.success, nil}, {nx(f7, 1), nx(r6, 3), r.success, nil},
				{nx(f7, 3), nx(s8, 1), r.success, nil}, {nx(s8, 1), nx(f7, 3), r.success, nil},
			})
			s.remarkAt(p, "result", r, r.succ, r6, "the result is the remark that starts the new story")
		}
	}

	// AddRemarkToFact
	if r := root(s, "Remark.AddRemarkToFact"); r != nil {
		const p = "C13"
		R := s.only(p, r, 6)
		s.noOther(p, r, 6)
		if R != nil {
			o := mkValue("detail.object", nx(first(sOf(nx(rem, 1))), -2))
			dd := nx(detailID(o, prop), 2)
			s.links(p, r, []linkSpec{
				{dd, nx(R.base, 1), r.success, nil},
				{nx(R.base, 3), factOf(rem), r.success, nil},
			})
			s.remarkAt(p, "result", r, r.succ, R.base, "the result is the new remark")
		}
	}

	// AddFactToStory
	if r := root(s, "Remark.AddFactToStory"); r != nil {
		const p = "C14"
		R, F := s.only(p, r, 6), s.only(p, r, 7)
		s.noOther(p, r, 6, 7)
		if R != nil && F != nil {
			r6, f7 := R.base, F.base
			want := []linkSpec{
				{d, nx(r6, 1), r.success, nil},
				{nx(r6, 3), nx(f7, 1), r.success, nil}, {nx(f7, 1), nx(r6, 3), r.success, nil},
				{nx(f7, 3), storyOf(rem), r.success, nil},
			}
			// the last fact
			last := s.lastOf(p, r, nx(factOf(rem), -1), nx(f7, 2), "fact", True, func(x *Term) bool {
				// any fact of the story will do
				return x == nx(first(tOf(storyOf(rem))), -3)
			})
			if last != nil {
				want = append(want, linkSpec{nx(last, 2), nx(f7, 2), r.success, nil})
			}
			if last != nil || !s.undecidedIn(r) {
				s.links(p, r, want)
			}
			s.remarkAt(p, "result", r, r.succ, r6, "the result is the remark that starts the new fact")
		}
	}

	// CreateChildStory
	if r := root(s, "Remark.CreateChildStory"); r != nil {
		const p = "C15"
		R, F, S := s.only(p, r, 6), s.only(p, r, 7), s.only(p, r, 8)
		if R != nil && F != nil && S != nil {
			r6, f7, s8 := R.base, F.base, S.base
			parent := nx(storyOf(rem), 2) // story.tree
			want := []linkSpec{
				{d, nx(r6, 1), r.success, nil},
				{nx(r6, 3), nx(f7, 1), r.success, nil}, {nx(f7, 1), nx(r6, 3), r.success, nil},
				{nx(f7, 3), nx(s8, 1), r.success, nil}, {nx(s8, 1), nx(f7, 3), r.success, nil},
				{nx(s8, 3), parent, r.success, nil},
			}
			kids := sOf(parent)
			g := C.and(r.success, lenGE(kids, 1))
			last := s.lastOf(p, r, nx(first(kids), -3), nx(s8, 2), "story", lenGE(kids, 1), func(x *Term) bool {
				// any child of the parent will do
				b, off := baseOff(x)
				return off == -3 && b.k == KApp && b.s == "idx" && b.a[0] == kids
			})
			if last != nil {
				if L := s.listed(p, r, last, kids, nx(s8, 2)); L {
					g = False
				}
				want = append(want, linkSpec{nx(last, 2), nx(s8, 2), g, nil})
			}
			if last != nil || !s.undecidedIn(r) {
				s.links(p, r, want)
			}
			// the first child follows nobody
			for _, ev := range r.log {
				if ev.kind == "Connect" && s.e.role(ev.args[1]) == (Role{8, 2}) {
					st := Held
					if feasible(C.and(ev.guard, C.not(lenGE(kids, 1)))) && loopOver(ev.args[0], kids) == nil {
						st = Violated
					}
					s.evOb(p, "first-child", r, ev, st, evText(ev), "a first child is made to follow another story")
				}
			}
			s.remarkAt(p, "result", r, r.succ, r6, "the result is the remark that starts the child story")
		}
	}

	// moving
	nav := func(name, p string, want *Term, what string) {
		if r := root(s, name); r != nil {
			s.remarkAt(p, "moves", r, r.succ, want, what)
			s.noOther(p, r)
		}
	}
	fact, story := factOf(rem), storyOf(rem)
	nextF, nextS := tOf(nx(fact, 1)), tOf(nx(story, 1))
	nav("Remark.GetFirstFact", "C12", remarkOfStory(story), "leads to the first remark of the first fact of the story of the fact of the remark")
	nav("Remark.GetNextFact", "C14", remarkOfFact(nx(first(nextF), -1)), "leads to the first remark of the next fact")
	nav("Remark.GetNextStory", "C15", remarkOfStory(nx(first(nextS), -1)), "leads to the first remark of the next story")
	nav("Remark.GetNextRemark", "C16", nx(first(tOf(nx(rem, 2))), -2), "leads to the next remark")
	has := func(name, p string, X *Term, what string) {
		if r := root(s, name); r != nil {
			if r.succ == nil || r.succ.k != KBool {
				s.ob(p, "has", r, Undecided, 0, "", what, "no boolean result")
				return
			}
			s.must(p, "has", r, r.success, C.ite(r.succ.b, lenGE(X, 1), C.not(lenGE(X, 1))), what)
		}
	}
	has("Remark.HasNextFact", "C14 C17", nextF, "there is a next fact exactly when there is a link to it")
	has("Remark.HasNextStory", "C15 C17", nextS, "there is a next story exactly when there is a link to it")
	has("Remark.HasNextRemark", "C16 C17", tOf(nx(rem, 2)), "there is a next remark exactly when there is a link to it")

	// the same seen from a fact
	if r := root(s, "fact.FetchByRemark"); r != nil {
		f := mkSym("fact remark node")
		st := first(tOf(nx(f, 2)))
		n := func(name, p string, want *Term, what string) {
			if q := root(s, "fact.Aggregate."+name); q != nil {
				s.expectFact(p, q, want, what)
			}
		}
		h := func(name, p string, X *Term) {
			has("fact.Aggregate."+name, p, X, "answers whether there is a link")
		}
		n("ToNextFact", "C14", nx(first(tOf(nx(f, 1))), -2), "leads to the next fact")
		n("ToFirstFact", "C12", nx(first(tOf(st)), -3), "leads to the first fact of its story")
		n("ToNextStory", "C15", nx(first(tOf(nx(first(tOf(nx(st, 1))), -1))), -3), "leads to the first fact of the next story")
		n("ToParentStory", "C15", nx(first(tOf(nx(first(tOf(nx(st, 2))), -2))), -3), "leads to the first fact of the parent story")
		h("HasNextFact", "C14 C17", tOf(nx(f, 1)))
		h("HasNextStory", "C15 C17", tOf(nx(st, 1)))
		h("HasParentStory", "C15 C17", tOf(nx(st, 2)))
		if q := root(s, "fact.Aggregate.GetFirstRemark"); q != nil {
			s.expect("C12 C14", "first-remark", q, q.success, q.succ, first(tOf(f)), "the first remark of the fact")
		}
	}

	// reading a remark
	if r := root(s, "Remark.GetIdentifier"); r != nil {
		s.expect("C11", "identifier", r, r.success, r.succ, rem, "the identifier is the node that identifies the remark")
	}
	if r := root(s, "Remark.GetObjectAndProperty"); r != nil {
		D := nx(first(sOf(nx(rem, 1))), -2)
		s.expect("C01 C11 C13", "object-property", r, r.success, r.succ, mkTuple(mkValue("detail.object", D), mkValue("detail.property", D)), "object and property are those of the pair that leads to the remark, in this order")
	}
	if r := root(s, "GetRemark"); r != nil {
		id := mkSym("remark id")
		s.remarkAt("C11", "found", r, r.succ, id, "gives the remark with the identifier")
		s.must("C11", "kind", r, r.success, C.and(single(tOf(id)), cmpEQint(first(tOf(id)), mkInt(6))), "only the identifier of a remark is accepted")
	}

	// rendering
	if r := root(s, "Output.GetStory"); r != nil {
		E := prune(r.succ, r.success)
		w0 := remarkOfStory(storyOf(rem))
		ws := &walkSpec{props: "C16", start: w0, text: true,
			link: func(w *Term) *Term { return tOf(nx(w, 2)) },
			step: func(w *Term) *Term { return nx(first(tOf(nx(w, 2))), -2) },
			chunk: func(w *Term) []*Term {
				D := nx(first(sOf(nx(w, 1))), -2)
				return []*Term{mkValue("detail.object", D), mkStr(" "), mkValue("detail.property", D), mkStr(" ")}
			}}
		s.walk(r, ws, E, false)
	}
}

// loopOver is the loop over the whole list that x is an element of.
func loopOver(x, list *Term) *Loop {
	for _, k := range collect(x, func(q *Term) bool { return q.k == KIter }) {
		if L := k.loop; L.full >= 0 && L.n != nil && prune(L.n, L.entry) == seqLen(list) {
			return L
		}
	}
	return nil
}

// listed: the last element of the chain is looked for in the list of all its
// elements, and linked there.
func (s *Spec) listed(props string, r *Root, x, list, newPos *Term) bool {
	L := loopOver(x, list)
	if L == nil {
		return false
	}
	done := False
	for _, ev := range r.log {
		if ev.kind == "Connect" && ev.args[0] == nx(x, 2) && ev.args[1] == newPos {
			done = C.or(done, allOk(ev.guard))
		}
	}
	last := C.not(lenGE(tOf(nx(x, 2)), 1))
	st, why := Held, ""
	if g := C.and(allOk(C.and(L.back, last)), C.not(done)); feasible(g) {
		st, why = Violated, "passed over when "+showB(g)
	}
	for i, e := range L.exits {
		if i != L.full && st == Held && feasible(C.and(allOk(e.guard), C.not(done))) {
			st, why = Undecided, "the search stops early when "+showB(C.and(allOk(e.guard), C.not(done)))
		}
	}
	s.ob(props, "link-made", r, st, 0, "", fmt.Sprintf("link from the last of %s -> %s", list, newPos), why)
	return true
}

// lastOf finds the walk to the last element of a chain: the node that is
// linked to the new one.
func (s *Spec) lastOf(props string, r *Root, start, newPos *Term, kind string, exists B, also func(*Term) bool) *Term {
	st, why := Held, ""
	bad := func(x Status, f string, a ...interface{}) {
		if x > st {
			st, why = x, fmt.Sprintf(f, a...)
		}
	}
	var W *Term
	step := func(w *Term) *Term { return nx(first(tOf(nx(w, 2))), -2) }
	more := func(w *Term) B { return lenGE(tOf(nx(w, 2)), 1) }
	seen := map[*Term]bool{}
	// reached: x is the start or reached from it by following links
	var reached func(x *Term, g B)
	reached = func(x *Term, g B) {
		if entails(C.and(g, exists), sameTerm(x, start)) {
			return
		}
		if x.k == KGate {
			for _, l := range leaves(x) {
				if lg := C.and(g, l.g); feasible(lg) {
					reached(l.t, lg)
				}
			}
			return
		}
		if also(x) {
			return
		}
		if x.k == KMu {
			if seen[x] {
				return
			}
			seen[x] = true
			L := x.loop
			i := L.mus[x]
			if i == nil {
				bad(Undecided, "position %s", x)
				return
			}
			reached(prune(i.init, L.entry), L.entry)
			reached(prune(i.next, L.back), L.back)
			return
		}
		// a step from somewhere
		if b, off := baseOff(x); off == -2 && b.k == KApp && b.s == "idx" && b.a[1] == mkInt(0) && b.a[0].k == KApp && b.a[0].s == "T" {
			if w := nx(b.a[0].a[0], -2); step(w) == x {
				if !entails(g, more(w)) {
					bad(Violated, "the search for the last %s goes on without a link", kind)
				}
				reached(w, g)
				return
			}
		}
		y := s.miss(r, x)
		if s.loopTerm(x) {
			y = Undecided
		}
		bad(y, "the search for the last %s is at %s, which is not reached from %s by following links", kind, x, start)
	}
	n := 0
	for _, ev := range r.log {
		if ev.kind != "Connect" || ev.args[1] != newPos {
			continue
		}
		n++
		g := allOf(ev.guard, r.success, exists)
		if !feasible(g) {
			continue
		}
		W = nx(ev.args[0], -2)
		reached(prune(W, g), g)
		for _, l := range leaves(prune(W, g)) {
			lg := C.and(g, l.g)
			if !feasible(lg) || entails(lg, C.not(more(l.t))) {
				continue
			}
			x := Violated
			if l.t.k != KMu && s.loopTerm(l.t) && st != Held {
				x = Undecided
			}
			bad(x, "the search for the last %s ends too early", kind)
		}
	}
	if n == 0 {
		bad(s.miss(r), "no link to the new %s", kind)
	} else if n > 1 {
		bad(Undecided, "several links to the new %s", kind)
	}
	s.ob(props, "last", r, st, 0, "", "the new "+kind+" is linked from the last one", why)
	if st != Held {
		return nil
	}
	return W
}

func (s *Spec) expectFact(p string, r *Root, want *Term, what string) {
	st, why := Held, ""
	base := s.baseOf(prune(r.succ, r.success), r.st, 7)
	if base == nil {
		st, why = s.miss(r), "result "+r.succ.String()
	} else if !entails(r.success, sameTerm(base, want)) {
		st, why = s.miss(r, base), fmt.Sprintf("fact %s, expected %s", base, want)
	}
	s.ob(p, "moves", r, st, 0, "", what, why)
}

// ---- no error without a reason

// Links that every complete entity has.
var always = map[string]bool{
	"T1.0": true, "T2.0": true, "T3.0": true, "T4.0": true, "T5.0": true, "T6.0": true, "T7.0": true, "T8.0": true,
	"T2.1": true, "T3.1": true, "T4.1": true, "S5.1": true, "T5.1": true, "S6.1": true, "T6.3": true, "T7.1": true, "T7.3": true, "T8.1": true,
}

// Links that lead to many places.
var many = map[string]bool{
	"T2.2": true, "T3.2": true, "T4.2": true, "T4.3": true, "S4.3": true, "T5.2": true, "S8.3": true, "S7.1": true, "S8.1": true,
	"S0.1": true, "S0.2": true, "S0.3": true, "S0.4": true, "S0.5": true, "S0.6": true, "S0.7": true, "S0.8": true,
}

func (s *Spec) linkKind(t *Term) string {
	r := s.e.role(t.a[0])
	if r == noRole {
		return ""
	}
	return fmt.Sprintf("%s%d.%d", t.s, r.cls, r.idx)
}

// sound assumes that every link read is as in a complete store.
func (s *Spec) sound(g B, optional map[*Term]bool) B {
	seen := map[*Term]bool{}
	for v := range suppOf(g) {
		a := C.atoms[v]
		if a.t == nil {
			continue
		}
		// the nodes of stored entities are there, and are none of the class nodes
		if t := a.t; t.k == KApp && t.s == "has" && len(t.a) == 1 && s.e.role(t.a[0]).cls > 0 {
			g = C.and(g, C.atom(v))
		}
		for _, x := range collect(a.t, func(t *Term) bool { return t.k == KSym }) {
			if r := s.e.role(x); r.cls > 0 && !seen[x] {
				seen[x] = true
				g = C.and(g, cmpGE(x, mkInt(9)))
			}
		}
		for _, x := range collect(a.t, func(t *Term) bool { return t.k == KApp && (t.s == "T" || t.s == "S") && len(t.a) == 1 }) {
			if seen[x] {
				continue
			}
			seen[x] = true
			k := s.linkKind(x)
			if k == "" {
				continue
			}
			if !many[k] {
				g = C.and(g, C.not(lenGE(x, 2)))
			}
			if always[k] || optional[x] {
				g = C.and(g, lenGE(x, 1))
			}
			// the class of an entity is its class
			if r := s.e.role(x.a[0]); x.s == "T" && r.idx == 0 && r.cls > 0 {
				g = C.and(g, cmpEQint(first(x), mkInt(int64(r.cls))))
			}
		}
	}
	return g
}

func (s *Spec) noSpurious(props, name string, assume B, optional ...*Term) {
	r := root(s, name)
	if r == nil {
		return
	}
	opt := map[*Term]bool{}
	for _, t := range optional {
		opt[t] = true
	}
	g := allOk(C.and(r.g, C.not(r.success)))
	g = C.and(g, assume)
	if g != False {
		g = C.and(g, validTexts(g, r.args))
	}
	if g != False {
		g = s.sound(g, opt)
	}
	st, why := Held, ""
	if feasible(g) {
		st, why = Violated, "an error is reported when "+showB(g)
		if hasUnknownB(g) || s.undecidedIn(r) || s.looseLoop(g) || failedSearch(r, g) {
			st = Undecided
		}
	}
	s.ob(props, "no-spurious-error", r, st, 0, "", "no error on a complete store", why)
}

// validTexts is what holds of texts of non-empty words separated by single
// spaces, as far as g asks for it. Words by themselves are not such texts.
func validTexts(g B, args []*Term) B {
	r := True
	for v := range suppOf(g) {
		a := C.atoms[v]
		if a.t == nil {
			continue
		}
		for _, x := range args {
			if x.k != KSym || x.s != "text" && x.s != "object" && x.s != "property" {
				continue
			}
			if t := a.t; t.k == KApp && len(t.a) == 2 && t.a[0] == x && t.a[1].k == KStr {
				switch sep := t.a[1].s; {
				case (t.s == "strings.HasPrefix" || t.s == "strings.HasSuffix") && sep == " ", t.s == "strings.Contains" && sep == "  ":
					r = C.and(r, C.not(C.atom(v)))
				}
			}
			for _, t := range collect(a.t, func(t *Term) bool {
				return t.k == KApp && t.s == "idx" && t.a[0].k == KApp && t.a[0].s == "split" && t.a[0].a[0] == x && t.a[0].a[1] == mkStr(" ")
			}) {
				r = C.and(r, lenGE(t, 1))
			}
			for _, t := range collect(a.t, func(t *Term) bool {
				return t.k == KApp && (t.s == "strings.Index" || t.s == "strings.Count") && t.a[0] == x && t.a[1] == mkStr("  ")
			}) {
				n := int64(0)
				if t.s == "strings.Index" {
					n = -1
				}
				r = C.and(r, cmpEQint(t, mkInt(n)))
			}
			r = C.and(r, lenGE(x, 1))
			for _, t := range collect(a.t, func(t *Term) bool {
				return t.k == KApp && len(t.a) == 2 && strings.HasPrefix(t.s, "strings.Trim") && t.a[0] == x && t.a[1] == mkStr(" ")
			}) {
				r = C.and(r, mkEq(t, x))
			}
			// single bytes or characters
			at := collect(a.t, func(t *Term) bool { return isByteOf(t, x) })
			for _, t := range at {
				if t.a[1] == mkInt(0) || t.a[1] == add(seqLen(t.a[0]), mkInt(-1)) {
					r = C.and(r, C.not(cmpEQint(t, mkInt(' '))))
				}
				for w := range suppOf(g) {
					if C.atoms[w].t == nil {
						continue
					}
					for _, u := range collect(C.atoms[w].t, func(u *Term) bool { return isByteOf(u, x) && u.a[0] == t.a[0] && sub(u.a[1], t.a[1]) == mkInt(1) }) {
						r = C.and(r, C.not(C.and(cmpEQint(t, mkInt(' ')), cmpEQint(u, mkInt(' ')))))
					}
				}
			}
		}
	}
	return r
}

// isByteOf tells whether t is a byte or a character of the text x.
func isByteOf(t, x *Term) bool {
	if t.k != KApp || t.s != "idx" {
		return false
	}
	s := t.a[0]
	return s == x || s.k == KApp && (s.s == "runes" || s.s == "bytes") && s.a[0] == x
}

// looseLoop: the condition depends on values carried by loops.
func (s *Spec) looseLoop(g B) bool {
	for v := range suppOf(g) {
		if t := C.atoms[v].t; t != nil && len(collect(t, func(x *Term) bool {
			return x.k == KMu && x.loop.mus[x] != nil && !s.e.role(x).valid()
		})) > 0 {
			return true
		}
	}
	return false
}

// failedSearch: the condition is that a search through a list found nothing,
// and the operation never succeeds then. Whether the list holds what is looked
// for is not known here.
func failedSearch(r *Root, g B) bool {
	for v := range suppOf(g) {
		a := C.atoms[v]
		if a.t == nil {
			continue
		}
		for _, x := range collect(a.t, func(x *Term) bool { return x.k == KIter && searches(x.loop) }) {
			L := x.loop
			for _, lit := range []B{C.atom(v), C.not(C.atom(v))} {
				if entails(g, lit) && entails(L.exits[L.full].guard, lit) && !feasible(allOf(r.success, L.entry, lit)) {
					return true
				}
			}
		}
	}
	return false
}

// searches: the loop goes through a list and may end before the end of it.
func searches(L *Loop) bool {
	if L == nil || L.full < 0 {
		return false
	}
	for i, x := range L.exits {
		if i != L.full && feasible(allOk(x.guard)) {
			return true
		}
	}
	return false
}

func (s *Spec) spurious() {
	rem := s.remarkArg()
	text := mkSym("text")
	nonempty := lenGE(text, 1)
	s.noSpurious("C01", "character.Provide", True)
	s.noSpurious("C01 C19", "word.Provide", nonempty)
	s.noSpurious("C01 C19", "phrase.Provide", True)
	for _, l := range []string{"character.Extract", "word.Extract", "phrase.Extract", "detail.GetObjectAndProperty", "character.Fetch", "word.Fetch", "phrase.Fetch", "detail.Fetch"} {
		s.noSpurious("C01", l, True)
	}
	if r := root(s, "detail.Provide"); r != nil {
		// at most one pair has both
		assume := True
		o, p := mkId("phrase", r.args[1]), mkId("phrase", r.args[2])
		for _, x := range s.interIn(C.and(r.g, C.not(r.success)), tOf(nx(o, 3)), sOf(nx(p, 3))) {
			assume = C.and(assume, C.not(lenGE(x, 2)))
		}
		s.noSpurious("C01", "detail.Provide", assume)
	}
	s.noSpurious("C12", "CreateStory", True)
	s.noSpurious("C11", "GetRemark", True)
	s.noSpurious("C13", "Remark.AddRemarkToFact", True)
	s.noSpurious("C14", "Remark.AddFactToStory", True)
	s.noSpurious("C15", "Remark.CreateChildStory", True)
	s.noSpurious("C12", "Remark.GetFirstFact", True)
	s.noSpurious("C14", "Remark.GetNextFact", True, tOf(nx(factOf(rem), 1)))
	s.noSpurious("C15", "Remark.GetNextStory", True, tOf(nx(storyOf(rem), 1)))
	s.noSpurious("C16", "Remark.GetNextRemark", True, tOf(nx(rem, 2)))
	s.noSpurious("C14", "Remark.HasNextFact", True)
	s.noSpurious("C15", "Remark.HasNextStory", True)
	s.noSpurious("C16", "Remark.HasNextRemark", True)
	s.noSpurious("C01 C11", "Remark.GetObjectAndProperty", True)
	s.noSpurious("C16", "Output.GetStory", True)
	f := mkSym("fact remark node")
	st := first(tOf(nx(f, 2)))
	s.noSpurious("C14", "fact.Aggregate.ToNextFact", True, tOf(nx(f, 1)))
	s.noSpurious("C12", "fact.Aggregate.ToFirstFact", True)
	s.noSpurious("C15", "fact.Aggregate.ToNextStory", True, tOf(nx(st, 1)))
	s.noSpurious("C15", "fact.Aggregate.ToParentStory", True, tOf(nx(st, 2)))
	for _, n := range []string{"HasNextFact", "HasNextStory", "HasParentStory", "GetFirstRemark"} {
		s.noSpurious("C12 C14 C15", "fact.Aggregate."+n, True)
	}
	// every part of an entity
	for _, n := range s.w.order {
		if strings.Contains(n, ".Entity.") || strings.Contains(n, "ReadEntityBy") || strings.HasSuffix(n, ".CreateEntity") {
			s.partSpurious(n)
		}
	}
	// empty words
	if r := root(s, "word.Provide"); r != nil {
		s.must("C19", "empty-word", r, r.success, nonempty, "an empty word is rejected")
	}
	if r := root(s, "detail.Provide"); r != nil {
		for _, x := range []*Term{r.args[1], r.args[2]} {
			d := False
			for _, ev := range r.log {
				if ev.kind == "call" && ev.name == "phrase.Provide" && ev.args[0] == x {
					d = C.or(d, C.and(ev.guard, ev.ok))
				}
			}
			s.must("C19", "stored", r, r.success, d, fmt.Sprintf("the %s is stored as a phrase, which rejects empty words", x))
		}
	}
	for _, n := range []string{"CreateStory", "Remark.AddFactToStory", "Remark.CreateChildStory", "Remark.AddRemarkToFact"} {
		if r := root(s, n); r != nil {
			d := False
			for _, ev := range r.log {
				if ev.kind == "call" && ev.name == "detail.Provide" && ev.args[1] == mkSym("property") && (n == "Remark.AddRemarkToFact" || ev.args[0] == mkSym("object")) {
					d = C.or(d, C.and(ev.guard, ev.ok))
				}
			}
			s.must("C19", "stored", r, r.success, d, "the given text is stored as a pair of phrases, which rejects empty words")
		}
	}
}

func (s *Spec) partSpurious(n string) {
	r := root(s, n)
	if r == nil {
		return
	}
	// answering may fail only for want of the link it is asked to follow
	var opt []*Term
	i := strings.LastIndex(n, ".")
	if strings.HasPrefix(n[i+1:], "Get") || strings.HasPrefix(n, "class.Entity.Is") {
		for v := range suppOf(r.success) {
			if t := C.atoms[v].t; t != nil {
				for _, x := range collect(t, func(t *Term) bool { return t.k == KApp && (t.s == "T" || t.s == "S") && len(t.a) == 1 }) {
					opt = append(opt, x)
				}
			}
		}
	}
	assume := True
	for _, x := range opt {
		assume = C.and(assume, single(x))
	}
	if strings.Contains(n, ".PointTo") {
		return
	}
	s.noSpurious("C03", n, assume)
}
