package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- C03 an entity is the chain of its nodes

func (s *Spec) chains() {
	s.each(func(r *Root) {
		if strings.HasPrefix(r.name, "class.") {
			return
		}
		check := func(base *Term, cls int, g B, pos *Event) {
			for i := 0; i+1 < chainLen[cls]; i++ {
				a, b := nx(base, int64(i)), nx(base, int64(i+1))
				d := s.done(r, "SetReference", a, b)
				st, why := Held, ""
				if !entails(g, d) {
					st = s.miss(r, base)
					why = fmt.Sprintf("the reference from its node %d (%s) to the next is not always set", i, Role{cls, i})
				}
				if pos != nil {
					s.evOb("C03", "chain", r, pos, st, fmt.Sprintf("%s %s: %s -> %s", layers[cls], base, Role{cls, i}, Role{cls, i + 1}), why)
				} else {
					s.ob("C03", "chain", r, st, 0, "", fmt.Sprintf("%s %s: %s -> %s", layers[cls], base, Role{cls, i}, Role{cls, i + 1}), why)
				}
			}
		}
		if strings.HasSuffix(r.name, ".CreateEntity") {
			for c := 2; c <= 8; c++ {
				if strings.HasPrefix(r.name, layers[c]+".") {
					check(mkSym(layers[c]+" class"), c, r.success, nil)
				}
			}
		}
		for _, m := range s.madeBy(r) {
			g := C.and(r.success, m.guard)
			if len(m.loops) > 0 {
				L := m.loops[len(m.loops)-1]
				g = C.and(L.back, m.guard)
			}
			check(m.base, m.cls, g, m.ev)
		}
		// nothing beyond the last node
		for _, ev := range r.log {
			if ev.kind != "SetReference" {
				continue
			}
			for _, l := range leaves(ev.args[0]) {
				if !feasible(C.and(ev.guard, l.g)) {
					continue
				}
				ro := s.e.role(l.t)
				if ro != noRole && ro.cls > 0 && ro.idx+1 >= chainLen[ro.cls] {
					s.evOb("C03 C21", "chain-end", r, ev, Violated, evText(ev), "a reference from the last node of an entity")
				}
			}
		}
	})
	// reading by each node
	for c := 1; c <= 8; c++ {
		l := layers[c]
		b := s.w.shapes[l]
		if b == nil || b.shape == nil {
			continue
		}
		for i := 0; i < chainLen[c]; i++ {
			for _, n := range s.w.order {
				if !strings.HasPrefix(n, l+".ReadEntityBy") || roleIndex(c, strings.TrimPrefix(n, l+".ReadEntityBy")) != i {
					continue
				}
				r := root(s, n)
				if r == nil {
					continue
				}
				node := mkSym(l + " " + roleNames[c][i] + " node")
				s.same("C03", "read-by", r, b, nx(node, int64(-i)), "the entity read by its "+roleNames[c][i]+" node is the one created")
			}
		}
	}
	for c := 2; c <= 5; c++ {
		l := layers[c]
		r := root(s, l+".Fetch")
		f := s.w.method(conc(l), "Repository", "Provide")
		if r == nil || f == nil {
			continue
		}
		b := s.e.boundaries[f.String()]
		if b == nil || b.shape == nil {
			continue
		}
		k := []int64{0, 0, 3, 3, 3, 2}[c]
		s.same("C01 C03 C11", "fetch", r, b, nx(mkSym(l+" id"), -k), "fetching gives the entity that was stored")
	}
}

// same: the result is the entity as created, with class node base.
func (s *Spec) same(props, rule string, r *Root, b *Boundary, base *Term, what string) {
	got := prune(r.succ, r.success)
	want := s.e.inst(b, b.shape, b.typ, base, r.st.clone())
	if got.k != KIface || want.k != KIface {
		got, want = unbox(got), unbox(want)
	}
	st, why := Held, ""
	if got != want {
		if e := equal(got, want); !entails(r.success, e) {
			st, why = s.miss(r, got, want), fmt.Sprintf("%s, created as %s", got, want)
		}
	}
	s.ob(props, rule, r, st, 0, "", what, why)
}

// ---- what the parts of an entity answer

func (s *Spec) answers() {
	for _, n := range s.w.order {
		i := strings.Index(n, ".Entity.")
		if i < 0 || strings.HasPrefix(n, "class.") {
			continue
		}
		r := root(s, n)
		if r == nil {
			continue
		}
		l, m := n[:i], n[i+len(".Entity."):]
		c := 0
		for k, x := range layers {
			if x == l {
				c = k
			}
		}
		if c == 0 {
			continue
		}
		base := mkSym(l + " node")
		node := func(noun string) int {
			if k := roleIndex(c, noun); k >= 0 {
				return k
			}
			if roleNames[c][2%chainLen[c]] == "position" && strings.EqualFold(noun, l) {
				return 2
			}
			if c == 6 && strings.EqualFold(noun, "Remark") {
				return 2
			}
			return -1
		}
		arg := mkSym("n")
		one := func(props string, a, b *Term) {
			s.links(props, r, []linkSpec{{a, b, C.and(r.success, True), nil}})
		}
		switch {
		case strings.HasPrefix(m, "PointTo"):
			if k := node(m[7:]); k >= 0 {
				one("C21", nx(base, int64(k)), arg)
			}
		case m == "AddSourceDetail":
			one("C21", arg, nx(base, 3))
		case m == "AddTargetDetail":
			one("C21", nx(base, 3), arg)
		case strings.HasPrefix(m, "Get") || strings.HasPrefix(m, "Has"):
			rest := m[3:]
			if k := roleIndex(c, rest); k >= 0 && m[0] == 'G' {
				s.expect("C03", "node", r, r.success, r.succ, nx(base, int64(k)), "gives its "+rest+" node")
				continue
			}
			dir := ""
			for _, p := range []string{"Source", "Target", "Next", "First"} {
				if strings.HasPrefix(rest, p) {
					dir, rest = p, rest[len(p):]
					break
				}
			}
			if dir == "" {
				continue
			}
			all := strings.HasSuffix(rest, "s") && node(rest) < 0
			k := node(strings.TrimSuffix(rest, "s"))
			if k < 0 {
				continue
			}
			X := tOf(nx(base, int64(k)))
			if dir == "Source" {
				X = sOf(nx(base, int64(k)))
			}
			switch {
			case m[0] == 'H':
				if r.succ.k != KBool {
					s.ob("C17", "has", r, Undecided, 0, "", "answers whether there is a link", r.succ.String())
					continue
				}
				s.must("C17", "has", r, r.success, C.ite(r.succ.b, lenGE(X, 1), C.not(lenGE(X, 1))), "answers whether there is a link")
			case all:
				got := prune(s.e.content(r.succ, r.st), r.success)
				st, why := Held, ""
				if got != X {
					st, why = s.miss(r, got), fmt.Sprintf("%s, expected %s", got, X)
				}
				s.ob("C21", "links", r, st, 0, "", "gives all its links", why)
			default:
				s.expect("C17", "link", r, r.success, r.succ, first(X), "gives the only link")
			}
		}
	}
}

// ---- C08 classes

func (s *Spec) classes() {
	for c := 1; c <= 8; c++ {
		name := strings.ToUpper(layers[c][:1]) + layers[c][1:]
		k := mkInt(int64(c))
		if r := root(s, "class.Entity.Create"+name); r != nil {
			var nu *Term
			for _, ev := range r.log {
				if ev.kind == "Create" {
					nu = ev.res
				}
			}
			if nu == nil {
				s.ob("C08", "register", r, s.miss(r), 0, "", "a new node is made", "none")
			} else {
				s.expect("C08", "register", r, r.success, r.succ, nu, "gives the new node")
				s.must("C08", "register", r, r.success, s.done(r, "Connect", nu, k), fmt.Sprintf("the node is linked to class %d", c))
				n := 0
				for _, ev := range r.log {
					if ev.kind == "Connect" && feasible(ev.guard) {
						n++
						st := Held
						if ev.args[0] != nu || ev.args[1] != k {
							st = s.miss(r, ev.args[0], ev.args[1])
						}
						s.evOb("C08", "register", r, ev, st, evText(ev), "linked to something else")
					}
				}
			}
		}
		if r := root(s, "class.Entity.Is"+name); r != nil {
			X := tOf(mkSym("n"))
			if r.succ.k != KBool {
				s.ob("C08", "test", r, Undecided, 0, "", "the class test", r.succ.String())
			} else {
				e := cmpEQint(first(X), k)
				s.must("C08", "test", r, r.success, C.ite(r.succ.b, e, C.not(e)), fmt.Sprintf("true exactly for nodes of class %d", c))
				s.must("C08 C17", "test", r, r.success, single(X), "a node has exactly one class")
			}
			s.noSpurious("C08", r.name, single(X))
		}
	}
	if r := root(s, "class.Entity.GetAllBits"); r != nil {
		got := prune(s.e.content(r.succ, r.st), r.success)
		st := Held
		if got != sOf(mkInt(1)) {
			st = s.miss(r, got)
		}
		s.ob("C08 C20", "all-bits", r, st, 0, "", "gives all nodes of class 1", got.String())
	}
	// entities are of the class of their layer
	for c := 2; c <= 5; c++ {
		if r := root(s, layers[c]+".Provide"); r != nil {
			for _, m := range s.madeBy(r) {
				st := Held
				if m.cls != c {
					st = Violated
				}
				s.evOb("C08", "class", r, m.ev, st, evText(m.ev), "registered with the class of another kind")
			}
		}
	}
	// every new entity has one class
	s.each(func(r *Root) {
		for i, a := range s.madeBy(r) {
			for _, b := range s.madeBy(r)[i+1:] {
				if a.base == b.base && feasible(C.and(a.guard, b.guard)) && a.cls != b.cls {
					s.evOb("C08", "one-class", r, b.ev, Violated, evText(b.ev), "registered with two classes")
				}
			}
			if a.loops == nil {
				g := C.and(r.success, a.guard)
				s.must("C08", "registered", r, g, a.guard, fmt.Sprintf("%s %s is registered", layers[a.cls], a.base))
			}
		}
	})
	// the class nodes
	r := root(s, "class.ProvideEntity")
	if r == nil {
		return
	}
	var has *Term
	for _, ev := range r.log {
		if ev.kind == "Has" && ev.args[0] == mkInt(1) {
			has = ev.res
		}
	}
	var cs []*Event
	for _, ev := range r.log {
		if ev.kind == "Create" {
			cs = append(cs, ev)
		}
	}
	st, why := Held, ""
	if has == nil {
		st, why = s.miss(r), "the storage is not asked for the first node"
	} else if len(cs) != 8 {
		st, why = s.miss(r), fmt.Sprintf("%d nodes are made", len(cs))
	} else {
		g := C.and(r.success, C.not(asBool(has)))
		for i, ev := range cs {
			k := int64(i + 1)
			if !entails(g, allOf(ev.guard, ev.ok, cmpEQint(ev.res, mkInt(k)))) {
				st, why = Violated, fmt.Sprintf("node %d is not checked to be class %d", k, k)
			}
			if feasible(C.and(ev.guard, asBool(has))) {
				st, why = Violated, "class nodes are made although there are some"
			}
		}
	}
	s.ob("C08 C09", "class-nodes", r, st, 0, "", "the classes are nodes 1 to 8, made only in an empty storage", why)
	if has != nil && len(cs) == 8 {
		numbered := True
		for i, ev := range cs {
			numbered = C.and(numbered, C.or(C.not(ev.guard), cmpEQint(ev.res, mkInt(int64(i+1)))))
		}
		s.noSpuriousIn("C08 C09", r, C.or(asBool(has), numbered))
		// chained in their order
		g := C.and(r.success, C.not(asBool(has)))
		for _, ev := range r.log {
			if ev.kind == "SetReference" && feasible(C.and(ev.guard, r.success)) {
				st, why := Held, ""
				a, b := ev.args[0], ev.args[1]
				h := allOf(ev.guard, ev.ok, r.success)
				if !entails(h, cmpEQint(b, addc(a, 1))) {
					st, why = s.miss(r, a, b), "the next class is linked from another one"
				}
				s.evOb("C21", "class-chain", r, ev, st, evText(ev), why)
			}
		}
		for k := int64(1); k < 8; k++ {
			c := False
			for _, ev := range r.log {
				if ev.kind == "SetReference" {
					c = C.or(c, allOf(ev.guard, ev.ok, cmpEQint(ev.args[0], mkInt(k)), cmpEQint(ev.args[1], mkInt(k+1))))
				}
			}
			s.must("C21", "class-chain", r, g, c, fmt.Sprintf("class %d leads to class %d", k, k+1))
		}
	}
	// the same classes in every graph
	for _, n := range []string{"class.ProvideEntity again", "class.ProvideEntity after a failure"} {
		if q := root(s, n); q != nil {
			x := Held
			if !feasible(q.success) {
				x = Violated
			} else if q.succ != r.succ && !entails(q.success, equal(prune(q.succ, q.success), prune(r.succ, r.success))) {
				x = s.miss(q, q.succ)
			}
			s.ob("C08 C09", "same-classes", q, x, 0, "", "the classes are the same at every use", q.succ.String())
		}
	}
	bad := ""
	if x := prune(r.succ, r.success); len(collect(x, func(t *Term) bool { return t.k == KGate || t.k == KSym && t != s.e.S })) > 0 {
		bad = x.String()
	}
	x := Held
	if bad != "" {
		x = s.miss(r, r.succ)
	}
	s.ob("C08 C09", "fixed-classes", r, x, 0, "", "the identifiers of the classes do not depend on the storage", bad)
}

// ---- C20 bits, C09

func (s *Spec) bits() {
	S1 := sOf(mkInt(1))
	x, y := seqIdx(S1, mkInt(0)), seqIdx(S1, mkInt(1))
	has := lenGE(S1, 1)
	for _, n := range []string{"bit.Provide", "bit.Fetch", "bit.Provide again", "bit.Fetch again", "bit.Provide after a failure", "bit.Fetch after a failure"} {
		r := root(s, n)
		if r == nil {
			continue
		}
		props := "C20"
		if strings.Contains(n, " ") {
			props = "C20 C09"
		}
		success := r.success
		if pr := root(s, "bit.Provide"); strings.HasSuffix(n, "again") && pr != nil {
			success = C.and(success, pr.success) // the run that filled the cache
		}
		got := prune(r.succ, success)
		cls, chr, val := s.bitFields(got)
		if cls == nil || val == nil {
			s.ob(props, "bit", r, s.miss(r, got), 0, "", "gives a bit", got.String())
			continue
		}
		src := r
		if strings.HasSuffix(n, "again") {
			src = root(s, "bit.Provide") // the run that filled the cache
		}
		var nu []*Term
		for _, ev := range src.log {
			if ev.kind == "Connect" && ev.args[1] == mkInt(1) {
				nu = append(nu, ev.args[0])
			}
		}
		if len(nu) != 2 {
			s.ob(props, "bit", r, s.miss(src), 0, "", "a new storage gets two bits", fmt.Sprintf("%d are made", len(nu)))
			continue
		}
		check := func(g B, a, b *Term, what string) {
			one := ite(cmpGE(a, b), a, b)
			zero := ite(cmpGE(a, b), b, a)
			if strings.HasPrefix(n, "bit.Provide") {
				v := termAtom(mkSym("v"))
				s.expect(props, "bit", r, g, cls, ite(v, one, zero), what+": the larger node is the one bit, the smaller the zero bit")
				s.must(props, "bit-value", r, g, C.ite(val.b, v, C.not(v)), what+": the bit has the asked value")
			} else {
				id := nx(mkSym("bit id"), -1)
				// the nodes differ, so only one of them can be the asked one
				g = C.and(g, C.not(C.and(cmpEQint(id, a), cmpEQint(id, b))))
				s.expect(props, "bit", r, g, cls, id, what+": the bit has the asked identity")
				e := cmpEQint(id, one)
				s.must(props, "bit-value", r, g, C.ite(val.b, e, C.not(e)), what+": the larger node is the one bit, the smaller the zero bit")
				s.must(props, "bit-known", r, g, C.or(cmpEQint(id, a), cmpEQint(id, b)), what+": any other identifier is an error")
			}
		}
		if nu[0] != nil {
			diff := C.not(cmpEQint(x, y))
			check(allOf(success, has, diff), x, y, "bits read from the storage")
			check(allOf(success, C.not(has), C.not(cmpEQint(nu[0], nu[1]))), nu[0], nu[1], "bits made in an empty storage")
		}
		if chr != nil {
			s.expect(props+" C03", "bit-nodes", r, success, chr, nx(cls, 1), "the character node follows the class node")
		}
		if !strings.HasSuffix(n, "again") {
			s.must(props, "two-bits", r, C.and(r.success, has), C.and(lenGE(S1, 2), C.not(lenGE(S1, 3))), "any number of bits but two is an error")
			asked := False
			for _, ev := range r.log {
				if ev.kind == "ReadSources" && ev.args[0] == mkInt(1) {
					asked = C.or(asked, C.and(ev.guard, ev.ok))
				}
			}
			s.must(props+" C09", "bits-read", r, r.success, asked, "the bits are read from the storage")
			for _, ev := range r.log {
				if writeKinds[ev.kind] && ev.kind != "call" {
					st := Held
					if feasible(C.and(ev.guard, has)) {
						st = Violated
					}
					s.evOb("C09 C20", "bits-made", r, ev, st, evText(ev), "bits are made although there are some")
				}
			}
			for i := range nu {
				a := nu[i]
				s.must(props+" C03", "bit-chain", r, allOf(r.success, C.not(has)), s.done(r, "SetReference", a, nx(a, 1)), "a new bit has its character node")
			}
			g := C.and(has, C.and(lenGE(S1, 2), C.not(lenGE(S1, 3))))
			if strings.HasPrefix(n, "bit.Fetch") {
				id := nx(mkSym("bit id"), -1)
				g = allOf(g, C.or(cmpEQint(id, x), cmpEQint(id, y)))
			}
			s.noSpuriousIn(props, r, g)
			if strings.HasPrefix(n, "bit.Provide") {
				s.noSpuriousIn(props, r, C.not(has))
			}
		}
	}
	// a second use gives the same as the first
	for _, n := range []string{"bit.Provide", "bit.Fetch"} {
		a, b := root(s, n), root(s, n+" again")
		if a == nil || b == nil || n == "bit.Fetch" {
			continue
		}
		g := C.and(a.success, b.success)
		st, why := Held, ""
		if a.succ != b.succ && !entails(g, equal(prune(a.succ, g), prune(b.succ, g))) {
			st, why = s.miss(b, a.succ, b.succ), fmt.Sprintf("%s, then %s", a.succ, b.succ)
		}
		s.ob("C09", "same-bits", b, st, 0, "", "the bits are the same at every use", why)
	}
}

func (s *Spec) noSpuriousIn(props string, r *Root, assume B) {
	g := allOk(allOf(r.g, C.not(r.success), assume))
	st, why := Held, ""
	if feasible(g) {
		st, why = Violated, "an error is reported when "+showB(g)
		if hasUnknownB(g) || s.undecidedIn(r) {
			st = Undecided
		}
	}
	s.ob(props, "no-spurious-error", r, st, 0, "", "no error on a complete store", why)
}

// bitFields finds class node, character node and value of a bit.
func (s *Spec) bitFields(t *Term) (cls, chr, val *Term) {
	t = unbox(t)
	if t.k != KStruct {
		return
	}
	u, ok := t.t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i, a := range t.a {
		b, ok := u.Field(i).Type().Underlying().(*types.Basic)
		if !ok {
			continue
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			val = mkBool(asBool(a))
		case b.Info()&types.IsInteger != 0:
			switch s.e.role(a) {
			case Role{1, 0}:
				cls = a
			case Role{1, 1}:
				chr = a
			}
		}
	}
	return
}
