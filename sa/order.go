package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---- C17 a link that must be single is never guessed

func (s *Spec) singles() {
	s.each(func(r *Root) {
		if strings.Contains(r.name, " again") {
			return // what was remembered was looked at when it was read
		}
		seen := map[string]bool{}
		use := func(t *Term, g B, ev *Event, L *Loop, what string) {
			s.idxIn(r, t, g, 0, func(x *Term, g B) {
				X, k := x.a[0], x.a[1]
				kind := s.linkKind(X)
				if kind == "" && !strings.HasPrefix(r.name, "class.Entity.Is") {
					return
				}
				st, why := Held, ""
				switch {
				case entails(g, C.and(single(X), cmpEQint(k, mkInt(0)))):
				case kind == "S8.3" && k == mkInt(0):
					// the first child, where the walk along the children starts
				case kind == "S0.1" && k.k == KInt && entails(g, C.and(lenGE(X, 2), C.not(lenGE(X, 3)))):
				case many[kind] && k.k != KInt:
					// one after the other
				case k.k == KInt:
					st, why = Violated, fmt.Sprintf("%s is followed although there may be several: %s", x, X)
					if hasUnknownB(g) || hasUnknown(x) {
						st = Undecided
					}
				case entails(g, C.not(lenGE(X, 2))):
				default:
					st, why = Undecided, fmt.Sprintf("%s", x)
				}
				key := fmt.Sprintf("%d %v %s", x.id, st, what)
				if ev != nil {
					key += fmt.Sprint(ev.pos)
				}
				if seen[key] {
					return
				}
				seen[key] = true
				if ev != nil {
					s.evOb("C17", "single", r, ev, st, fmt.Sprintf("%s in %s", x, evText(ev)), why)
				} else if L != nil {
					s.ob("C17", "single", r, st, L.pos, shortFn(L.fn), fmt.Sprintf("%s in %s", x, what), why)
				} else {
					s.ob("C17", "single", r, st, 0, "", fmt.Sprintf("%s in %s", x, what), why)
				}
			})
		}
		for _, ev := range r.log {
			for _, a := range ev.args {
				use(a, ev.guard, ev, nil, "")
			}
		}
		if feasible(r.success) {
			use(r.succ, r.success, nil, nil, "the result")
		}
		for _, L := range r.loops {
			var ms []*Term
			for m := range L.mus {
				ms = append(ms, m)
			}
			sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
			for _, m := range ms {
				use(L.mus[m].init, L.entry, nil, L, "the start of a loop")
				use(L.mus[m].next, L.back, nil, L, "the next turn of a loop")
			}
		}
	})
}

// idxIn finds the elements of link lists in a value, with the condition
// under which they are used.
func (s *Spec) idxIn(r *Root, t *Term, g B, d int, f func(x *Term, g B)) {
	if t == nil || d > 60 {
		return
	}
	switch t.k {
	case KGate:
		for i, x := range t.a {
			if h := C.and(g, t.g[i]); feasible(h) {
				s.idxIn(r, x, h, d+1, f)
			}
		}
		return
	case KApp:
		switch t.s {
		case "map", "filter", "flat", "unknown", "bind":
			return
		case "idx":
			if x := t.a[0]; x.k == KApp && (x.s == "T" || x.s == "S") && len(x.a) == 1 {
				f(t, g)
			}
		}
	case KPtr, KSlice, KFunc, KMu:
		return
	}
	for _, a := range t.a {
		s.idxIn(r, a, g, d+1, f)
	}
}

// ---- C18 nothing half-built in reach

// public operations and what they use of other layers
func publicRoot(n string) bool {
	return !strings.Contains(n, ".Entity.") && !strings.Contains(n, "ReadEntityBy") && !strings.HasSuffix(n, ".CreateEntity") && !strings.HasPrefix(n, "fact.Aggregate.")
}

func (s *Spec) followed() {
	s.each(func(r *Root) {
		if !publicRoot(r.name) {
			return
		}
		for _, ev := range r.log {
			if !feasible(ev.guard) {
				continue
			}
			// lists that lead somewhere, not only tell that a link is there
			for _, a := range ev.args {
				for _, x := range collect(a, func(x *Term) bool { return x.k == KApp && len(x.a) == 1 && (x.s == "T" || x.s == "S") }) {
					usedIn := s.folT
					if x.s == "S" {
						usedIn = s.folS
					}
					for _, l := range leaves(x.a[0]) {
						usedIn[s.e.role(l.t)] = true
					}
				}
			}
		}
	})
	// whether a link is there decides about nothing for pairs of phrases:
	// they are found only when both links are there
	delete(s.folT, noRole)
	delete(s.folS, noRole)
}

func (s *Spec) publication() {
	s.followed()
	s.each(func(r *Root) {
		if !publicRoot(r.name) || strings.Contains(r.name, " again") || strings.Contains(r.name, " after ") {
			return
		}
		if r.name == "class.ProvideEntity" {
			s.classPublication(r)
			return
		}
		made := map[*Term]*Made{}
		for _, m := range s.madeBy(r) {
			made[m.base] = m
		}
		if len(made) == 0 {
			return
		}
		mk := func(t *Term) *Made {
			b, _ := baseOff(t)
			return made[b]
		}
		// any of the entities a gated node may belong to
		mks := func(t *Term, x *Made, g B) bool {
			for _, l := range leaves(t) {
				if mk(l.t) == x && feasible(C.and(g, l.g)) {
					return true
				}
			}
			return false
		}
		// new entities that lead to each other
		// and the moment from which each is in reach
		reach := func(m *Made, from int) map[*Made]int {
			out := map[*Made]int{m: from}
			at := func(y, x *Made, seq int) bool {
				if seq < out[x] {
					seq = out[x]
				}
				if t, ok := out[y]; ok && t <= seq {
					return false
				}
				out[y] = seq
				return true
			}
			for ch := true; ch; {
				ch = false
				for _, ev := range r.log {
					if ev.kind != "Connect" || len(ev.args) != 2 {
						continue
					}
					a, b := mk(ev.args[0]), mk(ev.args[1])
					if a == nil || b == nil || a == b {
						continue
					}
					_, ia := out[a]
					_, ib := out[b]
					if ia && s.folT[s.e.role(ev.args[0])] && at(b, a, ev.seq) {
						ch = true
					}
					if ib && s.folS[s.e.role(ev.args[1])] && at(a, b, ev.seq) {
						ch = true
					}
				}
			}
			return out
		}
		// a place in a row, from which moving on leads to the new entity
		chain := func(P *Event) bool {
			for _, l := range leaves(P.args[1]) {
				if ro := s.e.role(l.t); ro.cls >= 6 && ro.idx == 2 {
					return true
				}
			}
			return false
		}
		n := 0
		for _, P := range r.log {
			if P.kind != "Connect" {
				continue
			}
			var pub []*Made
			for _, a := range leaves(P.args[0]) {
				for _, b := range leaves(P.args[1]) {
					if !feasible(allOf(P.guard, a.g, b.g)) {
						continue
					}
					ma, mb := mk(a.t), mk(b.t)
					if mb != nil && ma == nil && s.folT[s.e.role(a.t)] {
						pub = append(pub, mb)
					}
					if ma != nil && mb == nil && s.folS[s.e.role(b.t)] {
						pub = append(pub, ma)
					}
				}
			}
			for _, m := range pub {
				half := m.cls == 5 && s.laterPhrase(r, P, m, mk) // found only when both links are there
				if !half {
					n++
				}
				st, why, key := Held, "", ""
				for x, since := range reach(m, P.seq) {
					if half && x != m {
						continue
					}
					for _, ev := range r.log {
						if ev.seq <= since || !feasible(C.and(ev.guard, P.guard)) {
							continue
						}
						switch ev.kind {
						case "SetReference":
							if mks(ev.args[0], x, C.and(ev.guard, P.guard)) {
								st, why = Violated, fmt.Sprintf("the %s is in reach before %s", layers[x.cls], evText(ev))
							}
						case "Connect":
							a, b := mk(ev.args[0]), mk(ev.args[1])
							if half || a != x && b != x || s.duplicate(r, ev) {
								continue
							}
							if ro := s.e.role(ev.args[1]); ro.cls >= 6 && ro.idx == 2 {
								continue // its place among its siblings
							}
							if a == x && b != nil && b.cls == x.cls && x.cls < 5 {
								continue // a tree grows
							}
							if ev.args[1].k == KInt && x == a || s.folT[s.e.role(ev.args[0])] || s.folS[s.e.role(ev.args[1])] {
								if x == m && s.pubEvent(ev, m, mk) && ev.args[1].k != KInt && !chain(P) {
									continue // another place that leads to it
								}
								st, why = Violated, fmt.Sprintf("the %s is in reach before %s", layers[x.cls], evText(ev))
							}
						}
					}
				}
				if half && st == Held {
					continue
				}
				key = layers[m.cls]
				if m.cls == 1 {
					key = "bit-registered-before-complete"
				}
				o := len(s.obs)
				s.evOb("C18", "complete-before-reach", r, P, st, evText(P), why)
				s.obs[o].Key = key
			}
		}
		if n == 0 {
			s.ob("C18", "complete-before-reach", r, Held, 0, "", "nothing new is linked from what existed before", "")
		}
	})
}

// pubEvent: the link leads from something that existed to the new entity.
func (s *Spec) pubEvent(ev *Event, m *Made, mk func(*Term) *Made) bool {
	a, b := mk(ev.args[0]), mk(ev.args[1])
	return b == m && a == nil || a == m && b == nil && s.folS[s.e.role(ev.args[1])] && !s.folT[s.e.role(ev.args[0])]
}

func (s *Spec) laterPhrase(r *Root, P *Event, m *Made, mk func(*Term) *Made) bool {
	for _, ev := range r.log {
		if ev.kind != "Connect" || ev.seq <= P.seq || !feasible(C.and(ev.guard, P.guard)) {
			continue
		}
		a, b := ev.args[0], ev.args[1]
		if mk(a) == m && s.e.role(b) == (Role{4, 3}) || mk(b) == m && s.e.role(a) == (Role{4, 3}) {
			return true
		}
	}
	return false
}

// duplicate: the same link was made before.
func (s *Spec) duplicate(r *Root, ev *Event) bool {
	for _, x := range r.log {
		if x.seq < ev.seq && x.kind == "Connect" && x.args[0] == ev.args[0] && x.args[1] == ev.args[1] && entails(ev.guard, C.and(x.guard, x.ok)) {
			return true
		}
	}
	return false
}

// classPublication: the classes count as there from the first node on.
func (s *Spec) classPublication(r *Root) {
	var firstCreate *Event
	after := 0
	for _, ev := range r.log {
		if ev.kind == "Create" && firstCreate == nil {
			firstCreate = ev
			continue
		}
		if firstCreate != nil && writeKinds[ev.kind] && ev.kind != "SetReference" {
			after++
		}
	}
	if firstCreate == nil {
		s.ob("C18", "complete-before-reach", r, s.miss(r), 0, "", "classes", "no class node is made")
		return
	}
	st, why := Held, ""
	if after > 0 {
		st, why = Violated, fmt.Sprintf("the classes count as complete from the first node on, %d more writes follow", after)
	}
	o := len(s.obs)
	s.evOb("C18", "complete-before-reach", r, firstCreate, st, evText(firstCreate), why)
	s.obs[o].Key = "classes-present-before-complete"
}
