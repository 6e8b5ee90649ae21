package main

// ---- nodes that did not exist before the operation

// fresh tells whether t is a node the operation made, or one chained to it.
func (e *Eng) fresh(t *Term) bool {
	b, _ := baseOff(t)
	return b.k == KSym && isNew(e, b)
}

// noLinks tells whether the list of links of a node is empty because the node
// was made by the operation, which has not linked it yet.
func (e *Eng) noLinks(list *Term) bool {
	return list.k == KApp && (list.s == "T" || list.s == "S") && list.n == 0 && len(list.a) == 1 && e.fresh(list.a[0])
}

// neverNode tells whether t is not the new node s because t was read from
// lists in which nothing of the operation has been put.
func (e *Eng) neverNode(s, t *Term, seen map[*Term]bool) bool {
	if t.k == KGate {
		for _, l := range leaves(t) {
			if !e.neverNode(s, l.t, seen) {
				return false
			}
		}
		return true
	}
	b, off := baseOff(t)
	if off != 0 {
		s = mkNext(s, -off)
	}
	switch {
	case b.k == KSym:
		return !isNew(e, b) && e.role(b).valid()
	case b.k == KApp && b.s == "idx" && b.a[0].k == KApp && (b.a[0].s == "T" || b.a[0].s == "S") && b.a[0].n == 0:
		end := 1
		if b.a[0].s == "S" {
			end = 0
		}
		for _, ev := range e.log {
			if ev.kind == "Connect" {
				if o := ev.args[1-end]; e.fresh(o) && e.neverNode(o, b.a[0].a[0], seen) {
					continue
				}
				for _, l := range leaves(ev.args[end]) {
					if l.t == s || hasUnknown(l.t) {
						return false
					}
				}
			}
		}
		return true
	case b.k == KMu:
		if seen[b] {
			return true
		}
		seen[b] = true
		i := b.loop.mus[b]
		return i != nil && i.init != nil && i.next != nil && e.neverNode(s, i.init, seen) && e.neverNode(s, i.next, seen)
	}
	return false
}

// sameNode compares identifiers.
func (e *Eng) sameNode(a, b *Term) B {
	r := False
	for _, x := range leaves(a) {
		for _, y := range leaves(b) {
			g := C.and(x.g, y.g)
			if g == False || e.fresh(x.t) && e.neverNode(x.t, y.t, map[*Term]bool{}) || e.fresh(y.t) && e.neverNode(y.t, x.t, map[*Term]bool{}) {
				continue
			}
			r = C.or(r, C.and(g, mkEq(x.t, y.t)))
		}
	}
	return r
}

// already is the condition, as far as g tells, that the link is there.
func already(g B, a, b *Term) B {
	r := False
	for v := range suppOf(g) {
		t := C.atoms[v].t
		if t == nil {
			continue
		}
		for _, x := range collect(t, func(x *Term) bool { return x.k == KApp && len(x.a) == 2 && (x.s == "idx" || x.s == "has") }) {
			end := b
			switch l := x.a[0]; {
			case l.k == KApp && l.s == "T" && l.a[0] == a:
			case l.k == KApp && l.s == "S" && l.a[0] == b:
				end = a
			default:
				continue
			}
			if x.s == "idx" {
				r = C.or(r, mkEq(x, end))
			} else if x.a[1] == end {
				r = C.or(r, termAtom(x))
			}
		}
	}
	return r
}
