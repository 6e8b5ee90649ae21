package main

import "strings"

// A result that is put together along a chain is right if, at every point, it
// has the parts of all elements from the start up to a position, and the walk
// ends where there is no link. This is decided by induction over the loops
// that move the position, whatever they carry and wherever they are left.

type collector struct {
	ws      *walkSpec
	prepend bool
	between string            // texts put in front: a separator before all but the first
	sep     *Term             // every element is one part followed by sep (text joined at the end)
	render  func(*Term) *Term // what is made of an element of the list afterwards
	assumed map[[3]*Term]bool
	fuel    int
}

// mapped recognises f(q0), f(q1), ... for all elements of a sequence q, in a
// sequence of n terms body.
func mapped(n, body *Term, depth int) (*Term, func(*Term) *Term) {
	bound := mkBound(depth)
	for _, x := range collect(body, func(t *Term) bool { return t.k == KApp && t.s == "idx" && len(t.a) == 2 && t.a[1] == bound }) {
		q := x.a[0]
		if seqLen(q) != n || contains(q, bound) {
			continue
		}
		hole := mkSym("element of the list")
		b := subst1(body, x, hole)
		if contains(b, bound) {
			continue
		}
		return q, func(el *Term) *Term { return subst1(b, hole, el) }
	}
	return nil, nil
}

// cut takes the parts of the element at w off the end (or the front).
func (c *collector) cut(seq, w *Term) (*Term, bool) {
	ch := c.ws.chunk(w)
	if c.render != nil && c.ws.text {
		return c.cutParts(seq, []*Term{mkText(ch...)}, false)
	}
	if c.sep != nil {
		parts := mkText(ch...)
		ps := []*Term{parts}
		if parts.k == KText {
			ps = parts.a
		}
		for _, el := range c.elements(ps) {
			if x, ok := c.cutParts(seq, el, false); ok {
				return x, true
			}
		}
		return nil, false
	}
	if c.ws.text && c.prepend {
		qs := []*Term{seq}
		if seq.k == KText {
			qs = seq.a
		}
		if len(ch) != 1 || qs[0] != ch[0] {
			return nil, false
		}
		if w == c.ws.start {
			return mkText(qs[1:]...), len(qs) == 1
		}
		if c.between == "" {
			return mkText(qs[1:]...), true
		}
		if len(qs) < 2 || qs[1].k != KStr || !strings.HasPrefix(qs[1].s, c.between) {
			return nil, false
		}
		return mkText(append([]*Term{mkStr(qs[1].s[len(c.between):])}, qs[2:]...)...), true
	}
	if c.ws.text {
		t := mkText(ch...)
		ps := []*Term{t}
		if t.k == KText {
			ps = t.a
		}
		qs := []*Term{seq}
		if seq.k == KText {
			qs = seq.a
		}
		k := len(qs) - len(ps)
		if k < 0 {
			return nil, false
		}
		for i, p := range ps {
			if qs[k+i] != p {
				return nil, false
			}
		}
		return mkText(qs[:k]...), true
	}
	return c.cutParts(seq, ch, c.prepend)
}

// elements gives the lists of elements that, each followed by the separator,
// make up the text.
func (c *collector) elements(ps []*Term) [][]*Term {
	var out [][]*Term
	if c.sep == mkStr("") {
		return [][]*Term{{mkText(ps...)}}
	}
	// split at every separator, or at the last one only
	var el, cur []*Term
	for _, p := range ps {
		if p == c.sep {
			el = append(el, mkText(cur...))
			cur = nil
			continue
		}
		cur = append(cur, p)
	}
	if len(cur) > 0 || len(el) == 0 {
		return nil
	}
	out = append(out, el)
	if len(el) > 1 {
		out = append(out, []*Term{mkText(ps[:len(ps)-1]...)})
	}
	return out
}

func (c *collector) cutParts(seq *Term, ch []*Term, front bool) (*Term, bool) {
	ps := seqParts(seq)
	i := len(ps) - 1
	if front {
		i = 0
	}
	p := ps[i]
	if p.k != KArray || len(p.a) < len(ch) {
		return nil, false
	}
	k := len(p.a) - len(ch)
	if front {
		k = 0
	}
	for j, x := range ch {
		el := p.a[k+j]
		if c.render != nil {
			el = c.render(el)
		}
		if el != x {
			return nil, false
		}
	}
	rest := append(append([]*Term{}, p.a[:k]...), p.a[k+len(ch):]...)
	np := append([]*Term{}, ps[:i]...)
	if len(rest) > 0 {
		np = append(np, mkArray(rest))
	}
	np = append(np, ps[i+1:]...)
	if len(np) == 0 {
		return mkArray(nil), true
	}
	return mkConcat(np...), true
}

func (c *collector) empty(t *Term) bool {
	if c.ws.text && c.sep == nil && c.render == nil {
		return t == mkStr("")
	}
	n, ok := isConstLen(t)
	return ok && n == 0
}

// covers: seq has the parts of all elements from the start up to w, which is
// included or not.
func (c *collector) covers(seq, w *Term, incl bool, g B) bool {
	if c.fuel--; c.fuel < 0 {
		return false
	}
	if !feasible(g) {
		return true
	}
	seq, w = prune(seq, g), prune(w, g)
	for _, t := range []*Term{seq, w} {
		if t.k != KGate {
			continue
		}
		for _, l := range leaves(t) {
			lg := C.and(g, l.g)
			if !feasible(lg) {
				continue
			}
			ok := false
			if t == seq {
				ok = c.covers(l.t, w, incl, lg)
			} else {
				ok = c.covers(seq, l.t, incl, lg)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if incl {
		if rest, ok := c.cut(seq, w); ok {
			return c.covers(rest, w, false, g)
		}
		if w != c.ws.start && c.between != "" && c.prepend && entails(g, sameTerm(w, c.ws.start)) {
			return c.covers(seq, c.ws.start, true, g)
		}
	} else {
		if c.empty(seq) {
			return entails(g, sameTerm(w, c.ws.start))
		}
		if y := c.before(w); y != nil && entails(g, lenGE(c.ws.link(y), 1)) && c.covers(seq, y, true, g) {
			return true
		}
	}
	// what a loop carries
	mu := seq
	if c.ws.text && seq.k == KText {
		if mu = seq.a[0]; c.prepend {
			mu = seq.a[len(seq.a)-1]
		}
	}
	if mu.k != KMu || mu.loop.mus[mu] == nil || len(collect(seq, func(t *Term) bool { return t.k == KMu })) != 1 {
		return false
	}
	key := [3]*Term{seq, w, mkInt(b2i(incl))}
	if c.assumed[key] {
		return true
	}
	saved := map[[3]*Term]bool{}
	for k := range c.assumed {
		saved[k] = true
	}
	c.assumed[key] = true
	L := mu.loop
	init, next := map[*Term]*Term{}, map[*Term]*Term{}
	for m, i := range L.mus {
		init[m], next[m] = prune(i.init, L.entry), prune(i.next, L.back)
	}
	if c.covers(substT(seq, init), substT(w, init), incl, L.entry) && c.covers(substT(seq, next), substT(w, next), incl, L.back) {
		return true
	}
	c.assumed = saved
	return false
}

// before: the position the link to w is followed from.
func (c *collector) before(w *Term) *Term {
	b, off := baseOff(w)
	if off != -2 || b.k != KApp || b.s != "idx" || b.a[1] != mkInt(0) || b.a[0].k != KApp || len(b.a[0].a) != 1 {
		return nil
	}
	if y := nx(b.a[0].a[0], -2); c.ws.step(y) == w {
		return y
	}
	return nil
}

// collects decides a walk by induction.
func (s *Spec) collects(r *Root, ws *walkSpec, E *Term) bool {
	cands := []*Term{ws.start}
	for _, L := range r.loops {
		for m, i := range L.mus {
			if ro := s.e.role(m); ro.valid() && !looksSeq(i.init) {
				w := nx(m, -int64(ro.idx))
				cands = append(cands, w, ws.step(w))
			}
		}
	}
	for _, l := range leaves(prune(E, r.success)) {
		g := C.and(r.success, l.g)
		if !feasible(g) {
			continue
		}
		ok := false
		for _, w := range cands {
			if !entails(g, C.not(lenGE(ws.link(w), 1))) {
				continue
			}
			t := prune(l.t, g)
			if ws.text && ws.front {
				c := &collector{ws: ws, prepend: true, between: ws.between, assumed: map[[3]*Term]bool{}, fuel: 200}
				if c.covers(t, w, true, g) {
					ok = true
					break
				}
				continue
			}
			c := &collector{ws: ws, prepend: !ws.text, assumed: map[[3]*Term]bool{}, fuel: 200}
			if t.k == KApp && t.s == "rev" {
				c.prepend = false
				t = t.a[0]
			}
			if ws.text {
				// joined at the end
				ps := []*Term{t}
				if t.k == KText {
					ps = t.a
				}
				if ps[0].k == KApp && ps[0].s == "join" && ps[0].a[1].k == KStr {
					c.sep = ps[0].a[1]
					t = ps[0].a[0]
					if mkText(ps[1:]...) != c.sep {
						continue
					}
					if t.k == KApp && t.s == "map" {
						if q, f := mapped(t.a[0], t.a[1], int(t.n)); q != nil {
							t, c.render = q, func(el *Term) *Term { return mkText(f(el), c.sep) }
						}
					}
				} else if t.k == KApp && t.s == "joinmap" {
					if q, f := mapped(t.a[0], t.a[1], int(t.n)); q != nil {
						t, c.render = q, f
					}
				}
			} else if t.k == KApp && t.s == "map" {
				if q, f := mapped(t.a[0], t.a[1], int(t.n)); q != nil {
					t, c.render = q, f
					if t.k == KApp && t.s == "rev" {
						c.prepend = !c.prepend
						t = t.a[0]
					}
				}
			}
			if c.covers(t, w, true, g) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
