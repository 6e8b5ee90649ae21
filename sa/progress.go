package main

import (
	"fmt"
)

// ---- C25 every operation ends

// progress: every loop of every operation is bounded by a list or a number,
// or walks along one kind of link. A loop that repeats a turn which changes
// nothing is reported where it is found (stuck).
func (s *Spec) progress() {
	s.each(func(r *Root) {
		n := 0
		for _, L := range r.loops {
			if L.back == False || !feasible(L.back) {
				continue
			}
			n++
			st, what := bounded(L)
			s.ob("C25", "ends", r, st, L.pos, shortFn(L.fn), what, what)
		}
		if n == 0 {
			s.ob("C25", "ends", r, Held, 0, "", "no loop", "")
		}
	})
}

// bounded tells why the loop ends.
func bounded(L *Loop) (Status, string) {
	if L.n != nil {
		return Held, fmt.Sprintf("ends after %s turns", L.n)
	}
	if counted(L) {
		return Held, "goes on only while a count is below its limit"
	}
	for mu, i := range L.mus {
		next := prune(i.next, L.back)
		if k := walkKind(mu, next); k != "" {
			return Held, "walks along the " + k
		}
		if shrinks(L, mu, next) {
			return Held, "goes on with a smaller number"
		}
	}
	return Undecided, "what bounds the turns of the loop is not known"
}

// counted: the loop goes on only while the number of turns is below something
// that stays as it is.
func counted(L *Loop) bool {
	kappa := mkIter(L)
	for v := range suppOf(L.back) {
		a := C.atoms[v]
		if a.kind != "ge" || a.t == nil {
			continue
		}
		c, m := linParts(a.t)
		_ = c
		co := m[kappa]
		if co == 0 {
			continue
		}
		rest := true
		for t := range m {
			if t != kappa && mentionsLoop(t, L) {
				rest = false
			}
		}
		at := C.bdd.atom(v)
		if rest && (co < 0 && entails(L.back, at) || co > 0 && entails(L.back, C.not(at))) {
			return true
		}
	}
	return false
}

func mentionsTerm(t, x *Term) bool {
	return len(collect(t, func(y *Term) bool { return y == x })) > 0
}

// walkKind: the next node is reached from the present one by one kind of link.
func walkKind(mu, next *Term) string {
	kind := ""
	for _, l := range leaves(next) {
		k := ""
		for _, x := range collect(l.t, func(t *Term) bool { return t.k == KApp && (t.s == "T" || t.s == "S") && mentionsTerm(t.a[0], mu) }) {
			b, off := baseOff(x.a[0])
			if b != mu {
				return ""
			}
			k = fmt.Sprintf("%s of node %d", map[string]string{"T": "targets", "S": "sources"}[x.s], off)
		}
		if k == "" || kind != "" && k != kind {
			return ""
		}
		kind = k
	}
	return kind
}

// shrinks: a positive number is halved.
func shrinks(L *Loop, mu, next *Term) bool {
	if next.k != KApp || next.s != "op>>" && next.s != "op/" || next.a[0] != mu || next.a[1].k != KInt {
		return false
	}
	by := next.a[1].n
	return (next.s == "op>>" && by >= 1 || next.s == "op/" && by >= 2) &&
		(entails(L.back, cmpGE(mu, mkInt(1))) || C.nonneg[mu] && entails(L.back, C.not(cmpEQint(mu, mkInt(0)))))
}
