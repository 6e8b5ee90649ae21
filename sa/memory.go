package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// What an operation keeps in memory is there for every later operation of the
// same graph. When an operation keeps something (which C09 or C10 reports),
// all operations are analysed once more with it in place: the arguments it had
// and the nodes it made are then of an earlier time. An obligation that was
// met by a new graph and is not met now is what the memory breaks.

// remembered marks the values of an earlier operation.
const remembered = " before"

// keeps are the objects made by NewGraph, or before it, that an operation
// changes.
func (s *Spec) keeps(r *Root) []int64 {
	var ch []int64
	if r.st0 == nil || r.st == nil || r.name == "NewGraph" || r.name == "init" {
		return nil
	}
	for o, c := range s.w.base(r).mem {
		n := r.st.mem[o]
		if n == nil || n == c {
			continue
		}
		if prune(r.st.resolve(n), r.success) != prune(s.w.st.resolve(c), r.success) {
			ch = append(ch, o)
		}
	}
	sort.Slice(ch, func(i, j int) bool { return ch[i] < ch[j] })
	return ch
}

// uses: a value of an earlier operation, or a kept number or text, occurs in
// what the operation does or gives.
func (w *World) uses(r *Root) bool {
	seen := map[*Term]bool{}
	var inT func(t *Term) bool
	var inB func(b B) bool
	inT = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		for _, x := range collect(t, func(q *Term) bool { return q.k == KSym || q.k == KMu }) {
			if seen[x] {
				continue
			}
			seen[x] = true
			if x.k == KSym && strings.HasSuffix(x.s, remembered) {
				return true
			}
			if x.k == KMu {
				if i := x.loop.mus[x]; i != nil && (inT(i.init) || inT(i.next)) {
					return true
				}
			}
		}
		seen[t] = true
		return false
	}
	inB = func(b B) bool {
		for v := range suppOf(b) {
			if inT(C.atoms[v].t) {
				return true
			}
		}
		return false
	}
	if inT(r.res) || inB(r.g) || inB(r.success) {
		return true
	}
	for _, ev := range r.log {
		if inB(ev.guard) {
			return true
		}
		for _, a := range ev.args {
			if inT(a) {
				return true
			}
		}
	}
	for _, i := range r.issues {
		if inB(i.guard) {
			return true
		}
	}
	return false
}

// base is the memory of a new graph, or of a new output.
func (w *World) base(r *Root) *State {
	if r.name == "Output.GetStory" && w.outputSt != nil {
		return w.outputSt
	}
	return w.st
}

// after is the memory once the operation has been carried out.
func (w *World) after(r *Root, ch []int64) *State {
	base := w.base(r)
	st := base.clone()
	ren := map[*Term]*Term{}
	old := func(t *Term) *Term {
		t = prune(r.st.resolve(t), r.success)
		for _, x := range collect(t, func(q *Term) bool { return q.k == KSym && q != w.e.S || q.k == KMu || q.k == KIter }) {
			if ren[x] != nil {
				continue
			}
			y := mkSym(x.String() + remembered)
			if ty := C.symType[x]; ty != nil {
				C.symType[y] = ty
			} else {
				C.symType[y] = types.Typ[types.Uint]
			}
			if ro := w.e.role(x); ro.valid() {
				w.e.symRole[y] = ro
			}
			ren[x] = y
		}
		return substT(t, ren)
	}
	seen := map[int64]bool{}
	// kept numbers and texts may be any, later
	var any func(was, is *Term, name string) *Term
	any = func(was, is *Term, name string) *Term {
		switch {
		case was == nil || was == is:
		case (was.k == KInt || was.k == KStr) && was != is:
			y := mkSym(name + remembered)
			C.symType[y] = types.Typ[types.Int]
			if was.k == KStr {
				C.symType[y] = types.Typ[types.String]
			}
			return y
		case was.k == KStruct && is.k == KStruct && len(was.a) == len(is.a):
			f := make([]*Term, len(is.a))
			for i := range f {
				f[i] = any(was.a[i], is.a[i], fmt.Sprintf("%s.%d", name, i))
			}
			return mkStruct(is.t, f)
		}
		return is
	}
	var put func(o int64)
	put = func(o int64) {
		if seen[o] {
			return
		}
		seen[o] = true
		c := r.st.mem[o]
		if c == nil {
			return
		}
		st.mem[o] = any(base.mem[o], old(c), fmt.Sprintf("kept%d", o))
		for _, p := range collect(st.mem[o], func(q *Term) bool { return q.k == KPtr || q.k == KSlice }) {
			if base.mem[p.n] == nil {
				put(p.n)
			}
		}
	}
	for _, o := range ch {
		put(o)
	}
	return st
}

// later applies the rules to the operations of a graph that remembers.
func (s *Spec) later() {
	type key struct{ rule, root string }
	bad := map[key]bool{}
	for _, o := range s.obs {
		if o.Status != Held {
			bad[key{o.Rule, o.Root}] = true
		}
	}
	n := 0
	for _, name := range s.w.order {
		r := s.w.roots[name]
		switch {
		case hasPrefixAny(name, "class.", "bit."), n == 6:
			continue
		}
		ch := s.keeps(r)
		if len(ch) == 0 {
			continue
		}
		n++
		e := s.e
		w2 := &World{e: e, pkgs: s.w.pkgs, graph: s.w.graph, roots: map[string]*Root{}, shapes: map[string]*Boundary{}}
		w2.st = s.w.after(r, ch)
		if s.w.base(r) != s.w.st {
			w2.kept, w2.output, w2.st = w2.st, s.w.output, s.w.st
		}
		saved := e.boundaries
		e.boundaries = map[string]*Boundary{}
		w2.operations()
		t := newSpec(w2)
		t.all()
		e.boundaries = saved
		s.harmless(r, ch, w2, t)
		for _, o := range t.obs {
			if o.Status != Violated || bad[key{o.Rule, o.Root}] || len(o.Props) == 0 || hasPrefixAny(o.Root, "class.", "bit.") {
				continue
			}
			if o.Props[0] == "C09" || o.Props[0] == "C10" {
				continue
			}
			c := *o
			c.Why = fmt.Sprintf("after an earlier %s, which is remembered: %s", name, o.Why)
			s.obs = append(s.obs, &c)
			bad[key{o.Rule, o.Root}] = true
		}
	}
}

// harmless: no operation uses what is kept, or what is kept is the same in
// every graph, and every rule that is met without it is met with it.
func (s *Spec) harmless(r *Root, ch []int64, w2 *World, t *Spec) {
	count := func(obs []*Ob) map[string]int {
		m := map[string]int{}
		for _, o := range obs {
			if o.Status != Held && o.Rule != "memory" {
				m[fmt.Sprint(o.Props, o.Rule, o.Root, o.Status)]++
			}
		}
		return m
	}
	was := count(s.obs)
	for k, n := range count(t.obs) {
		if n > was[k] {
			dbg("memory of %s matters: %s", r.name, k)
			return
		}
	}
	for _, name := range w2.order {
		if w2.uses(w2.roots[name]) {
			dbg("memory of %s is used by %s", r.name, name)
			return
		}
		for _, o := range ch {
			if r2 := w2.roots[name]; r2.st != nil && r2.st.mem[o] != nil && !w2.settled(r2, w2.base(r2).mem[o], prune(r2.st.resolve(r2.st.mem[o]), r2.success), s.w.base(r).mem[o]) {
				dbg("memory of %s is changed further by %s", r.name, name)
				return
			}
		}
	}
	for _, o := range s.obs {
		if o.Rule == "memory" && o.Root == r.name && o.Status == Violated {
			o.Status, o.Why = Held, ""
			o.What += ", which changes nothing later operations do"
		}
	}
}

// settled: what is kept is what was kept before, or nothing, or something in
// the place of a value that no operation uses.
func (w *World) settled(r *Root, was, is, none *Term) bool {
	part := func(i int) *Term {
		if none != nil && none.k == was.k && len(none.a) == len(is.a) {
			return none.a[i]
		}
		return nil
	}
	switch {
	case was == nil || is == nil || was == is || none == is:
		return true
	case (was.k == KStruct || was.k == KArray || was.k == KIface) && is.k == was.k && len(was.a) == len(is.a):
		for i := range was.a {
			if !w.settled(r, was.a[i], is.a[i], part(i)) {
				return false
			}
		}
		return true
	case was.k == KSlice && is.k == KSlice && len(was.a) == len(is.a):
		for i := range was.a {
			if was.a[i] != is.a[i] {
				return false
			}
		}
		return w.settled(r, w.base(r).mem[was.n], prune(r.st.resolve(r.st.mem[is.n]), r.success), nil)
	}
	return len(collect(was, func(q *Term) bool { return q.k == KSym && strings.HasSuffix(q.s, remembered) })) > 0
}
