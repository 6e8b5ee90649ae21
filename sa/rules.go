package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Rules that hold for every operation and every part.

var writeKinds = map[string]bool{"Create": true, "Connect": true, "SetReference": true, "Disconnect": true, "Delete": true}

// reads tells whether an operation is one of those that only look.
func reads(n string) bool {
	i := strings.LastIndex(n, ".")
	m := n[i+1:]
	if strings.HasPrefix(n, "class.ProvideEntity") || strings.HasPrefix(n, "bit.Provide") || strings.HasPrefix(n, "bit.Fetch") {
		return true // apart from the first use of a storage
	}
	for _, p := range []string{"Fetch", "Extract", "Get", "Has", "Is", "ReadEntityBy", "To", "NewGraph", "NewOutput", "Bit"} {
		if strings.HasPrefix(m, p) {
			return true
		}
	}
	return false
}

func (s *Spec) each(f func(r *Root)) {
	for _, n := range s.w.order {
		if r := root(s, n); r != nil {
			f(r)
		}
	}
}

// emptyStore: g is only possible when the storage holds no data yet.
func emptyStore(g B) bool {
	seen := map[*Term]bool{}
	for v := range suppOf(g) {
		a := C.atoms[v]
		if a.t == nil {
			continue
		}
		for _, x := range collect(a.t, func(t *Term) bool {
			return t.k == KApp && (t.s == "has" || t.s == "S") && t.a[0].k == KInt && t.a[0].n == 1
		}) {
			if seen[x] {
				continue
			}
			seen[x] = true
			if x.s == "has" && entails(g, C.not(termAtom(x))) || x.s == "S" && entails(g, C.not(lenGE(x, 1))) {
				return true
			}
		}
	}
	return false
}

func evName(ev *Event) string {
	if ev.kind == "call" {
		return ev.name
	}
	return ev.kind
}

func evText(ev *Event) string {
	var a []string
	for _, x := range ev.args {
		a = append(a, x.String())
	}
	return fmt.Sprintf("%s(%s)", evName(ev), strings.Join(a, ", "))
}

// ---- C04 a failure is reported

func (s *Spec) failures() {
	s.each(func(r *Root) {
		for _, ev := range r.log {
			bad := C.and(ev.guard, C.not(ev.ok))
			st, why := Held, ""
			if !entails(C.and(r.success, bad), False) {
				st, why = Violated, "the operation may succeed although this call failed"
			}
			for _, L := range ev.loops {
				if feasible(C.and(L.back, bad)) {
					st, why = Violated, "the loop may go on although this call failed"
				}
			}
			if st == Violated && s.errorUnknown(r, ev) {
				st = Undecided
			}
			s.evOb("C04", "failure", r, ev, st, evText(ev), why)
		}
	})
}

// errorUnknown: what happens to the error of the call is not known.
func (s *Spec) errorUnknown(r *Root, ev *Event) bool {
	if hasUnknownB(r.success) {
		return true
	}
	for _, L := range ev.loops {
		if hasUnknownB(L.back) {
			return true
		}
	}
	return false
}

// ---- C24 nothing is written after a failure

func writes(ev *Event) bool {
	return writeKinds[ev.kind] || ev.kind == "call" && strings.HasSuffix(ev.name, ".Provide") && ev.name != "bit.Provide"
}

func (s *Spec) stops() {
	s.each(func(r *Root) {
		for i, ev := range r.log {
			bad := C.and(ev.guard, C.not(ev.ok))
			if !feasible(bad) {
				continue
			}
			st, why := Held, ""
			worse := func(g B, w string) {
				if !feasible(g) || st == Violated {
					return
				}
				if hasUnknownB(g) {
					st, why = Undecided, w
				} else {
					st, why = Violated, w
				}
			}
			for _, w := range r.log[i+1:] {
				if writes(w) {
					worse(C.and(bad, w.guard), fmt.Sprintf("%s may be called although this call failed", evText(w)))
				}
			}
			for _, L := range ev.loops {
				for _, w := range r.log {
					if writes(w) && inLoop(w, L) {
						worse(C.and(L.back, bad), fmt.Sprintf("%s may be called in the next turn although this call failed", evText(w)))
					}
				}
			}
			s.evOb("C24", "stops", r, ev, st, evText(ev), why)
		}
	})
}

func inLoop(ev *Event, L *Loop) bool {
	for _, l := range ev.loops {
		if l == L {
			return true
		}
	}
	return false
}

// ---- C05 no panic, no missing result; C10 nothing ambient

func (s *Spec) issues() {
	s.each(func(r *Root) {
		n := map[string]int{}
		for _, i := range r.issues {
			if !feasible(i.guard) {
				continue
			}
			st := Violated
			props := ""
			switch i.rule {
			case "nil", "bounds", "panic":
				props = "C05"
				if i.soft || hasUnknownB(i.guard) || maybeIn(i.msg) {
					st = Undecided
				}
			case "stuck":
				props = "C25"
			case "ambient", "global", "maporder":
				props = "C10"
			default:
				props = "undecided"
				st = Undecided
			}
			n[props]++
			o := &Ob{Props: []string{props}, Rule: i.rule, Root: r.name, What: i.msg, Status: st, Pos: i.pos, Why: i.msg}
			if i.fn != nil {
				o.Fn = shortFn(i.fn)
			}
			if i.rule == "stuck" {
				// what the operation is for is not done either
				for _, p := range []struct{ name, prop string }{{"CreateNextFact", "C14"}, {"AddFactToStory", "C14"}, {"CreateChildStory", "C15"}, {"AddRemarkToFact", "C13"}, {"GetStory", "C16"}, {"Extract", "C01"}, {"bit.Provide", "C20"}, {"Provide", "C02"}} {
					if strings.Contains(r.name, p.name) {
						o.Props = append(o.Props, p.prop)
						break
					}
				}
			}
			s.obs = append(s.obs, o)
		}
		if n["C05"] == 0 {
			s.ob("C05", "no-panic", r, Held, 0, "", "no index, slice, division, conversion or dereference that can fail", "")
		}
		if n["C10"] == 0 {
			s.ob("C10", "ambient", r, Held, 0, "", "no use of anything but arguments and storage", "")
		}
		// a result on success
		bad := s.nilIn(r.succ, r.success, r.st, 0)
		st, why := Held, ""
		if bad != "" {
			st, why = Violated, bad
			if hasUnknown(r.succ) {
				st = Undecided
			}
		}
		s.ob("C05", "result", r, st, 0, "", "a success has a complete result", why)
		if !feasible(r.success) {
			s.ob("C05", "never-succeeds", r, Violated, 0, "", "the operation can succeed", "it always reports an error")
		}
	})
}

// nilIn finds a missing part in a result.
func (s *Spec) nilIn(t *Term, g B, st *State, d int) string {
	if t == nil || d > 12 {
		return ""
	}
	switch t.k {
	case KNil:
		return "the result or a part of it is nil"
	case KGate:
		for _, l := range leaves(t) {
			if feasible(C.and(g, l.g)) {
				if b := s.nilIn(l.t, C.and(g, l.g), st, d+1); b != "" {
					return b
				}
			}
		}
	case KTuple, KStruct, KIface:
		for i, a := range t.a {
			if t.k == KStruct {
				if u, ok := t.t.Underlying().(*types.Struct); ok && s.e.unread[u.Field(i)] {
					continue
				}
			}
			if b := s.nilIn(a, g, st, d+1); b != "" {
				return b
			}
		}
	}
	return ""
}

// ---- C06 nothing is taken away or changed

func (s *Spec) additive() {
	s.each(func(r *Root) {
		var refs []*Event
		for _, ev := range r.log {
			switch ev.kind {
			case "Disconnect", "Delete":
				st := Held
				if feasible(ev.guard) {
					st = Violated
				}
				s.evOb("C06", "removal", r, ev, st, evText(ev), "an operation removes data")
			case "SetReference":
				refs = append(refs, ev)
				st, why := Held, ""
				for _, l := range leaves(ev.args[0]) {
					g := C.and(ev.guard, l.g)
					if !feasible(g) || s.isNewNode(r, l.t, g) {
						continue
					}
					st, why = Violated, fmt.Sprintf("%s may have existed before the operation", l.t)
					if hasUnknown(l.t) {
						st = Undecided
					}
					break
				}
				s.evOb("C06", "reference", r, ev, st, evText(ev), why)
			}
		}
		for i, a := range refs {
			for _, b := range refs[i+1:] {
				if a.args[0] != b.args[0] {
					continue
				}
				if feasible(C.and(a.guard, b.guard)) {
					s.evOb("C06", "reference-twice", r, b, Violated, evText(b), "the reference of a node is set twice")
				}
			}
		}
	})
}

// isNewNode: the node was created by this operation (before, or in the same
// chain).
func (s *Spec) isNewNode(r *Root, t *Term, g B) bool {
	b, _ := baseOff(t)
	if p, ok := s.paramNode(r, b); ok && p {
		return true
	}
	if _, ok := s.e.newSyms[b]; ok {
		return true
	}
	if b.k == KInt {
		for _, ev := range r.log {
			if ev.kind == "Create" && ev.res != nil && entails(g, cmpEQint(ev.res, t)) {
				return true
			}
		}
	}
	return false
}

// paramNode: CreateEntity is given the class node made for it.
func (s *Spec) paramNode(r *Root, b *Term) (bool, bool) {
	if strings.HasSuffix(r.name, ".CreateEntity") {
		for _, a := range r.args {
			if a == b {
				return true, true
			}
		}
	}
	return false, false
}

// ---- C07 reading does not write

func (s *Spec) readOnly() {
	s.each(func(r *Root) {
		if !reads(r.name) {
			return
		}
		n := 0
		for _, ev := range r.log {
			w := writeKinds[ev.kind]
			if ev.kind == "call" && strings.HasSuffix(ev.name, ".Provide") && ev.name != "bit.Provide" {
				w = true
			}
			if !w {
				continue
			}
			n++
			st := Held
			if feasible(ev.guard) && !emptyStore(ev.guard) {
				st = Violated
				if hasUnknownB(ev.guard) {
					st = Undecided
				}
			}
			s.evOb("C07", "read-only", r, ev, st, evText(ev), "an operation that reads changes the storage")
		}
		if n == 0 {
			s.ob("C07", "read-only", r, Held, 0, "", fmt.Sprintf("%d storage calls and calls of other layers, none of which writes", len(r.log)), "")
		}
	})
}

// ---- C09, C10 no state outside the storage

// memoryless: objects that existed before the operation are not changed,
// apart from what is read from the storage when it is first used.
func (s *Spec) memoryless() {
	s.each(func(r *Root) {
		if r.st0 == nil {
			return
		}
		var ch []int64
		for o, c := range r.st0.mem {
			if o > r.baseObj {
				continue
			}
			if n := r.st.mem[o]; n != nil && n != c {
				if prune(r.st.resolve(n), r.g) != prune(r.st0.resolve(c), r.g) {
					ch = append(ch, o)
				}
			}
		}
		sort.Slice(ch, func(i, j int) bool { return ch[i] < ch[j] })
		shared := 0
		for _, o := range ch {
			if o <= s.e.initObj && !s.e.globalObjs[o] {
				s.ob("C10", "package-state", r, Violated, s.e.objPos[o], "", "changes "+s.e.objName[o]+" that is made once for all graphs", fmt.Sprintf("%s becomes %s", s.e.objName[o], r.st.mem[o]))
				shared++
			}
		}
		if shared == 0 {
			s.ob("C10", "package-state", r, Held, 0, "", "nothing that is made once for all graphs is changed", "")
		}
		if r.name == "NewGraph" || r.name == "init" {
			return
		}
		if len(ch) == 0 {
			s.ob("C09", "memory", r, Held, 0, "", "the operation keeps nothing in memory", "")
			return
		}
		if strings.HasPrefix(r.name, "class.") || strings.HasPrefix(r.name, "bit.Provide") || strings.HasPrefix(r.name, "bit.Fetch") {
			s.ob("C09", "memory", r, Held, 0, "", "keeps the classes or bits, compared with a second use below", "")
			return
		}
		for _, o := range ch {
			s.ob("C09", "memory", r, Violated, s.e.objPos[o], "", "keeps something in "+s.e.objName[o], fmt.Sprintf("%s becomes %s", s.e.objName[o], r.st.mem[o]))
		}
	})
}

// ---- C21 layout

func (s *Spec) layout() {
	s.each(func(r *Root) {
		if strings.HasPrefix(r.name, "class.Entity.Is") || strings.Contains(r.name, ".Entity.PointTo") || strings.Contains(r.name, ".Entity.Mark") ||
			strings.Contains(r.name, ".Entity.Add") {
			return // given a node of any kind
		}
		for _, ev := range r.log {
			switch ev.kind {
			case "Connect":
				for _, a := range leaves(ev.args[0]) {
					for _, b := range leaves(ev.args[1]) {
						g := allOf(ev.guard, a.g, b.g)
						if !feasible(g) {
							continue
						}
						ra, rb := s.e.role(a.t), s.e.role(b.t)
						st, why := Held, ""
						switch {
						case ra == noRole || rb == noRole:
							st, why = Violated, "link between nodes of no known kind"
							if fromUnknown(a.t) || fromUnknown(b.t) {
								st = Undecided
							}
						case targetRole[ra] != rb:
							st, why = Violated, fmt.Sprintf("link from %s to %s is not part of the layout", ra, rb)
							if (ra == Role{2, 3} && rb == Role{3, 1}) {
								st = Held
							}
						case ra == rb:
							// from the older to the newer, and from a child to its parent
							x, _ := baseOff(a.t)
							y, _ := baseOff(b.t)
							if n, m := isNew(s.e, x), isNew(s.e, y); n != m && n != (ra == Role{8, 3}) {
								st, why = Violated, fmt.Sprintf("link from %s to %s runs backwards", a.t, b.t)
							}
						}
						s.evOb("C21", "link", r, ev, st, fmt.Sprintf("%s: %s -> %s", evText(ev), ra, rb), why)
					}
				}
			case "ReadTargets", "ReadSources":
				for _, a := range leaves(ev.args[0]) {
					if !feasible(C.and(ev.guard, a.g)) {
						continue
					}
					ra := s.e.role(a.t)
					tab := targetRole
					if ev.kind == "ReadSources" {
						tab = sourceRole
					}
					st, why := Held, ""
					if ra == noRole {
						st, why = Violated, "links of a node of no known kind"
						if fromUnknown(a.t) || len(collect(a.t, func(t *Term) bool { return t.k == KSym })) > 0 && s.freeNode(r, a.t) {
							st = Undecided
						}
					} else if _, ok := tab[ra]; !ok && ra.cls != 0 {
						st, why = Violated, fmt.Sprintf("%s has no such links", ra)
					}
					s.evOb("C21", "read", r, ev, st, fmt.Sprintf("%s: %s", evText(ev), ra), why)
				}
			}
		}
	})
}

func (s *Spec) freeNode(r *Root, t *Term) bool {
	for _, x := range collect(t, func(t *Term) bool { return t.k == KSym && t.s == "n" }) {
		if s.e.role(x) == noRole {
			return true
		}
	}
	return false
}

// fromUnknown: the term, or what a loop it is carried through starts with or
// goes on with, is something the analysis could not follow.
func fromUnknown(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || hasUnknown(t) {
			return true
		}
		for _, m := range collect(t, func(q *Term) bool { return q.k == KMu && !seen[q] }) {
			seen[m] = true
			if i := m.loop.mus[m]; i != nil && (rec(i.init) || rec(i.next)) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// maybeIn tells whether a message names a value that is not known.
func maybeIn(msg string) bool {
	return strings.Contains(msg, "unknown") || strings.Contains(msg, "?strings.") || strings.Contains(msg, "?bytes.") || strings.Contains(msg, "?strconv.") ||
		strings.Contains(msg, "?unicode") || strings.Contains(msg, "?math") || strings.Contains(msg, "?fmt.")
}
