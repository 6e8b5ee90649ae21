package main

import "time"

// Reduced ordered binary decision diagrams. Conditions under which a value,
// an effect or a program point applies are kept as functions of the atomic
// conditions of the program, so that joins are exact and no path is ever
// enumerated.

type B int32

// the analysis stops when its time is up; what is not decided by then is
// reported as undecided
var deadline time.Time

type timeUp struct{}

func checkTime() {
	if !deadline.IsZero() && time.Now().After(deadline) {
		panic(timeUp{})
	}
}

const (
	False B = 0
	True  B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type bdd struct {
	nodes []bnode
	uniq  map[bnode]B
	ite_  map[[3]B]B
	rst   map[[2]B]B
}

func newBDD() *bdd {
	m := &bdd{uniq: map[bnode]B{}, ite_: map[[3]B]B{}, rst: map[[2]B]B{}}
	m.nodes = append(m.nodes, bnode{1 << 30, 0, 0}, bnode{1 << 30, 1, 1})
	return m
}

func (m *bdd) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := bnode{v, lo, hi}
	if b, ok := m.uniq[k]; ok {
		return b
	}
	b := B(len(m.nodes))
	if b&4095 == 0 {
		checkTime()
	}
	m.nodes = append(m.nodes, k)
	m.uniq[k] = b
	return b
}

func (m *bdd) atom(v int32) B { return m.mk(v, False, True) }

func (m *bdd) cof(f B, v int32) (B, B) {
	n := m.nodes[f]
	if n.v == v {
		return n.lo, n.hi
	}
	return f, f
}

func (m *bdd) ite(f, g, h B) B {
	if f == True {
		return g
	}
	if f == False {
		return h
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := m.ite_[k]; ok {
		return r
	}
	v := m.nodes[f].v
	if w := m.nodes[g].v; w < v {
		v = w
	}
	if w := m.nodes[h].v; w < v {
		v = w
	}
	f0, f1 := m.cof(f, v)
	g0, g1 := m.cof(g, v)
	h0, h1 := m.cof(h, v)
	r := m.mk(v, m.ite(f0, g0, h0), m.ite(f1, g1, h1))
	m.ite_[k] = r
	return r
}

func (m *bdd) and(a, b B) B     { return m.ite(a, b, False) }
func (m *bdd) or(a, b B) B      { return m.ite(a, True, b) }
func (m *bdd) not(a B) B        { return m.ite(a, False, True) }
func (m *bdd) implies(a, b B) B { return m.ite(a, b, True) }

// restrict simplifies f using the care set c.
func (m *bdd) restrict(f, c B) B {
	if c == True || f <= True {
		return f
	}
	if c == False {
		return f
	}
	k := [2]B{f, c}
	if r, ok := m.rst[k]; ok {
		return r
	}
	fn, cn := m.nodes[f], m.nodes[c]
	var r B
	switch {
	case cn.v < fn.v:
		r = m.restrict(f, m.or(cn.lo, cn.hi))
	case cn.v > fn.v:
		r = m.mk(fn.v, m.restrict(fn.lo, c), m.restrict(fn.hi, c))
	case cn.lo == False:
		r = m.restrict(fn.hi, cn.hi)
	case cn.hi == False:
		r = m.restrict(fn.lo, cn.lo)
	default:
		r = m.mk(fn.v, m.restrict(fn.lo, cn.lo), m.restrict(fn.hi, cn.hi))
	}
	m.rst[k] = r
	return r
}

func (m *bdd) support(f B, out map[int32]bool) {
	seen := map[B]bool{}
	var rec func(B)
	rec = func(b B) {
		if b <= True || seen[b] {
			return
		}
		seen[b] = true
		n := m.nodes[b]
		out[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
}

// subst replaces the atoms of f by the functions sub gives for them.
func (m *bdd) subst(f B, sub func(int32) B) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(b B) B {
		if b <= True {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := m.nodes[b]
		r := m.ite(sub(n.v), rec(n.hi), rec(n.lo))
		memo[b] = r
		return r
	}
	return rec(f)
}

// oneCube returns a satisfying assignment, for reports.
func (m *bdd) oneCube(f B) map[int32]bool {
	if f == False {
		return nil
	}
	out := map[int32]bool{}
	for f > True {
		n := m.nodes[f]
		if n.hi != False {
			out[n.v] = true
			f = n.hi
		} else {
			out[n.v] = false
			f = n.lo
		}
	}
	return out
}

// cofactor fixes one atom.
func (m *bdd) cofactor(f B, v int32, val bool) B {
	return m.subst(f, func(w int32) B {
		if w == v {
			if val {
				return True
			}
			return False
		}
		return m.atom(w)
	})
}
