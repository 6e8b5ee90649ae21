package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A struct type is frozen if every object of it that is allocated on its own
// is only written before the first use of its address other than for reading
// and writing its parts. A pointer to such an object is as good as the value:
// the analysis carries the value in its place.

func (e *Eng) frozenTypes() map[*types.Named]bool {
	broken := map[*types.Named]bool{}
	seen := map[*types.Named]bool{}
	for f := range ssautil.AllFunctions(e.prog) {
		if f.Pkg == nil && f.Origin() == nil && f.Parent() == nil && f.Synthetic == "" {
			continue
		}
		if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), e.pkgPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if n := structType(x.Type()); n != nil {
						seen[n] = true
						if !writtenFirst(x) {
							broken[n] = true
						}
					}
				case *ssa.Store:
					brokenBy(x.Addr, broken)
				case *ssa.FieldAddr:
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == ssa.Value(x) && y.Val != ssa.Value(x) {
								continue
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							continue
						}
						// the address of a part goes elsewhere
						brokenBy(x, broken)
						if n := structType(x.X.Type()); n != nil {
							broken[n] = true
						}
					}
				}
			}
		}
	}
	out := map[*types.Named]bool{}
	for n := range seen {
		if !broken[n] && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), e.pkgPath) {
			out[n] = true
		}
	}
	return out
}

// unreadFields are the dependencies that nothing ever uses: what is stored in
// them makes no difference.
func (e *Eng) unreadFields() map[*types.Var]bool {
	out := map[*types.Var]bool{}
	read := map[*types.Var]bool{}
	field := func(t types.Type, i int) *types.Var {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			return st.Field(i)
		}
		return nil
	}
	for f := range ssautil.AllFunctions(e.prog) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.ChangeType: // the fields live on under another name
					if u, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok {
						for i := 0; i < u.NumFields(); i++ {
							read[u.Field(i)] = true
						}
					}
				case *ssa.Field:
					read[field(x.X.Type(), x.Field)] = true
				case *ssa.FieldAddr:
					v := field(x.X.Type(), x.Field)
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == ssa.Value(x) && y.Val != ssa.Value(x) {
								continue
							}
						case *ssa.DebugRef:
							continue
						}
						read[v] = true
					}
					if v == nil || v.Pkg() == nil || !strings.HasPrefix(v.Pkg().Path(), e.pkgPath) || v.Embedded() {
						continue
					}
					switch v.Type().Underlying().(type) {
					case *types.Interface, *types.Pointer, *types.Map:
						out[v] = true
					}
				}
			}
		}
	}
	for v := range read {
		delete(out, v)
	}
	return out
}

func fieldOf(a *ssa.FieldAddr) *types.Var {
	if st, ok := deref(a.X.Type()).Underlying().(*types.Struct); ok {
		return st.Field(a.Field)
	}
	return nil
}

func structType(t types.Type) *types.Named {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

// brokenBy marks the types of the objects a write through the address may change.
func brokenBy(a ssa.Value, broken map[*types.Named]bool) {
	var chain []*types.Named
	for {
		if n := structType(a.Type()); n != nil {
			chain = append(chain, n)
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a = x.X
				continue
			}
			return // an element of a slice
		case *ssa.Alloc, *ssa.Global:
			return // judged at the allocation; a variable of the package
		}
		break
	}
	for _, n := range chain {
		broken[n] = true
	}
}

// writtenFirst: no write follows a use of the address as a value.
func writtenFirst(a *ssa.Alloc) bool {
	var writes, uses []ssa.Instruction
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					writes = append(writes, x)
				}
				if x.Val == v {
					uses = append(uses, x)
				}
			case *ssa.FieldAddr:
				walk(x)
			case *ssa.IndexAddr:
				walk(x)
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				uses = append(uses, r)
			}
		}
	}
	walk(a)
	for _, u := range uses {
		for _, w := range writes {
			if reaches(u, w, a) {
				return false
			}
		}
	}
	return true
}

// reaches: w can run after u without passing the allocation in between.
func reaches(u, w ssa.Instruction, a *ssa.Alloc) bool {
	at := func(x ssa.Instruction) int {
		for i, y := range x.Block().Instrs {
			if y == x {
				return i
			}
		}
		return -1
	}
	if u.Block() == w.Block() && at(u) <= at(w) {
		return !(a.Block() == u.Block() && at(a) > at(u) && at(a) < at(w))
	}
	if a.Block() == u.Block() && at(a) > at(u) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, u.Block().Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == w.Block() && !(b == a.Block() && at(a) < at(w)) {
			return true
		}
		if b == a.Block() {
			continue
		}
		work = append(work, b.Succs...)
	}
	return false
}
