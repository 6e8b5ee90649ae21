package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// An error is one that
//
//	""        nothing is known about
//	storage   the storage has returned: any error the library does not make
//	own       the library has just made
//	!name     the library keeps in a variable
//	?name     another package keeps in a variable
//	%kind     wraps another one
func mkErrOf(kind string) *Term { return mkRaw(Term{k: KErr, s: kind}) }

func madeHere(kind string) bool {
	return kind == "own" || strings.HasPrefix(kind, "!") || strings.HasPrefix(kind, "%")
}

// sameErr: the errors are equal.
func sameErr(a, b *Term) B {
	x, y := a.s, b.s
	if x == y && (strings.HasPrefix(x, "!") || strings.HasPrefix(x, "?")) {
		return True
	}
	if strings.HasPrefix(y, "!") || strings.HasPrefix(y, "?") {
		x, y = y, x
	}
	switch {
	case x == "" || y == "":
	case strings.HasPrefix(x, "!"):
		return False
	case strings.HasPrefix(x, "?") && (madeHere(y) || strings.HasPrefix(y, "?")):
		return False
	case strings.HasPrefix(x, "?"):
		return termAtom(mkAppRaw("is", 0, mkErrOf(x)))
	}
	return termAtom(mkUnknown("comparison of errors"))
}

// errIs: errors.Is
func errIs(x, y *Term) B {
	switch {
	case x.k == KNil || y.k == KNil:
		return mkEq(x, y)
	case x.k == KIface && y.k == KErr && y.s != "" && plainError(x.t), y.k == KIface && x.k == KErr && x.s != "" && !strings.HasPrefix(x.s, "%"):
		return False
	case x.k != KErr || y.k != KErr:
		return termAtom(mkUnknown("errors.Is"))
	}
	in := strings.TrimLeft(x.s, "%")
	if in == "" && x.s != "" {
		return termAtom(mkUnknown("errors.Is"))
	}
	return sameErr(mkErrOf(in), y)
}

// plainError: values of the type neither wrap errors nor compare themselves.
func plainError(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Is", "As", "Unwrap":
			return false
		}
	}
	return true
}

// wrapped: fmt.Errorf
func (e *Eng) wrapped(args []*Term, st *State, pos token.Pos) *Term {
	va := e.varargs(args[1], st)
	var inner []*Term
	for _, v := range va {
		if isErrTerm(v) || isUnknown(v) {
			inner = append(inner, v)
		}
	}
	if args[1].k != KNil && va == nil {
		return mkErr()
	}
	if len(inner) == 0 || args[0].k == KStr && !strings.Contains(args[0].s, "%w") {
		if e.inInit {
			return mkErrOf("!" + strconv.Itoa(int(pos)))
		}
		return mkErrOf("own")
	}
	if len(inner) > 1 || args[0].k != KStr {
		return mkErr()
	}
	return lift(inner[0], func(v *Term) *Term {
		switch v.k {
		case KErr:
			if v.s == "" {
				return v
			}
			return mkErrOf("%" + strings.TrimLeft(v.s, "%"))
		case KNil:
			return mkErrOf("own")
		}
		return mkErr()
	})
}

// errorAs: errors.As. Errors of the storage may be of any type but those of the
// library.
func (e *Eng) errorAs(args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, B, *State) {
	undecided := func() (*Term, B, *State) {
		e.issue("undecided", g, fr, pos, "call of errors.As is not modelled")
		if p := unbox(args[1]); p.k == KPtr {
			if c, ok := st.mem[p.n]; ok {
				st.mem[p.n] = e.storePath(st.resolve(c), p.a, mkUnknown("errors.As"))
			}
		}
		return mkBool(termAtom(mkUnknown("errors.As"))), g, st
	}
	p := unbox(args[1])
	empty := p.k == KStruct && len(p.a) == 0 // nothing to be stored
	if args[1].k != KIface || p.k != KPtr && !empty {
		return undecided()
	}
	typ := deref(args[1].t)
	found := mkSym("error as " + typ.String())
	own := false
	if n, ok := deref(typ).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), e.pkgPath) {
		own = true
	}
	known := true
	kept := false
	r := liftB(args[0], func(x *Term) B {
		switch {
		case x.k == KNil:
			return False
		case x.k == KIface && plainError(x.t):
			if types.Identical(x.t, typ) {
				kept = true
				return True
			}
			if it, ok := typ.Underlying().(*types.Interface); !ok || !types.Implements(x.t, it) {
				return False
			}
			known = false
			return False
		case x.k != KErr:
			known = false
			return False
		}
		in := strings.TrimLeft(x.s, "%")
		switch {
		case in == "own" || strings.HasPrefix(in, "!"):
			if _, ok := typ.Underlying().(*types.Interface); !ok {
				return False
			}
		case in == "storage" && own:
			return False
		case in == "storage":
			return termAtom(mkAppRaw("is", 0, found))
		}
		known = false
		return False
	})
	if !known {
		return undecided()
	}
	if r != False && !empty {
		cur := st.resolve(e.loadPath(st.mem[p.n], p.a))
		v := found
		if kept {
			v = lift(args[0], func(x *Term) *Term {
				if x.k == KIface && types.Identical(x.t, typ) {
					return x.a[0]
				}
				return found
			})
		}
		if _, ok := typ.Underlying().(*types.Interface); ok {
			v = mkErrOf("storage")
		}
		st.mem[p.n] = e.storePath(st.mem[p.n], p.a, ite(r, v, cur))
	}
	return mkBool(r), g, st
}
