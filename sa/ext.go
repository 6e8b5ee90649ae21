package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the storage

func errOf(ok B) *Term { return ite(ok, mkNil(), mkErr()) }

func (e *Eng) event(fr *Frame, kind, name string, args []*Term, g, ok B, pos token.Pos, res *Term) *Event {
	ev := &Event{kind: kind, name: name, args: args, guard: g, ok: ok, pos: pos, res: res, seq: len(e.log)}
	if fr != nil {
		ev.loops = append([]*Loop{}, fr.loops...)
		ev.fn = fr.fn
	}
	for _, f := range e.stack {
		ev.via += " > " + shortFn(f)
	}
	e.log = append(e.log, ev)
	return ev
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/mem-memov/semnet/internal/concrete/", "")
	return strings.ReplaceAll(s, "github.com/mem-memov/semnet", "semnet")
}

var verT, verS, verHas = "T", "S", "Has"

func verKey(dir string, n *Term) *Term { return mkAppRaw("ver"+dir, 0, n) }

func (e *Eng) readLinks(dir string, n *Term, st *State) *Term {
	return lift(n, func(n *Term) *Term {
		v := mkAppRaw(dir, st.ver[verKey(dir, n)], n)
		return v
	})
}

func (e *Eng) storageOp(fr *Frame, name string, args []*Term, sig *types.Signature, g B, st *State, pos token.Pos) (*Term, B, *State) {
	raw := make([]*Term, len(args))
	for i := range args {
		raw[i] = prune(st.resolve(args[i]), g)
		if t := raw[i]; t.k == KSym && isNew(e, t) {
			// compared with a number before
			for k := int64(1); k <= 8; k++ {
				if entails(g, cmpEQint(t, mkInt(k))) {
					raw[i] = mkInt(k)
				}
			}
		}
	}
	ok := freshOk(name + " ok")
	err := ite(ok, mkNil(), mkErrOf("storage"))
	hasKey := mkSym("version of node set")
	switch name {
	case "Has":
		b := liftB(raw[0], func(n *Term) B { return termAtom(mkAppRaw("has", st.ver[hasKey], n)) })
		r := mkBool(b)
		e.event(fr, name, "", raw, g, ok, pos, r)
		return mkTuple(r, err), g, st
	case "Create":
		s := mkFreshSym("new")
		e.newSyms[s] = pos
		C.nonneg[s] = true
		C.fresh++
		st.ver[hasKey] = C.fresh
		e.event(fr, name, "", raw, g, ok, pos, s)
		return mkTuple(s, err), g, st
	case "ReadTargets", "ReadSources":
		d := "T"
		if name == "ReadSources" {
			d = "S"
		}
		c := e.readLinks(d, raw[0], st)
		if e.noLinks(c) {
			c = mkArray(nil)
		}
		r := lift(c, func(c *Term) *Term { return e.newSlice(c, st, "links", pos) })
		e.event(fr, name, "", raw, g, ok, pos, c)
		return mkTuple(r, err), g, st
	case "GetReference":
		p, n := mkNext(raw[0], -1), mkNext(raw[0], 1)
		e.event(fr, name, "", raw, g, ok, pos, nil)
		return mkTuple(p, n, err), g, st
	case "SetReference":
		e.event(fr, name, "", raw, g, ok, pos, nil)
		if b := raw[1]; b.k == KSym && isNew(e, b) {
			to := mkNext(raw[0], 1)
			if !contains(to, b) {
				e.aliases = append(e.aliases, alias{b, to})
				st.addSub(b, to)
			}
		}
		return err, g, st
	case "Connect", "Disconnect":
		if name == "Connect" && raw[1].k == KInt && raw[1].n >= 1 && raw[1].n <= 8 {
			for _, l := range leaves(raw[0]) {
				if _, isNew := e.newSyms[l.t]; isNew {
					e.symRole[l.t] = Role{int(raw[1].n), 0}
				}
			}
		}
		e.event(fr, name, "", raw, g, ok, pos, nil)
		C.fresh++
		for _, l := range leaves(raw[0]) {
			st.ver[verKey("T", l.t)] = C.fresh
		}
		for _, l := range leaves(raw[1]) {
			st.ver[verKey("S", l.t)] = C.fresh
		}
		return err, g, st
	case "Delete":
		e.event(fr, name, "", raw, g, ok, pos, nil)
		return err, g, st
	}
	e.issue("undecided", g, fr, pos, "storage method %s", name)
	return e.unknownResult(sig.Results(), "storage method"), g, st
}

type alias struct{ sym, to *Term }

// ---- library functions

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true,
	"errors": true, "bytes": true, "slices": true, "cmp": true, "maps": false,
}

func (e *Eng) varargs(v *Term, st *State) []*Term {
	c := e.content(v, st)
	if c.k == KArray {
		return c.a
	}
	return nil
}

func unbox(t *Term) *Term {
	if t.k == KIface {
		return t.a[0]
	}
	return t
}

func mkFmtb(x *Term) *Term {
	return lift(x, func(x *Term) *Term { return mkAppRaw("fmtb", 0, x) })
}

func plainString(a *Term) bool {
	nt, ok := a.t.(*types.Named)
	return !ok || nt.NumMethods() == 0
}

// format is the text of a format with its arguments.
func (e *Eng) format(f string, args []*Term) *Term {
	var parts []*Term
	used := map[int]bool{}
	next := 0
	other, maybe := false, false // a directive that is not modelled
	for i := 0; i < len(f); {
		if f[i] != '%' {
			parts = append(parts, mkStr(string(f[i])))
			i++
			continue
		}
		v, to := directive(f, i+1, next)
		if to < 0 {
			maybe = true
			break
		}
		i = to
		if v.c == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		next = v.arg + 1
		if v.arg >= len(args) {
			other = true
			break
		}
		used[v.arg] = true
		a := args[v.arg]
		x := unbox(a)
		var at types.Type
		if a.k == KIface {
			at = a.t
		}
		switch {
		case at == nil:
			maybe = true
		case (v.c == 's' || v.c == 'v') && strings.Trim(v.flags, "+ ") == "" && isStringType(at):
			if !plainString(a) {
				maybe = true
				break
			}
			parts = append(parts, x)
		case v.flags != "":
			other = true
		case (v.c == 'v' || v.c == 'd') && isIntType(at) && plainString(a):
			parts = append(parts, mkApp("itoa", 0, x))
		case v.c == 'b' && isIntType(at):
			parts = append(parts, mkFmtb(x))
		case v.c == 'c' && isIntType(at):
			parts = append(parts, mkString(mkArray([]*Term{x})))
		case strings.IndexByte("sqxXoOUtTp", v.c) >= 0 && (isStringType(at) && v.c != 's' || isIntType(at)):
			other = true
		default:
			maybe = true
		}
	}
	all := append([]*Term{mkStr(f)}, args...)
	for i := range args {
		other = other || !used[i]
	}
	switch {
	case maybe:
		return e.typed(mkMaybe("fmt.Sprintf", 0, all...), types.Typ[types.String])
	case other:
		return e.typed(mkApp("sprintf", 0, all...), types.Typ[types.String])
	}
	return mkText(parts...)
}

var locks = map[string]bool{
	"sync.Mutex.Lock": true, "sync.Mutex.Unlock": true,
	"sync.RWMutex.Lock": true, "sync.RWMutex.Unlock": true,
	"sync.RWMutex.RLock": true, "sync.RWMutex.RUnlock": true,
}

func (e *Eng) external(fn *ssa.Function, args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, B, *State) {
	path := pkgOf(fn)
	name := fn.Name()
	full := path + "." + name
	res := fn.Signature.Results()
	str := types.Typ[types.String]
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := deref(r.Type()).(*types.Named); ok {
			recv = n.Obj().Name()
		}
		full = path + "." + recv + "." + name
	}
	e.extCalls[full]++
	if name == "init" || strings.HasPrefix(name, "init#") {
		return mkTuple(), g, st
	}
	ret := func(t *Term) (*Term, B, *State) { return t, g, st }
	if recv != "" && (full == "bytes.Buffer."+name || full == "strings.Builder."+name) {
		if t, ok := e.textMethod(name, args, g, st, fr, pos); ok {
			return ret(t)
		}
	}
	if path == "sync/atomic" {
		if t, ok := e.atomicOp(name, recv, fn, args, g, st); ok {
			return ret(t)
		}
	}
	switch full {
	case "sync.Once.Do":
		if t, ng, nst, ok := e.onceDo(args, g, st, fr, pos); ok {
			return t, ng, nst
		}
	case "sync.Pool.Get":
		if t, ng, nst, ok := e.pooled(fn, args, g, st, fr, pos); ok {
			return t, ng, nst
		}
	case "sync.Pool.Put":
		return ret(mkTuple())
	}
	if locks[full] {
		// the value of a lock that nobody else uses is nobody's business
		return ret(mkTuple())
	}
	for i := range args {
		args[i] = prune(args[i], g)
	}
	switch full {
	case "io.WriteString":
		w := unbox(args[0])
		if args[0].k == KIface && w.k == KPtr && isTextType(deref(args[0].t)) {
			cur := st.resolve(e.loadPath(st.mem[w.n], w.a))
			st.mem[w.n] = e.storePath(st.mem[w.n], w.a, mkText(cur, args[1]))
			return ret(mkTuple(seqLen(args[1]), mkNil()))
		}
	case "errors.New":
		if e.inInit {
			return ret(mkErrOf("!" + strconv.Itoa(int(pos))))
		}
		return ret(mkErrOf("own"))
	case "fmt.Errorf":
		return ret(e.wrapped(args, st, pos))
	case "errors.Join":
		none := True
		for _, x := range e.varargs(args[0], st) {
			none = C.and(none, mkEq(x, mkNil()))
		}
		return ret(ite(none, mkNil(), mkErr()))
	case "fmt.Sprintf":
		if args[0].k == KStr {
			return ret(e.format(args[0].s, e.varargs(args[1], st)))
		}
		// a text with a percent sign in it as the format
		return ret(e.typed(mkApp("sprintf", 0, append([]*Term{args[0]}, e.varargs(args[1], st)...)...), str))
	case "fmt.Sprint", "fmt.Sprintln":
		va := e.varargs(args[0], st)
		if t := e.sprint(va, name == "Sprintln"); t != nil {
			return ret(t)
		}
		return ret(e.typed(mkMaybe(full, 0, va...), str))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		w := unbox(args[0])
		if args[0].k != KIface {
			break
		}
		if w.k == KPtr && isTextType(deref(args[0].t)) {
			var t *Term
			if name != "Fprintf" {
				va := e.varargs(args[1], st)
				if t = e.sprint(va, name == "Fprintln"); t == nil {
					t = e.typed(mkMaybe(full, 0, va...), str)
				}
			} else if args[1].k == KStr {
				t = e.format(args[1].s, e.varargs(args[2], st))
			} else {
				t = e.typed(mkApp("sprintf", 0, append([]*Term{args[1]}, e.varargs(args[2], st)...)...), str)
			}
			cur := st.resolve(e.loadPath(st.mem[w.n], w.a))
			st.mem[w.n] = e.storePath(st.mem[w.n], w.a, mkText(cur, t))
			return ret(mkTuple(seqLen(t), mkNil()))
		}
		if n, ok := deref(args[0].t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != "os" && fixedResult(n.Obj().Pkg().Path(), "") {
			e.issue("undecided", g, fr, pos, "call of %s with a %s is not modelled", full, n)
			return e.unknownResult(res, full), g, st
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		c := args[0]
		if name == "NewBuffer" {
			c = lift(prune(e.content(c, st), g), mkBytestring)
		}
		o := e.newObj("buffer", pos)
		st.mem[o] = c
		return ret(mkPtr(o))
	case "strings.Split":
		if args[1].k == KStr && args[1].s != "" {
			return ret(lift(args[0], func(s *Term) *Term { return e.newSlice(mkAppRaw("split", 0, s, args[1]), st, "parts", pos) }))
		}
	case "strings.SplitN":
		if args[1].k == KStr && args[1].s != "" && args[2].k == KInt && args[2].n < 0 {
			return ret(lift(args[0], func(s *Term) *Term { return e.newSlice(mkAppRaw("split", 0, s, args[1]), st, "parts", pos) }))
		}
	case "strings.Join":
		return ret(e.typed(mkJoin(e.content(args[0], st), args[1]), str))
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1] == mkInt(2) {
			return ret(mkFmtb(args[0]))
		}
		if args[1] == mkInt(10) {
			return ret(mkApp("itoa", 0, args[0]))
		}
	case "strconv.Itoa":
		return ret(mkApp("itoa", 0, args[0]))
	case "unicode/utf8.RuneCountInString":
		return ret(lift(args[0], func(s *Term) *Term { return seqLen(mkRunes(s)) }))
	case "unicode/utf8.ValidString", "unicode/utf8.Valid", "unicode/utf8.ValidRune":
		// texts are valid, see the assumptions
		return ret(mkBool(True))
	case "unicode/utf8.AppendRune":
		c := mkConcat(e.content(args[0], st), mkAppRaw("bytes", 0, mkString(mkArray([]*Term{args[1]}))))
		return ret(lift(c, func(c *Term) *Term { return e.newSlice(c, st, "append", pos) }))
	case "strconv.AppendInt", "strconv.AppendUint":
		if args[2] == mkInt(2) || args[2] == mkInt(10) {
			x := mkFmtb(args[1])
			if args[2] == mkInt(10) {
				x = mkApp("itoa", 0, args[1])
			}
			c := mkConcat(e.content(args[0], st), lift(x, func(x *Term) *Term { return mkAppRaw("bytes", 0, x) }))
			return ret(lift(c, func(c *Term) *Term { return e.newSlice(c, st, "append", pos) }))
		}
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.TrimSpace":
		var cut *Term
		if len(args) > 1 {
			cut = args[1]
		}
		r := lift(args[0], func(s *Term) *Term {
			if t := trimmed(name, s, cut); t != nil {
				return t
			}
			if definite(full, args) {
				return e.typed(mkApp(full, 0, append([]*Term{s}, args[1:]...)...), str)
			}
			return e.typed(mkMaybe(full, 0, append([]*Term{s}, args[1:]...)...), str)
		})
		return ret(r)
	case "context.Background", "context.TODO":
		return e.unknownResult(res, full), g, st
	case "strings.Compare":
		return ret(lift2(args[0], args[1], func(x, y *Term) *Term {
			return ite(mkEq(x, y), mkInt(0), ite(termAtom(mkApp("less", 0, x, y)), mkInt(-1), mkInt(1)))
		}))
	case "strings.Clone":
		return ret(args[0])
	case "errors.Is":
		return ret(mkBool(liftB(args[0], func(x *Term) B { return liftB(args[1], func(y *Term) B { return errIs(x, y) }) })))
	case "errors.As":
		return e.errorAs(args, g, st, fr, pos)
	case "slices.Contains":
		if c := e.content(args[0], st); c.k != KGate && args[1].k != KGate {
			if c.k == KArray {
				r := False
				for _, x := range c.a {
					r = C.or(r, mkEq(x, args[1]))
				}
				return ret(mkBool(r))
			}
			return ret(mkBool(termAtom(mkAppRaw("has", 0, c, args[1]))))
		}
	case "slices.Reverse":
		if args[0].k == KSlice && len(args[0].a) == 2 && args[0].a[0] == mkInt(0) {
			cur := st.resolve(st.mem[args[0].n])
			if seqLen(cur) == args[0].a[1] {
				st.mem[args[0].n] = mkRev(cur)
				return ret(mkTuple())
			}
		}
	}
	if purePkgs[path] && fn.Signature.Recv() == nil {
		mut := false
		var as []*Term
		for i, a := range args {
			if _, ok := fn.Signature.Params().At(min(i, fn.Signature.Params().Len()-1)).Type().Underlying().(*types.Slice); ok {
				a = e.content(a, st)
				if path == "slices" || path == "sort" {
					mut = true
				}
			}
			if a.k == KFunc || a.k == KPtr {
				mut = true
			}
			as = append(as, a)
		}
		if !mut {
			app := mkApp
			if !definite(full, as) {
				app = mkMaybe
			}
			if res.Len() == 1 {
				return ret(e.typed(app(full, 0, as...), res.At(0).Type()))
			}
			var vs []*Term
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				if types.Identical(t, types.Universe.Lookup("error").Type()) {
					vs = append(vs, ite(termAtom(app(full+":ok", 0, as...)), mkNil(), mkErr()))
				} else {
					vs = append(vs, e.typed(app(full, int64(i+1), as...), t))
				}
			}
			return ret(mkTuple(vs...))
		}
		e.issue("undecided", g, fr, pos, "call of %s is not modelled", full)
		e.unsettle(args, st, full)
		return e.unknownResult(res, full), g, st
	}
	defer e.unsettle(args, st, full)
	switch {
	case path == "fmt" && strings.HasPrefix(name, "Sprint"):
		return ret(e.unknownOf(res.At(0).Type(), full))
	case path == "sort" || path == "slices" || path == "maps" || path == "fmt" && strings.HasPrefix(name, "Append"):
		e.issue("undecided", g, fr, pos, "call of %s is not modelled", full)
	case fixedResult(path, name) && full != "sync.Map.Range":
		// its result follows from its arguments, but is not modelled
		if recv != "" && recv != "Once" && recv != "Pool" && args[0].k == KPtr && e.globalObjs[args[0].n] && !e.inInit {
			e.issue("global", g, fr, pos, "%s is changed by %s", e.objName[args[0].n], full)
			break
		}
		e.issue("undecided", g, fr, pos, "call of %s is not modelled", full)
	default:
		e.issue("ambient", g, fr, pos, "call of %s", full)
	}
	return e.unknownResult(res, full), g, st
}

// unsettle: a function that is not modelled may change what it is given.
func (e *Eng) unsettle(args []*Term, st *State, why string) {
	for _, a := range args {
		for _, l := range leaves(a) {
			p := l.t
			if p.k == KIface {
				p = unbox(p)
			}
			switch {
			case p.k == KPtr:
				if cur, ok := st.mem[p.n]; ok && !e.globalObjs[p.n] {
					st.mem[p.n] = e.storePath(cur, p.a, unknownAlike(e.loadPath(cur, p.a), why))
				}
			case p.k == KSlice:
				if cur, ok := st.mem[p.n]; ok && !strings.HasPrefix(why, "fmt.") {
					st.mem[p.n] = unknownAlike(cur, why)
				}
			}
		}
	}
}

func unknownAlike(t *Term, why string) *Term {
	switch t.k {
	case KStruct:
		var f []*Term
		for _, x := range t.a {
			f = append(f, unknownAlike(x, why))
		}
		return mkStruct(t.t, f)
	case KBool:
		return mkBool(termAtom(mkUnknown(why)))
	}
	return mkUnknown(why)
}

// onceDo calls the function the first time.
func (e *Eng) onceDo(args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, B, *State, bool) {
	p, f := prune(args[0], g), prune(args[1], g)
	if p.k != KPtr || e.globalObjs[p.n] || f.k != KFunc {
		return nil, g, st, false
	}
	cur := st.resolve(e.loadPath(st.mem[p.n], p.a))
	todo := True
	for _, l := range leaves(cur) {
		switch {
		case l.t == mkStr("done"):
			todo = C.and(todo, C.not(l.g))
		case l.t.k != KStruct && l.t.k != KTuple:
			return nil, g, st, false
		}
	}
	todo = C.and(g, todo)
	if todo == False {
		return mkTuple(), g, st, true
	}
	skip := C.and(g, C.not(todo))
	other := st.clone()
	st.mem[p.n] = e.storePath(st.mem[p.n], p.a, mkStr("done"))
	_, ng, nst := e.call(f.fn, nil, f.a, todo, st, fr, pos)
	if skip == False {
		return mkTuple(), ng, nst, true
	}
	all := C.or(ng, skip)
	return mkTuple(), all, mergeStates([]stEdge{{ng, nst}, {skip, other}}, all), true
}

// pooled gives something from a pool: what its constructor makes, in a state
// that is not known.
func (e *Eng) pooled(fn *ssa.Function, args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, B, *State, bool) {
	p := prune(args[0], g)
	s, ok := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok || p.k != KPtr {
		return nil, g, st, false
	}
	if _, ok := st.mem[p.n]; !ok {
		return nil, g, st, false
	}
	cur := st.resolve(e.loadPath(st.mem[p.n], p.a))
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != "New" || cur.k != KStruct && cur.k != KTuple || i >= len(cur.a) {
			continue
		}
		f := cur.a[i]
		if f.k != KFunc {
			return nil, g, st, false
		}
		t, ng, nst := e.call(f.fn, nil, f.a, g, st, fr, pos)
		e.unsettle([]*Term{t}, nst, "sync.Pool")
		return t, ng, nst, true
	}
	return nil, g, st, false
}

// fixedResult tells whether what the function of the standard library gives
// depends on nothing but its arguments and receiver.
func fixedResult(path, name string) bool {
	switch path {
	case "strings", "bytes", "bufio", "io", "errors", "strconv", "text/scanner", "text/tabwriter",
		"context", "reflect", "regexp", "sync", "hash", "hash/crc32", "hash/crc64", "hash/fnv", "hash/adler32",
		"crypto/md5", "crypto/sha1", "crypto/sha256", "crypto/sha512", "cmp", "iter":
		return true
	case "fmt":
		return strings.HasPrefix(name, "Errorf") || strings.HasPrefix(name, "Sscan")
	}
	for _, p := range []string{"unicode", "container/", "encoding", "math/big", "math/bits", "math/cmplx", "go/", "index/"} {
		if path == p || strings.HasPrefix(path, p) && (strings.HasSuffix(p, "/") || len(path) == len(p) || path[len(p)] == '/') {
			return true
		}
	}
	return path == "math"
}

func (e *Eng) textMethod(name string, args []*Term, g B, st *State, fr *Frame, pos token.Pos) (*Term, bool) {
	p := prune(args[0], g)
	if p.k == KNil {
		e.issue("nil", g, fr, pos, "%s on a nil buffer", name)
		return mkUnknown("nil buffer"), true
	}
	if p.k != KPtr {
		return nil, false
	}
	cur := st.resolve(e.loadPath(st.mem[p.n], p.a))
	put := func(t *Term) { st.mem[p.n] = e.storePath(st.mem[p.n], p.a, t) }
	switch name {
	case "WriteString":
		put(mkText(cur, args[1]))
		return mkTuple(seqLen(args[1]), mkNil()), true
	case "WriteByte":
		put(mkText(cur, mkString(mkArray([]*Term{args[1]}))))
		return mkNil(), true
	case "WriteRune":
		t := mkString(mkArray([]*Term{args[1]}))
		put(mkText(cur, t))
		return mkTuple(seqLen(t), mkNil()), true
	case "Write":
		c := e.content(args[1], st)
		c = prune(c, g)
		put(mkText(cur, lift(c, mkBytestring)))
		return mkTuple(seqLen(c), mkNil()), true
	case "String":
		return cur, true
	case "Bytes":
		return lift(cur, func(c *Term) *Term { return e.newSlice(mkAppRaw("bytes", 0, c), st, "bytes", pos) }), true
	case "Len":
		return seqLen(cur), true
	case "Reset":
		put(mkStr(""))
		return mkTuple(), true
	case "Grow":
		return mkTuple(), true
	case "Truncate":
		if args[1] == mkInt(0) {
			put(mkStr(""))
			return mkTuple(), true
		}
		cur = prune(cur, g)
		if d := sub(prune(seqLen(cur), g), prune(args[1], g)); d.k == KInt && d.n >= 0 {
			if c := cutTail(cur, d.n); c != nil {
				put(c)
				return mkTuple(), true
			}
		}
	}
	return nil, false
}

func mkJoin(seq, sep *Term) *Term {
	return lift2(seq, sep, func(seq, sep *Term) *Term {
		if seq.k == KApp && seq.s == "split" && seq.a[1] == sep {
			return seq.a[0]
		}
		if seq.k == KArray || seq.k == KNil {
			var ps []*Term
			for i, p := range seq.a {
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, p)
			}
			return mkText(ps...)
		}
		return mkAppRaw("join", 0, seq, sep)
	})
}

var _ = constant.Int

func isNew(e *Eng, t *Term) bool { _, ok := e.newSyms[t]; return ok }

// atomicOp models the atomic operations as plain ones: operations that run at
// the same time are not considered.
func (e *Eng) atomicOp(name, recv string, fn *ssa.Function, args []*Term, g B, st *State) (*Term, bool) {
	p := prune(args[0], g)
	if p.k != KPtr || e.globalObjs[p.n] {
		return nil, false
	}
	res := fn.Signature.Results()
	if recv != "" || strings.HasPrefix(name, "CompareAndSwap") || strings.HasPrefix(name, "Or") || strings.HasPrefix(name, "And") || strings.Contains(name, "Pointer") {
		if res.Len() == 0 || !strings.HasPrefix(name, "Load") {
			st.mem[p.n] = e.storePath(st.mem[p.n], p.a, mkUnknown("atomic"))
		}
		return e.unknownResult(res, "atomic"), true
	}
	cur := st.resolve(e.loadPath(st.mem[p.n], p.a))
	put := func(t *Term) { st.mem[p.n] = e.storePath(st.mem[p.n], p.a, t) }
	switch {
	case strings.HasPrefix(name, "Load"):
		return cur, true
	case strings.HasPrefix(name, "Store"):
		put(args[1])
		return mkTuple(), true
	case strings.HasPrefix(name, "Swap"):
		put(args[1])
		return cur, true
	case strings.HasPrefix(name, "Add"):
		n := add(cur, args[1])
		put(n)
		return n, true
	}
	return nil, false
}
