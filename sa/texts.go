package main

import (
	"strconv"
	"strings"
)

// ---- functions of the standard library on texts

// differs are the functions whose result is another value than what they are
// given for some text the program has to handle, whatever it is made of.
var differs = map[string]bool{}

// parting are the functions that take a text apart or look into it: on a text
// the program was given their result is a fact about it, on one that the
// program put together it follows from how it was put together.
var parting = map[string]bool{}

func init() {
	for _, p := range []string{"strings.", "bytes."} {
		for _, f := range []string{"ToLower", "ToUpper", "ToTitle", "Title", "Replace", "ReplaceAll", "Repeat", "ToValidUTF8", "Fields", "ToLowerSpecial", "ToUpperSpecial"} {
			differs[p+f] = true
		}
		for _, f := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "SplitN", "Split",
			"HasPrefix", "HasSuffix", "Contains", "ContainsRune", "ContainsAny", "EqualFold", "Count", "Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte", "Compare"} {
			parting[p+f] = true
		}
	}
	for _, f := range []string{"Quote", "QuoteToASCII", "QuoteRune", "Unquote", "Atoi"} {
		differs["strconv."+f] = true
	}
	for _, f := range []string{"IsSpace", "IsLetter", "IsDigit", "IsNumber", "IsPunct", "IsControl", "IsGraphic", "IsPrint", "IsUpper", "IsLower", "IsTitle", "IsMark", "IsSymbol",
		"ToLower", "ToUpper", "ToTitle", "SimpleFold", "Is", "In"} {
		differs["unicode."+f] = true
	}
}

// definite tells whether the result of full on as is a value of its own, so
// that a difference from what is expected is a difference.
func definite(full string, as []*Term) bool {
	if differs[full] {
		return true
	}
	if !parting[full] {
		return false
	}
	if len(as) == 0 || !composed(as[0]) {
		return true
	}
	name := full[strings.IndexByte(full, '.')+1:]
	if len(as) > 1 && (as[1].k != KStr || strings.Trim(as[1].s, " ") != "") {
		// what is looked for is not put there by the program
		return true
	}
	// the white space of a word may be cut off
	return name == "TrimSpace" && as[0].k == KApp && (as[0].s == "join" || as[0].s == "string")
}

// composed tells whether a text was put together by the program.
func composed(a *Term) bool {
	return len(collect(a, func(t *Term) bool {
		if t.k == KText || t.k == KMu || isUnknown(t) {
			return true
		}
		if t.k != KApp {
			return false
		}
		switch t.s {
		case "join", "joinmap", "concat", "map", "flat", "filter", "string", "bytes", "bytestring", "substr", "sub", "fmtb", "itoa", "sprintf":
			return true
		}
		return false
	})) > 0
}

// mkMaybe is the result of a function that is not modelled: the same for the
// same arguments, and not known.
func mkMaybe(full string, n int64, as ...*Term) *Term {
	t := mkApp("?"+full, n, as...)
	return t
}

// ---- ends of texts

// someTurns tells whether a count is at least one.
func someTurns(n *Term) bool { return proveGE(sub(n, mkInt(1)), True) }

// unbind gives the body of a joinmap or flat with a fresh name for its turn.
func unbind(t *Term) (body, it *Term) {
	it = mkFreshSym("turn")
	return subst1(t.a[1], mkBound(int(t.n)), it), it
}

// asJoin writes the texts x(0)·sep·x(1)·sep·... as a join followed by sep, or
// sep·x(0)·sep·x(1)... as sep followed by a join.
func asJoin(t *Term, atEnd bool) (join, sep *Term) {
	if t.k != KApp || t.s != "joinmap" {
		return nil, nil
	}
	body, it := unbind(t)
	if body.k != KText {
		return nil, nil
	}
	n := len(body.a)
	if atEnd {
		sep = body.a[n-1]
		body = mkText(body.a[:n-1]...)
	} else {
		sep = body.a[0]
		body = mkText(body.a[1:]...)
	}
	if sep.k != KStr {
		return nil, nil
	}
	return mkJoin(mkMap(t.a[0], body, it), sep), sep
}

// cutTail is s without its last k bytes.
func cutTail(s *Term, k int64) *Term {
	for k > 0 {
		switch {
		case s.k == KStr:
			if int64(len(s.s)) < k {
				return nil
			}
			return mkStr(s.s[:int64(len(s.s))-k])
		case s.k == KText:
			last := s.a[len(s.a)-1]
			n := k
			if last.k == KStr {
				n = min(n, int64(len(last.s)))
			}
			c := cutTail(last, n)
			if c == nil {
				return nil
			}
			s = mkText(append(append([]*Term{}, s.a[:len(s.a)-1]...), c)...)
			k -= n
		default:
			j, sep := asJoin(s, true)
			if j == nil || int64(len(sep.s)) != k || !someTurns(s.a[0]) {
				return nil
			}
			return j
		}
	}
	return s
}

// cutHead is s without its first k bytes.
func cutHead(s *Term, k int64) *Term {
	for k > 0 {
		switch {
		case s.k == KStr:
			if int64(len(s.s)) < k {
				return nil
			}
			return mkStr(s.s[k:])
		case s.k == KText:
			first := s.a[0]
			n := k
			if first.k == KStr {
				n = min(n, int64(len(first.s)))
			}
			c := cutHead(first, n)
			if c == nil {
				return nil
			}
			s = mkText(append([]*Term{c}, s.a[1:]...)...)
			k -= n
		default:
			j, sep := asJoin(s, false)
			if j == nil || int64(len(sep.s)) != k || !someTurns(s.a[0]) {
				return nil
			}
			return j
		}
	}
	return s
}

// substr is the piece of s from lo to hi, if it can be told.
func substr(s, lo, hi *Term) *Term {
	if s.k == KStr && lo.k == KInt && hi.k == KInt && lo.n >= 0 && hi.n <= int64(len(s.s)) && lo.n <= hi.n {
		return mkStr(s.s[lo.n:hi.n])
	}
	d := sub(seqLen(s), hi)
	if lo.k != KInt || d.k != KInt || lo.n < 0 || d.n < 0 {
		return nil
	}
	if s = cutTail(s, d.n); s != nil {
		s = cutHead(s, lo.n)
	}
	return s
}

// trimmed is the result of strings.TrimSuffix and the like on a text that
// the program put together.
func trimmed(name string, s, cut *Term) *Term {
	if cut != nil && cut.k != KStr {
		return nil
	}
	switch name {
	case "TrimSuffix":
		if j, sep := asJoin(s, true); j != nil && sep == cut {
			return j
		}
		last := s
		if s.k == KText {
			last = s.a[len(s.a)-1]
		}
		if last.k == KStr && strings.HasSuffix(last.s, cut.s) {
			return cutTail(s, int64(len(cut.s)))
		}
		if last.k == KApp && last.s == "joinmap" && someTurns(last.a[0]) {
			if _, sep := asJoin(last, true); sep == cut {
				return cutTail(s, int64(len(cut.s)))
			}
		}
	case "TrimPrefix":
		if j, sep := asJoin(s, false); j != nil && sep == cut {
			return j
		}
		first := s
		if s.k == KText {
			first = s.a[0]
		}
		if first.k == KStr && strings.HasPrefix(first.s, cut.s) {
			return cutHead(s, int64(len(cut.s)))
		}
		if first.k == KApp && first.s == "joinmap" && someTurns(first.a[0]) {
			if _, sep := asJoin(first, false); sep == cut {
				return cutHead(s, int64(len(cut.s)))
			}
		}
	}
	return nil
}

// ---- formatting

// verb is one directive of a format.
type verb struct {
	flags string
	arg   int
	c     byte
}

// directive reads the directive at f[i], which follows a percent sign. The
// second result is the place after it, or a negative number.
func directive(f string, i, next int) (verb, int) {
	v := verb{arg: next}
	for i < len(f) {
		switch c := f[i]; {
		case c == '[':
			j := strings.IndexByte(f[i:], ']')
			if j < 0 {
				return v, -1
			}
			n, err := strconv.Atoi(f[i+1 : i+j])
			if err != nil || n < 1 {
				return v, -1
			}
			v.arg = n - 1
			i += j + 1
		case strings.IndexByte("+-# 0123456789.", c) >= 0:
			v.flags += string(c)
			i++
		case c == '*':
			return v, -1
		default:
			v.c = c
			return v, i + 1
		}
	}
	return v, -1
}

// sprint is the text fmt.Sprint (or Sprintln) makes of args.
func (e *Eng) sprint(args []*Term, line bool) *Term {
	isStr := func(a *Term) bool { return a.k == KIface && isStringType(a.t) && plainString(a) }
	var parts []*Term
	for i, a := range args {
		if i > 0 && (line || !isStr(args[i-1]) && !isStr(a)) {
			parts = append(parts, mkStr(" "))
		}
		switch {
		case isStr(a):
			parts = append(parts, a.a[0])
		case a.k == KIface && isIntType(a.t):
			parts = append(parts, mkApp("itoa", 0, a.a[0]))
		default:
			return nil
		}
	}
	if line {
		parts = append(parts, mkStr("\n"))
	}
	return mkText(parts...)
}
