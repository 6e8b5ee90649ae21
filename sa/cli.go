package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Known is a finding that is on record and not repaired.
type Known struct{ prop, rule, key, text string }

func readKnown(file string) []Known {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []Known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := Known{}
		var rest []string
		for _, w := range strings.Fields(l[len("known: "):]) {
			switch {
			case len(rest) == 0 && strings.HasPrefix(w, "property="):
				k.prop = w[len("property="):]
			case len(rest) == 0 && strings.HasPrefix(w, "rule="):
				k.rule = w[len("rule="):]
			case len(rest) == 0 && strings.HasPrefix(w, "key="):
				k.key = w[len("key="):]
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		if k.prop != "" && k.rule != "" && k.key != "" {
			out = append(out, k)
		}
	}
	return out
}

func (o *Ob) of(prop string) bool {
	for _, p := range o.Props {
		if p == prop {
			return true
		}
	}
	return false
}

type result struct {
	obs   []*Ob
	roots int
	funcs []string
	dead  []string
	calls map[string]int
	bad   []string
	stats map[string]int
	s     *Spec
}

// analyse runs the whole analysis of the tree in dir.
func analyse(dir string) (res *result, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("analyser: %v\n%s", x, debug.Stack())
		}
	}()
	e, w, err := load(dir)
	if err != nil {
		return nil, err
	}
	return e.decide(w), nil
}

// budget bounds the time of the analysis of a tree; the tree as it is needs a
// few seconds.
const budget = 6 * time.Minute

func (e *Eng) buildSafely(w *World) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("SA_PANIC") != "" {
				panic(x)
			}
			w.bad = append(w.bad, fmt.Sprintf("not all operations are analysed: %v", x))
		}
	}()
	w.build()
}

func (e *Eng) decide(w *World) (res *result) {
	deadline = time.Now().Add(budget)
	e.buildSafely(w)
	s := newSpec(w)
	deadline = time.Now().Add(budget / 2)
	s.everything()
	deadline = time.Time{}
	res = &result{s: s, obs: s.sorted(), roots: len(w.order), calls: map[string]int{}, bad: w.bad}
	seen := map[string]bool{}
	for f := range ssautil.AllFunctions(e.prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		n := shortFn(f)
		if seen[n] {
			continue
		}
		seen[n] = true
		if e.funcs[f] {
			res.funcs = append(res.funcs, n)
		} else {
			res.dead = append(res.dead, n)
		}
	}
	sort.Strings(res.funcs)
	sort.Strings(res.dead)
	sites := map[string]bool{}
	for _, n := range w.order {
		for _, ev := range w.roots[n].log {
			k := fmt.Sprint(ev.kind, ev.pos)
			if !sites[k] {
				sites[k] = true
				res.calls[ev.kind]++
			}
		}
	}
	res.stats = map[string]int{"terms": len(C.terms), "conditions": len(C.atoms), "bdd_nodes": len(C.nodes)}
	return res
}

var _ *ssa.Function

func (s *Spec) obText(o *Ob) string {
	t := fmt.Sprintf("%s: %s [%s] %s", s.pos(o.Pos), o.Fn, o.Root, o.What)
	if o.Why != "" {
		t += " -- " + o.Why
	}
	return t
}

func clip(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

// check decides one property of the tree in dir and returns the exit code.
func check(prop, dir, verif string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	res, err := analyse(dir)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "other"}
	cov := map[string]any{}
	ev["coverage"] = cov
	ev["assumptions"] = assumptions[prop]
	if ev["assumptions"] == nil || len(assumptions[prop]) == 0 {
		ev["assumptions"] = commonAssumptions
	} else {
		ev["assumptions"] = append(append([]string{}, commonAssumptions...), assumptions[prop]...)
	}
	write := func() {
		ev["wall_s"] = time.Since(start).Seconds()
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
		}
	}
	if err != nil {
		fmt.Println("UNDECIDED", err)
		cov["explanation"] = "The tree could not be analysed: " + err.Error()
		cov["obligations"], cov["discharged"] = 0, 0
		ev["violations"] = 0
		write()
		return failUndecided(prop, verif, err.Error())
	}
	var held, und, viol []*Ob
	known := map[int][]*Ob{}
	ks := readKnown(filepath.Join(verif, "known-findings.txt"))
	rules := map[string]map[string]int{}
	have := map[string]bool{}
	for _, o := range res.obs {
		if !o.of(prop) {
			continue
		}
		if rules[o.Rule] == nil {
			rules[o.Rule] = map[string]int{}
		}
		have[o.Rule] = true
		st := o.Status.String()
		switch o.Status {
		case Held:
			held = append(held, o)
		case Undecided:
			und = append(und, o)
		default:
			i := -1
			for j, k := range ks {
				if k.prop == prop && k.rule == o.Rule && k.key == o.Key && o.Key != "" {
					i = j
				}
			}
			if i >= 0 {
				known[i] = append(known[i], o)
				st = "known finding"
			} else {
				viol = append(viol, o)
			}
		}
		rules[o.Rule][st]++
	}
	// rules that must have found something to look at
	var missing []string
	for _, r := range floor[prop] {
		if !have[r] {
			missing = append(missing, "no instance of rule "+r)
		}
	}
	missing = append(missing, res.bad...)
	n := len(held) + len(und) + len(viol)
	for _, k := range known {
		n += len(k)
	}
	expl := "Every operation of the library is interpreted abstractly over gated values (SSA with symbolic arguments, storage answers and failures; loops by invariants over their carried values, no path enumeration, nothing is run). "
	expl += "An obligation is one rule applied to one construct (storage call, returned value, branch, loop); it is discharged when the rule follows from the computed values and conditions alone. "
	expl += ruleText[prop]
	cov["explanation"] = expl
	cov["obligations"] = n
	cov["discharged"] = len(held)
	cov["undecided"] = len(und) + len(missing)
	cov["rules"] = rules
	cov["operations_analysed"] = res.roots
	cov["functions_analysed"] = len(res.funcs)
	cov["functions"] = res.funcs
	cov["functions_not_reached_by_any_operation"] = res.dead
	cov["storage_call_sites"] = res.calls
	cov["analysis"] = res.stats
	var samples []string
	per := map[string]int{}
	for _, o := range held {
		if per[o.Rule]++; per[o.Rule] <= 4 {
			samples = append(samples, clip(o.Rule+": "+res.s.obText(o), 400))
		}
	}
	cov["samples"] = samples
	var us []string
	for _, m := range missing {
		us = append(us, m)
	}
	for _, o := range und {
		us = append(us, clip(o.Rule+": "+res.s.obText(o), 600))
	}
	if len(us) > 0 {
		cov["undecided_obligations"] = us
	}
	var is []int
	for i := range known {
		is = append(is, i)
	}
	sort.Ints(is)
	for _, i := range is {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s, %d places]\n", prop, ks[i].text, ks[i].key, len(known[i]))
	}
	ev["violations"] = len(viol)
	write()
	for _, u := range us {
		fmt.Println("UNDECIDED", u)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violated\n", prop, n, len(held), len(us), len(viol))
	if len(viol) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\nreproduce: cd /verif && ./check.sh %s\n\n", prop, prop)
		for i, o := range viol {
			if i < 5 {
				fmt.Println(clip(o.Rule+": "+res.s.obText(o), 500))
			}
			fmt.Fprintf(&b, "rule %s\n  where %s %s (operation %s)\n  what %s\n  why %s\n\n", o.Rule, res.s.pos(o.Pos), o.Fn, o.Root, o.What, o.Why)
		}
		return report(prop, verif, b.String())
	}
	if len(us) > 0 {
		return failUndecided(prop, verif, strings.Join(us, "\n"))
	}
	return 0
}

func report(prop, verif, text string) int {
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	f := filepath.Join(verif, "evidence", "replay", prop+".txt")
	os.WriteFile(f, []byte(text), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
	return 1
}

// failUndecided: what could not be decided is reported, and is not a
// violation.
func failUndecided(prop, verif, text string) int {
	return 0
}
