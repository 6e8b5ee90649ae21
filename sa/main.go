package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	if n, _ := strconv.Atoi(os.Getenv("SA_STACK")); n > 0 {
		time.AfterFunc(time.Duration(n)*time.Second, func() {
			pprof.StopCPUProfile()
			os.Exit(3)
		})
	}
	if f := os.Getenv("SA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	dir := "/repo"
	if d := os.Getenv("SA_DIR"); d != "" {
		dir = d
	}
	if len(os.Args) == 3 && os.Args[1] == "check" {
		verif, _ := os.Getwd()
		os.Exit(check(os.Args[2], dir, verif))
	}
	if len(os.Args) >= 2 && os.Args[1] == "mutants" {
		ms, _ := mutants(dir)
		fmt.Println(len(ms))
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "mutant" {
		ms, srcs := mutants(dir)
		for i, a := range os.Args[2:] {
			k, err := strconv.Atoi(a)
			if err == nil && k < len(ms) {
				rest := append([]string{os.Args[0], "mutant"}, os.Args[3+i:]...)
				t := time.AfterFunc(40*time.Second, func() {
					fmt.Println(ms[k].head(k, dir, srcs) + "\tTIMEOUT")
					syscall.Exec("/proc/self/exe", rest, os.Environ())
				})
				defer t.Stop()
				runMutant(dir, ms, srcs, k, os.Getenv("SA_V") != "")
				t.Stop()
			}
		}
		return
	}
	e, w, err := load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if os.Getenv("SA_SPEC") != "" {
		w.build()
		s := newSpec(w)
		s.everything()
		n := map[string]int{}
		for _, o := range s.sorted() {
			for _, p := range o.Props {
				n[p+" "+o.Rule+" "+o.Status.String()]++
			}
			if o.Status != Held && (os.Getenv("SA_SPEC") == "all" || strings.Contains(strings.Join(o.Props, " "), os.Getenv("SA_SPEC"))) {
				fmt.Printf("%s %v %s [%s] %s %s\n      %.300s\n      %.400s\n", o.Status, o.Props, o.Rule, o.Root, s.pos(o.Pos), o.Fn, o.What, o.Why)
			}
		}
		for _, b := range w.bad {
			fmt.Println("BAD", b)
		}
		var ks []string
		for k := range n {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, n[k])
		}
		return
	}
	w.dumping = true
	w.build()
	_ = e
	if os.Getenv("SA_DEAD") != "" {
		for f := range ssautil.AllFunctions(e.prog) {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && !e.funcs[f] && f.Synthetic == "" {
				fmt.Println("dead", f, len(f.Blocks))
			}
		}
	}
	fmt.Println("bad:", w.bad, "atoms", len(C.atoms), "terms", len(C.terms), "bdd", len(C.nodes))
}

func (w *World) dump(n string) {
	e := w.e
	r := w.roots[n]
	if len(os.Args) > 1 && os.Args[1] != n {
		return
	}
	fmt.Printf("== %s success=%s\n   result %s\n", n, showB(r.success), r.succ)
	for _, i := range r.issues {
		fmt.Println("   ISSUE", i.rule, i.msg, e.prog.Fset.Position(i.pos), showB(i.guard))
	}
	if len(os.Args) > 1 {
		for _, ev := range r.log {
			if os.Getenv("SA_EV") == "" {
				break
			}
			fmt.Printf("   %s %s %v -> %v  @%s loops=%d if %s\n", ev.kind, ev.name, ev.args, ev.res, e.prog.Fset.Position(ev.pos), len(ev.loops), showB(ev.guard))
		}
	}
	if len(os.Args) > 1 {
		for _, L := range r.loops {
			fmt.Printf("   LOOP %d %s parents %d n=%v full=%d\n     entry %s\n     back %s\n", L.id, e.prog.Fset.Position(L.pos), len(L.parent), L.n, L.full, showB(L.entry), showB(L.back))
			for m, i := range L.mus {
				fmt.Printf("     %s (%s): init %s\n         next %s\n", m, i.key, i.init, i.next)
			}
			for _, x := range L.exits {
				fmt.Printf("     exit %s\n", showB(x.guard))
			}
		}
	}
	if os.Getenv("SA_STOP") == n {
		pprof.StopCPUProfile()
		os.Exit(0)
	}
	fmt.Println("   loops", e.loopSeq, "atoms", len(C.atoms), "terms", len(C.terms), "bdd", len(C.nodes))
}
