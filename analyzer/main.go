package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func reset() {
	E = newEngine()
	N = newInterner()
	lemmaOnce = map[string]bool{}
	symHook = nil
}

func try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(analysisFailure); ok {
				msg = a.msg
				if os.Getenv("EGTS_TRACE") != "" {
					panic(r)
				}
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

func newState() *State {
	return &State{g: T, env: map[ssa.Value]*Val{}, heap: map[*Obj]*Val{}}
}

func debug(w *World, spec string) {
	parts := strings.Split(spec, ":")
	p := w.pkg(parts[0])
	var fn *ssa.Function
	if i := strings.Index(parts[1], "."); i >= 0 {
		fn = w.method(p, parts[1][:i], parts[1][i+1:])
	} else {
		fn = p.Func(parts[1])
	}
	if fn == nil {
		fmt.Println("no function", spec)
		return
	}
	reset()
	w.resetMemo()
	an := newAnalysis(w)
	if len(parts) > 2 {
		an.boundary = func(f *ssa.Function) bool { return strings.Contains(f.String(), parts[2]) }
	}
	st := newState()
	var args []*Val
	for i, pr := range fn.Params {
		args = append(args, mkSym(pr.Type(), fmt.Sprintf("p%d", i)))
	}
	t := time.Now()
	msg := try(func() {
		r := an.call(fn, args, nil, st, "")
		fmt.Println("== result", valStrD(r, 5))
		fmt.Println("guard", E.bStr(st.g))
		for o, v := range st.heap {
			if !o.localAlloc {
				fmt.Println("  obj", o.name, "=", valStrD(v, 6))
			}
		}
	})
	if msg != "" {
		fmt.Println("!! FAIL", spec, msg)
		for _, f := range an.stack {
			fmt.Println("   in", f)
		}
	}
	for _, e := range an.events {
		x := ""
		if e.kind == "oblig" {
			d := E.Diff(e.g, e.cond)
			if !E.feasible(d) {
				continue
			}
			x = E.bStr(d)
		}
		fmt.Printf("  event %s %s %s %s args=", e.kind, e.name, w.posStr(e.pos), x)
		for _, a := range e.args {
			fmt.Print(valStrD(a, 3), " ")
		}
		fmt.Println()
	}
	for _, l := range an.loops {
		fmt.Println("  loop", l.key)
		for _, k := range l.order {
			h := l.havoc[k]
			fmt.Println("     ", k, "init", valStr(h.init), "back", valStr(h.back))
		}
	}
	fmt.Println("== time", time.Since(t), "bdd", len(E.nodes), "funcs", len(an.funcs))
}

func main() {
	verif := env("VERIF_DIR", "/verif")
	repo := env("REPO_DIR", "/repo")
	if len(os.Args) == 3 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], repo, verif))
	}
	if len(os.Args) == 5 && os.Args[1] == "part" {
		os.Exit(runPart(os.Args[2], repo, os.Args[3], os.Args[4]))
	}
	if len(os.Args) == 2 && os.Args[1] == "list" {
		for id := range checks {
			fmt.Println(id)
		}
		return
	}
	t := time.Now()
	w, err := loadWorld(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t))
	for _, a := range os.Args[1:] {
		debug(w, a)
	}
}
