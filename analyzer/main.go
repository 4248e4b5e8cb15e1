package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func repoDir() string {
	if d := os.Getenv("GOOSLI_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: az check <property> | az ssa FN | az eval FN | az evalall [skip]")
		os.Exit(2)
	}
	if os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "ssa":
		for _, f := range p.allFuncs {
			if f.String() == os.Args[2] {
				f.WriteTo(os.Stdout)
			}
		}
	case "effects":
		r := p.regions()
		for _, f := range p.funcs {
			var es []string
			for e := range r.of(f).mods {
				es = append(es, fmt.Sprintf("%s tail=%v%s", e.Reg.describe(f), e.Tail, r.why(f, e)))
			}
			sort.Strings(es)
			if len(es) > 0 {
				fmt.Println(stripRepo(f.String()) + "\n    " + strings.Join(es, "\n    "))
			}
		}
	case "evalall":
		evalAll(p)
	case "eval":
		dbgLoops = len(os.Args) > 3
		for _, f := range p.allFuncs {
			if f.String() == os.Args[2] {
				evalShow(p, f)
			}
		}
	}
}

func evalShow(p *Program, f *ssa.Function) {
	t00 := time.Now()
	it := newInterp(p, Client{NoMu: os.Getenv("AZ_NOMU") != "", Opaque: opaqueNamed(strings.Split(os.Getenv("AZ_OPAQUE"), ",")...)})
	st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
	r := it.Call(f, argTerms(f), nil, st, "T")
	fmt.Println("took", time.Since(t00))
	fmt.Println("cond:", st.cond)
	fmt.Println("ret:", it.snap(st, r, 0))
	if os.Getenv("AZ_RAW") != "" {
		fmt.Println("raw:", r, "seq", it.seqOf(st, r))
	}
	for _, o := range sortedObjs(st.mem) {
		if isInitial(o) {
			fmt.Println("mem", o, "=", st.mem[o])
		}
	}
	var show func(es []*Event, ind string)
	show = func(es []*Event, ind string) {
		for _, e := range es {
			fmt.Println(ind, e.Kind, p.pos(e.Pos), "cond", e.Cond, e.Args, e.Note)
			if e.Loop != nil {
				fmt.Println(ind, "  N =", e.Loop.N, "early", e.Loop.Early)
				for _, s := range e.Loop.Syms {
					fmt.Println(ind, "  sym", s.Term, "init", s.Init, "next", s.Next, "closed", s.closed != nil)
				}
				show(e.Sub, ind+"    ")
			}
		}
	}
	show(*it.sink, "")
	fmt.Println("notes", it.notes)
}

func evalAll(p *Program) {
	for _, f := range p.funcs {
		if f.Parent() != nil || f.Synthetic != "" || len(os.Args) > 2 && !strings.Contains(f.String(), os.Args[2]) {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("PANIC", f, r)
				}
			}()
			t0 := time.Now()
			deadline = t0.Add(10 * time.Second)
			it := newInterp(p, Client{Opaque: stdOpaque(p)})
			st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
			it.Call(f, argTerms(f), nil, st, "T")
			fmt.Println(f, time.Since(t0), termSeq, it.notes)
		}()
	}
}

var traceCalls = os.Getenv("AZ_CALLS") != ""
