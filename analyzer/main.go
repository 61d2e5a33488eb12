package main

import (
	"fmt"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

func initFn(p *ssa.Package) *ssa.Function { return p.Func("init") }

// newBase executes the initialization of the repository's packages (the libraries) abstractly.
func (p *Program) newBase(x *Exec, pkgs ...string) (*State, error) {
	s := newState()
	x.globals = map[*ssa.Global]int{}
	x.initPhase = true
	for _, path := range pkgs {
		sp := p.ssa[path]
		if sp == nil {
			return nil, fmt.Errorf("package %s not found", path)
		}
		x.push(s, initFn(sp), nil, nil, nil)
		x.run(s)
		if len(x.reports) > 0 {
			return nil, fmt.Errorf("initialization of %s: %s (%s)", path, x.reports[0].Msg, x.reports[0].Pos)
		}
		s = x.final
		s.frames = nil
		s.trace = nil
	}
	x.initPhase = false
	for id, o := range s.heap {
		s.base[id] = o
	}
	s.heap = map[int]*Obj{}
	return s, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: jv run HARNESS... | jv check PROPERTY")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "one":
		cmdOne(os.Args[2:])
	case "list": // the analyses
		hp, _ := harnessProps(harnessSrc())
		all := map[string]bool{}
		for _, ns := range hp {
			for _, n := range ns {
				all[n] = true
			}
		}
		for id := range lintsFor {
			all["lint:"+id] = true
		}
		for _, n := range sortedKeys(all) {
			fmt.Println(n)
		}
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	}
}

func repoDir() string {
	if d := os.Getenv("JVREPO"); d != "" {
		return d
	}
	return "/repo"
}

func harnessSrc() string {
	if d := os.Getenv("JVHARNESS"); d != "" {
		return d
	}
	return "/verif/analyzer/harness"
}

func cmdRun(names []string) {
	t0 := time.Now()
	p, err := loadProgram(repoDir(), harnessSrc())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	hs := p.harnesses()
	if len(names) == 0 {
		names = sortedKeys(hs)
	}
	for _, n := range names {
		h := hs[n]
		if h == nil {
			fmt.Println("no harness", n)
			os.Exit(2)
		}
		r := p.runHarness(h, os.Getenv("JVPROP"))
		fmt.Printf("%-14s %6.2fs init %.2fs steps %d forks %d joins %d subsumed %d widened %d asserts %d reports %d\n", n, r.Seconds, r.InitSeconds, r.Steps, r.Forks, r.Joins, r.Subsumed, r.Widened, len(r.Asserts), len(r.Reports))
		for _, r := range r.Reports {
			fmt.Println("REPORT", r.Pos, r.Msg)
			tr := r.Trace
			if len(tr) > 30 && os.Getenv("JVTRACE") == "" {
				tr = tr[len(tr)-30:]
			}
			for _, l := range tr {
				fmt.Println("    ", l)
			}
		}
	}
}
