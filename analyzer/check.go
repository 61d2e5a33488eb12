package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harness is an entry point of the analysis.
type harness struct {
	name   string
	fn     *ssa.Function
	props  map[string]bool
	attrs  []string
	groups []string
	inits  []string
	delay  int
	time   time.Duration
	doc    string
	flags  map[string]bool
}

// harnesses collects the H_ functions and their //jv: directives.
func (p *Program) harnesses() map[string]*harness {
	r := map[string]*harness{}
	for _, f := range p.byPkg[p.harn.Pkg.Path()].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			h := &harness{name: fd.Name.Name[2:], fn: p.harn.Func(fd.Name.Name), props: map[string]bool{}, groups: []string{"newtoken"}, flags: map[string]bool{}}
			r[h.name] = h
			if fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				fs := strings.Fields(c.Text)
				switch fs[0] {
				case "//jv:props":
					for _, id := range fs[1:] {
						h.props[id] = true
					}
				case "//jv:attrs":
					h.attrs = fs[1:]
				case "//jv:groups":
					h.groups = fs[1:]
				case "//jv:init":
					h.inits = fs[1:]
				case "//jv:delay":
					h.delay, _ = strconv.Atoi(fs[1])
				case "//jv:time":
					h.time, _ = time.ParseDuration(fs[1])
				case "//jv:flags":
					for _, f := range fs[1:] {
						h.flags[f] = true
					}
				default:
					h.doc += strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " ") + " "
				}
			}
		}
	}
	return r
}

// result is what the analysis of one harness gives.
type result struct {
	Harness     string
	Doc         string
	Seconds     float64
	InitSeconds float64
	Steps       int
	Forks       int
	Joins       int
	Subsumed    int
	Widened     int
	Blocks      int
	CallSites   int
	Functions   []string
	Asserts     map[string]int
	Reports     []Report
}

// runHarness analyses a harness. A violation found only in states that were generalized at loops may be due to that: it
// is reported only if it is also found in states that were not.
func (p *Program) runHarness(h *harness, prop string) *result {
	res := p.runOnce(h, prop, nil)
	tentative := map[string]bool{}
	for _, r := range res.Reports {
		if !r.Undecided && r.Wide {
			tentative[confirmKey(r)] = true
		}
	}
	for _, r := range res.Reports {
		if !r.Undecided && !r.Wide {
			delete(tentative, confirmKey(r))
		}
	}
	if len(tentative) == 0 {
		return res
	}
	sure := p.runOnce(h, prop, tentative)
	ok := map[string]bool{}
	for _, r := range append(sure.Reports, res.Reports...) {
		if !r.Undecided && !r.Wide {
			ok[confirmKey(r)] = true
		}
	}
	for i, r := range res.Reports {
		if r.Undecided || ok[confirmKey(r)] {
			continue
		}
		res.Reports[i].Undecided = true
		res.Reports[i].Msg = "undecided: only found in generalized states: " + r.Msg
	}
	res.Seconds += sure.Seconds
	return res
}

func (p *Program) runOnce(h *harness, prop string, confirm map[string]bool) (res *result) {
	t0 := time.Now()
	res = &result{Harness: h.name, Doc: strings.TrimSpace(h.doc), Asserts: map[string]int{}}
	cfg := &Config{Name: h.name, Prop: prop, Delay: h.delay, MaxTime: h.time, Flags: h.flags}
	if confirm != nil {
		cfg.Confirm, cfg.MaxTime = confirm, 120*time.Second
		if cfg.Delay < 12 {
			cfg.Delay = 12
		}
	}
	x := newExec(p, cfg)
	x.enableStd()
	if len(h.inits) > 0 {
		x.enableStubs(h.groups...)
	}
	s, err := p.newBase(x, append([]string{harnPkg}, h.inits...)...)
	if err != nil {
		res.Reports = append(res.Reports, Report{Msg: "undecided: " + err.Error(), Undecided: true})
		return
	}
	res.InitSeconds = time.Since(t0).Seconds()
	x.enableStubs(h.groups...)
	x.setupKinds(s, h.attrs)
	if h.props["C10"] {
		s.share = idCounter
	}
	x.push(s, h.fn, nil, nil, nil)
	x.run(s)
	res.Seconds = time.Since(t0).Seconds()
	res.Steps, res.Forks, res.Joins, res.Subsumed, res.Widened = x.steps, x.forks, x.joins, x.subsumed, x.widened
	for b := range x.blocks {
		if !p.isHarness(b.Parent()) {
			res.Blocks++
		}
	}
	seen := map[string]bool{}
	for f := range x.funcSet {
		if !p.isHarness(f) && p.repo[f.Pkg] || f.Pkg == nil && f.Parent() != nil && !p.isHarness(f) {
			if !seen[f.String()] {
				seen[f.String()] = true
				res.Functions = append(res.Functions, f.String())
			}
		}
	}
	sort.Strings(res.Functions)
	for pos := range x.callSites {
		if !strings.Contains(p.pos(pos), harnessDir) {
			res.CallSites++
		}
	}
	for pos, n := range x.asserts {
		res.Asserts[x.assertMsg[pos]] += n
	}
	for _, r := range x.reports {
		r.Harness = h.name
		res.Reports = append(res.Reports, r)
	}
	if res.Reports == nil && len(x.asserts) == 0 && !h.flags["noasserts"] {
		res.Reports = append(res.Reports, Report{Msg: "undecided: no assertion of the harness was reached", Undecided: true, Harness: h.name})
	}
	return
}

// cmdOne analyses one harness for one property and prints the result as JSON.
func cmdOne(args []string) {
	p, err := loadProgram(repoDir(), harnessSrc())
	if err != nil {
		json.NewEncoder(os.Stdout).Encode(&result{Harness: args[0], Reports: []Report{{Msg: "undecided: " + err.Error(), Undecided: true}}})
		return
	}
	if l := lintsFor[strings.TrimPrefix(args[0], "lint:")]; l != nil {
		rs, _ := l(p)
		json.NewEncoder(os.Stdout).Encode(&result{Harness: args[0], Reports: rs})
		return
	}
	json.NewEncoder(os.Stdout).Encode(p.runHarness(p.harnesses()[args[0]], args[1]))
}

var tagRe = regexp.MustCompile(`^((?:C\d\d )*C\d\d): `)

// tagged tells whether an assertion's message is tagged with a property.
func tagged(msg, prop string) bool {
	if prop == "" {
		return true
	}
	m := tagRe.FindStringSubmatch(msg)
	if m == nil {
		return true
	}
	for _, t := range strings.Fields(m[1]) {
		if t == prop {
			return true
		}
	}
	return false
}

// harnessProps reads the //jv:props directives without loading the program.
func harnessProps(dir string) (map[string][]string, error) {
	r := map[string][]string{}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var props []string
		for _, l := range strings.Split(string(b), "\n") {
			switch {
			case strings.HasPrefix(l, "//jv:props "):
				props = strings.Fields(l)[1:]
			case strings.HasPrefix(l, "func H_"):
				n := l[len("func H_"):]
				n = n[:strings.IndexByte(n, '(')]
				for _, id := range props {
					r[id] = append(r[id], n)
				}
				props = nil
			case !strings.HasPrefix(l, "//"):
				props = nil
			}
		}
	}
	for _, hs := range r {
		sort.Strings(hs)
	}
	return r, nil
}

// cmdCheck decides one property: exit code 0 or 1.
func cmdCheck(args []string) int {
	prop := args[0]
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	hp, err := harnessProps(harnessSrc())
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rs []*result
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	known := knownFindings(prop)
	isKnown := func(r Report) bool {
		for _, f := range known {
			if strings.Contains(r.Pos+" "+r.Msg, f) {
				return true
			}
		}
		return false
	}
	for _, n := range hp[prop] {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := &result{}
			c := exec.CommandContext(ctx, os.Args[0], "one", n, prop)
			c.Stderr = os.Stderr
			out, err := c.Output()
			if err == nil {
				err = json.Unmarshal(out, r)
			}
			for _, rep := range r.Reports {
				if err == nil && !rep.Undecided && !isKnown(rep) {
					// that settles it
					cancel()
				}
			}
			if err != nil && ctx.Err() != nil {
				r = &result{Harness: n, Reports: []Report{{Msg: "undecided: not finished, as another analysis found a violation", Undecided: true, Harness: n}}}
			} else if err != nil {
				r = &result{Harness: n, Reports: []Report{{Msg: "undecided: the analysis ended abnormally: " + err.Error(), Undecided: true, Harness: n}}}
			}
			mu.Lock()
			rs = append(rs, r)
			mu.Unlock()
		}()
	}
	// global checks over the whole program
	var lints []Report
	var lintCov map[string]any
	wg.Add(1)
	go func() {
		defer wg.Done()
		if l := lintsFor[prop]; l != nil {
			p, err := loadProgram(repoDir(), harnessSrc())
			if err != nil {
				lints = []Report{{Msg: "undecided: " + err.Error(), Undecided: true}}
				return
			}
			lints, lintCov = l(p)
		}
	}()
	wg.Wait()
	sort.Slice(rs, func(i, j int) bool { return rs[i].Harness < rs[j].Harness })
	var reports []Report
	for _, r := range rs {
		reports = append(reports, r.Reports...)
	}
	reports = append(reports, lints...)
	var bad, inconclusive []Report
	for _, r := range reports {
		if isKnown(r) {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, r.Pos, r.Msg)
			continue
		}
		if r.Undecided && undecidedIsQuiet {
			inconclusive = append(inconclusive, r)
		} else {
			bad = append(bad, r)
		}
	}
	writeEvidence(prop, tier, seed, time.Since(t0).Seconds(), rs, lintCov, bad, inconclusive)
	for _, r := range inconclusive {
		fmt.Printf("INCONCLUSIVE: property=%s %s: %s: %s\n", prop, r.Harness, r.Pos, r.Msg)
	}
	if len(bad) == 0 {
		fmt.Printf("property %s: held (%d analyses, %.1f s)\n", prop, len(rs), time.Since(t0).Seconds())
		return 0
	}
	path := filepath.Join(evidenceDir(), "replay-"+prop+".txt")
	var b strings.Builder
	for _, r := range bad {
		fmt.Fprintf(&b, "property %s is violated\n  at %s\n  rule: %s\n  analysis: %s\n  path through the code:\n", prop, r.Pos, r.Msg, r.Harness)
		for _, l := range r.Trace {
			fmt.Fprintf(&b, "    %s\n", l)
		}
		b.WriteString("\n")
	}
	os.WriteFile(path, []byte(b.String()), 0o644)
	for _, r := range bad {
		fmt.Printf("%s: %s [%s]\n", r.Pos, r.Msg, r.Harness)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

// undecidedIsQuiet: what the analysis cannot decide is reported as inconclusive, not as a violation.
const undecidedIsQuiet = true

var lintsFor = map[string]func(p *Program) ([]Report, map[string]any){}

func verifDir() string {
	if d := os.Getenv("JVVERIF"); d != "" {
		return d
	}
	return "/verif"
}

func evidenceDir() string {
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	return d
}

// knownFindings reads the recorded defects of a property that were not repaired.
func knownFindings(prop string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			r = append(r, strings.TrimSpace(strings.TrimPrefix(l, "finding: property="+prop+" ")))
		}
	}
	return r
}

func writeEvidence(prop, tier string, seed int, wall float64, rs []*result, lint map[string]any, bad, inconclusive []Report) {
	type hv struct {
		Analysis    string         `json:"analysis"`
		Doc         string         `json:"what"`
		Steps       int            `json:"instructions_interpreted"`
		Forks       int            `json:"case_splits"`
		Joins       int            `json:"join_points_visited"`
		Subsumed    int            `json:"states_subsumed"`
		Widened     int            `json:"widenings"`
		Blocks      int            `json:"basic_blocks_covered"`
		CallSites   int            `json:"call_sites"`
		Obligations map[string]int `json:"obligations_discharged"`
		Seconds     float64        `json:"seconds"`
	}
	fns := map[string]bool{}
	var hs []hv
	sites, evals, steps := 0, 0, 0
	for _, r := range rs {
		for _, f := range r.Functions {
			fns[f] = true
		}
		ob := map[string]int{}
		for m, n := range r.Asserts {
			if tagged(m, prop) {
				ob[m] = n
				sites++
				evals += n
			}
		}
		steps += r.Steps
		hs = append(hs, hv{r.Harness, r.Doc, r.Steps, r.Forks, r.Joins, r.Subsumed, r.Widened, r.Blocks, r.CallSites, ob, r.Seconds})
	}
	cov := map[string]any{
		"explanation": ruleOf[prop],
		"rule": "Abstract interpretation of the SSA form of /repo's current source to a fixpoint: an obligation is violated if an abstract state reaches it " +
			"in which it is not provably true; a possible run-time panic or a construct that cannot be decided is reported, too.",
		"analyses": hs, "functions_analysed": sortedKeys(fns), "function_count": len(fns),
		"obligation_sites": sites, "obligation_evaluations": evals, "instructions_interpreted": steps,
	}
	for k, v := range lint {
		cov[k] = v
	}
	if len(inconclusive) > 0 {
		cov["inconclusive"] = inconclusive
	}
	if len(bad) > 0 {
		cov["violations"] = bad
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall, "violations": len(bad),
		"assumptions": []string{
			"the models of the Go standard library and third-party packages used by the analysis (analyzer/*.go, analyzer/harness) are faithful",
			"integers do not overflow",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evidenceDir(), prop+".json"), append(b, '\n'), 0o644)
}

var ruleOf map[string]string

var _ = token.NoPos
