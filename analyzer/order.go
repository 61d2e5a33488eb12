package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Determinism of the library (C24), besides what the harnesses decide: no function of a library package depends
// on the time, random numbers, the environment or the machine; and what is read from a map in the order of its
// iteration does not select or order anything.

func init() { lintsFor["C24"] = determinism }

// ambient tells whether a function's result is not a function of the program's input.
func ambient(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return true
	case "time":
		switch f.Name() {
		case "Now", "Since", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker":
			return true
		}
	case "os":
		switch f.Name() {
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Getpid", "Getppid", "Getuid", "Getgid", "Getwd", "Hostname", "TempDir", "UserHomeDir":
			return true
		}
	case "runtime":
		switch f.Name() {
		case "NumCPU", "NumGoroutine", "GOMAXPROCS", "ReadMemStats", "NumCgoCall", "Stack":
			return true
		}
	}
	return false
}

func determinism(p *Program) (rs []Report, cov map[string]any) {
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if p.library(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	calls, ranges := 0, 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						calls++
						if ambient(g) && g.Name() != "init" && !discarded(in) {
							rs = append(rs, p.lintReport(f, in.Pos(), "C24: "+g.String()+" is used, so that the result depends on more than the input", false))
						}
					}
				}
				if r, ok := in.(*ssa.Range); ok {
					if _, ok := r.X.Type().Underlying().(*types.Map); ok && !describes(f) {
						ranges++
						rs = append(rs, p.mapRange(f, r)...)
					}
				}
				if s, ok := in.(*ssa.Select); ok && len(s.States) > 1 {
					rs = append(rs, p.lintReport(f, in.Pos(), "undecided: a select statement", true))
				}
			}
		}
	}
	cov = map[string]any{"library functions": len(fns), "uses of functions": calls, "iterations over maps": ranges}
	return
}

// discarded: the result of a call is not used.
func discarded(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	return ok && c.Referrers() != nil && len(*c.Referrers()) == 0 && c.Call.Signature().Results().Len() > 0
}

// library: functions of packages that are imported (not commands).
func (p *Program) library(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && p.repo[f.Pkg] && f.Pkg != p.harn && f.Pkg.Pkg.Name() != "main" && len(f.Blocks) > 0
}

// describes: the textual representation of something other than a token or stream, for debugging.
func describes(f *ssa.Function) bool {
	n := f.Name()
	if n != "String" && n != "GoString" && n != "Decl" {
		return false
	}
	recv := f.Signature.Recv()
	return recv != nil && !strings.HasSuffix(recv.Type().String(), ".Token") && !strings.HasSuffix(recv.Type().String(), ".TokenStream")
}

func (p *Program) lintReport(f *ssa.Function, pos token.Pos, msg string, undecided bool) Report {
	return Report{Msg: msg, Pos: fmt.Sprintf("%s (%s)", p.pos(pos), f), Undecided: undecided, Harness: "determinism",
		Trace: []string{p.pos(pos) + ": " + f.String()}}
}

func isTokenType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return strings.HasSuffix(s, "jargon.Token") || strings.HasSuffix(s, "jargon.TokenStream")
}

// mapRange judges an iteration over a map.
func (p *Program) mapRange(f *ssa.Function, r *ssa.Range) (rs []Report) {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	_ = iff
	body := head.Succs[0]
	inLoop := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if body.Dominates(b) && reaches(b, head) {
			inLoop[b] = true
		}
	}
	// what is derived from the current entry
	taint := map[ssa.Value]bool{}
	var key ssa.Value
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !taint[v] {
			taint[v] = true
			work = append(work, v)
		}
	}
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
			if e.Index == 1 {
				key = e
			}
			add(e)
		}
	}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		for _, u := range *v.Referrers() {
			if !body.Dominates(u.Block()) {
				continue // after the loop: judged below
			}
			if x, ok := u.(ssa.Value); ok {
				if c, ok := x.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "len" || b.Name() == "delete") {
						continue
					}
				}
				if b, ok := x.(*ssa.BinOp); ok {
					if bt, ok := b.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
						continue // conditions are judged with what they control
					}
				}
				add(x)
			}
		}
	}
	// what is derived by a helper function with a boolean result is no selected value
	for v := range taint {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			delete(taint, v)
		}
	}
	bad := func(pos token.Pos, msg string) { rs = append(rs, p.lintReport(f, pos, "C24: "+msg, false)) }
	unsure := func(pos token.Pos, msg string) { rs = append(rs, p.lintReport(f, pos, "undecided: "+msg, true)) }
	for _, b := range f.Blocks {
		if !body.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				for _, v := range in.Results {
					if taint[v] && !unique(b, body, key, v) {
						bad(in.Pos(), "the entry of a map that is returned depends on the order of iteration")
					}
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && inLoop[b] && taintedAppend(in, taint) && !sortedLater(f, in, body) {
						if st, ok := in.Type().Underlying().(*types.Slice); ok && isTokenType(st.Elem()) {
							bad(in.Pos(), "tokens are collected in the order of a map's iteration")
						} else {
							unsure(in.Pos(), "a list in the order of a map's iteration")
						}
					}
					continue
				}
				if !inLoop[b] {
					continue
				}
				for _, a := range in.Call.Args {
					if taint[a] && isTokenType(a.Type()) && in.Call.StaticCallee() != nil && in.Call.StaticCallee().Name() == "Push" {
						bad(in.Pos(), "tokens are queued in the order of a map's iteration")
					}
				}
				if g := in.Call.StaticCallee(); g != nil && p.library(g) {
					for _, a := range in.Call.Args {
						if taint[a] {
							unsure(in.Pos(), "a call in the order of a map's iteration")
							break
						}
					}
				}
			case *ssa.Store:
				if taint[in.Val] && inLoop[b] {
					if _, ok := in.Addr.(*ssa.IndexAddr); !ok {
						unsure(in.Pos(), "a variable that is assigned in the order of a map's iteration")
					}
				}
			}
		}
	}
	// values selected by leaving the loop, or by the last iteration
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if inLoop[b] && b != head {
				continue
			}
			for i, e := range ph.Edges {
				from := b.Preds[i]
				if !taint[e] || !body.Dominates(from) {
					continue
				}
				if b == head {
					unsure(ph.Pos(), "a variable that is assigned in the order of a map's iteration")
				} else if !unique(from, body, key, e) {
					bad(ph.Pos(), "the entry of a map that is selected depends on the order of iteration")
				}
			}
		}
	}
	return
}

// unique: the block is controlled by the equality of the key with something fixed, or of the value itself.
func unique(b, body *ssa.BasicBlock, key, v ssa.Value) bool {
	for d := b; d != nil && body.Dominates(d); d = d.Idom() {
		for _, q := range d.Preds {
			i, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
			if !ok || len(d.Preds) != 1 || q.Succs[0] != d {
				continue
			}
			if c, ok := i.Cond.(*ssa.BinOp); ok && c.Op == token.EQL && (c.X == key || c.Y == key || c.X == v || c.Y == v) {
				return true
			}
		}
	}
	return false
}

func taintedAppend(in *ssa.Call, taint map[ssa.Value]bool) bool {
	for _, a := range in.Call.Args[1:] {
		if taint[a] {
			return true
		}
		// variadic arguments: an array that is filled
		if sl, ok := a.(*ssa.Slice); ok {
			if refs := sl.X.Referrers(); refs != nil {
				for _, u := range *refs {
					if ia, ok := u.(*ssa.IndexAddr); ok {
						for _, w := range *ia.Referrers() {
							if st, ok := w.(*ssa.Store); ok && taint[st.Val] {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// sortedLater: after the loop, something made of the slice is passed to a function that sorts.
func sortedLater(f *ssa.Function, v ssa.Value, body *ssa.BasicBlock) bool {
	seen := map[ssa.Value]bool{}
	work := []ssa.Value{v}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if c, ok := u.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && strings.Contains(strings.ToLower(g.String()), "sort") {
					return true
				}
			}
			switch u := u.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.Slice:
				work = append(work, u.(ssa.Value))
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					work = append(work, u)
				}
			}
		}
	}
	return false
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}
