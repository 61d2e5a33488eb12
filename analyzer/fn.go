package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// fnInfo holds per-function facts: value numbering, liveness, loop headers.
type fnInfo struct {
	f      *ssa.Function
	idx    map[ssa.Value]int
	vals   []ssa.Value
	liveIn map[*ssa.BasicBlock]map[int]bool
	header map[*ssa.BasicBlock]bool
	join   map[*ssa.BasicBlock]bool
	liveAt map[[2]int][]bool
	thresh []int64 // constants that integers are compared with
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(f *ssa.Function) *fnInfo {
	if i, ok := fnInfos[f]; ok {
		return i
	}
	n := &fnInfo{f: f, idx: map[ssa.Value]int{}, liveIn: map[*ssa.BasicBlock]map[int]bool{},
		header: map[*ssa.BasicBlock]bool{}, join: map[*ssa.BasicBlock]bool{}, liveAt: map[[2]int][]bool{}}
	fnInfos[f] = n
	num := func(v ssa.Value) {
		n.idx[v] = len(n.vals)
		n.vals = append(n.vals, v)
	}
	for _, p := range f.Params {
		num(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				num(v)
			}
			if b, ok := in.(*ssa.BinOp); ok && isCmp(b.Op) {
				for _, y := range []ssa.Value{b.X, b.Y} {
					if c, ok := y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && isCounter(Const{c.Value, c.Type()}) {
						if k := c.Int64(); k > 1 && k < 1<<20 {
							n.thresh = append(n.thresh, k-1, k, k+1)
						}
					}
				}
			}
		}
	}
	// loop headers: targets of back edges (b dominates pred)
	for _, b := range f.Blocks {
		if len(b.Preds) > 1 {
			n.join[b] = true
		}
		for _, p := range b.Preds {
			if b.Dominates(p) {
				n.header[b] = true
			}
		}
	}
	// irreducible loops: any block on a DFS back edge
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 0 {
				dfs(s)
			} else if state[s] == 1 {
				n.header[s] = true
			}
		}
		state[b] = 2
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	// liveness
	for _, b := range f.Blocks {
		n.liveIn[b] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := n.liveOut(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				n.transfer(b.Instrs[j], live)
			}
			for v := range live {
				if !n.liveIn[b][v] {
					n.liveIn[b][v] = true
					ch = true
				}
			}
		}
	}
	return n
}

func (n *fnInfo) liveOut(b *ssa.BasicBlock) map[int]bool {
	live := map[int]bool{}
	for _, s := range b.Succs {
		for v := range n.liveIn[s] {
			live[v] = true
		}
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if k, ok := n.idx[ph.Edges[pi]]; ok {
				live[k] = true
			}
		}
	}
	return live
}

func (n *fnInfo) transfer(in ssa.Instruction, live map[int]bool) {
	if v, ok := in.(ssa.Value); ok {
		delete(live, n.idx[v])
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		if k, ok := n.idx[*op]; ok {
			live[k] = true
		}
	}
}

// liveBefore tells which values are live before instruction i of block b.
func (n *fnInfo) liveBefore(b *ssa.BasicBlock, i int) []bool {
	key := [2]int{b.Index, i}
	if r, ok := n.liveAt[key]; ok {
		return r
	}
	live := n.liveOut(b)
	for j := len(b.Instrs) - 1; j >= i; j-- {
		n.transfer(b.Instrs[j], live)
	}
	r := make([]bool, len(n.vals))
	for k := range live {
		r[k] = true
	}
	n.liveAt[key] = r
	return r
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}
