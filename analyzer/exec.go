package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec is the abstract interpreter: a worklist of states, and what has been seen at join points.
type Exec struct {
	hooks
	p       *Program
	work    []*State
	visited map[string]*visit
	cfg     *Config
	reports []Report
	seenRep map[string]bool

	steps, forks, joins, subsumed, widened, states int
	funcSet                                        map[*ssa.Function]bool
	assertMsg                                      map[token.Pos]string
	valuePath                                      string // of the text of a token
	callSites                                      map[token.Pos]bool
	asserts                                        map[token.Pos]int
	blocks                                         map[*ssa.BasicBlock]bool
	deadline                                       time.Time
	globals                                        map[*ssa.Global]int
	initPhase                                      bool
	final                                          *State
	onEnd                                          func(*State)
	onRet                                          func(Val)
}

// Config configures the analysis of one harness.
type Config struct {
	Name     string
	Delay    int // number of exact states per skeleton before generalizing
	MaxSteps int
	MaxTime  time.Duration
	NoPanic  bool            // panics are not reported
	Prop     string          // only assertions of this property are reported (all if empty)
	Confirm  map[string]bool // only states that were never generalized; until these (messages) are found
	Flags    map[string]bool
}

// Report is an alarm.
type Report struct {
	Msg   string
	Pos   string
	Trace []string

	Undecided bool
	Harness   string
	Wide      bool // the state was generalized
}

func newExec(p *Program, cfg *Config) *Exec {
	x := &Exec{p: p, cfg: cfg, visited: map[string]*visit{}, seenRep: map[string]bool{}, funcSet: map[*ssa.Function]bool{}, assertMsg: map[token.Pos]string{},
		callSites: map[token.Pos]bool{}, asserts: map[token.Pos]int{}, blocks: map[*ssa.BasicBlock]bool{}}
	if cfg.Delay == 0 {
		cfg.Delay = 3
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 240 * time.Second
		if d, err := time.ParseDuration(os.Getenv("JVTIME")); err == nil {
			cfg.MaxTime = d
		}
	}
	x.sharing = sharing{map[cell]map[string]token.Pos{}, map[cell]map[string]token.Pos{}}
	x.deadline = time.Now().Add(cfg.MaxTime)
	return x
}

var debug = os.Getenv("JVDEBUG") != ""

func (x *Exec) report(s *State, pos token.Pos, msg string) {
	if debug {
		var c canon
		sk := c.run(s, nil)
		fmt.Fprintf(os.Stderr, "!!!! report %s\n%s\nslots=%v lins=%v\n", msg, sk, keysOf(c.slots), linKeys(s.lins))
	}
	r := Report{Msg: msg, Undecided: strings.HasPrefix(msg, "undecided: "), Wide: s.wide}
	// the innermost position in the repository (not the harness)
	best := ""
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if x.p.isHarness(f.fn.f) {
			continue
		}
		pp := pos
		if i != len(s.frames)-1 || !pos.IsValid() {
			pp = instrPos(f)
		}
		best = x.p.pos(pp) + " (" + f.fn.f.String() + ")"
		break
	}
	var lines []string
	for t := s.trace; t != nil; t = t.prev {
		lines = append(lines, x.p.pos(t.pos)+": "+t.what)
		if best == "" && !strings.Contains(x.p.pos(t.pos), harnessDir) {
			best = x.p.pos(t.pos)
		}
		if len(lines) > 60 {
			break
		}
	}
	for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
		lines[i], lines[j] = lines[j], lines[i]
	}
	r.Trace = lines
	if best == "" {
		best = x.p.pos(pos)
	}
	r.Pos = best
	k := r.Msg + r.Pos
	if x.seenRep[k] {
		for i, o := range x.reports {
			if o.Wide && !r.Wide && o.Msg+o.Pos == k {
				x.reports[i] = r
			}
		}
		return
	}
	x.seenRep[k] = true
	if debug {
		var c canon
		sk := c.run(s.clone(), nil)
		fmt.Fprintf(os.Stderr, "**** report %s\n%s\nslots=%v lins=%v\n", msg, sk, keysOf(c.slots), linKeys(s.lins))
	}
	x.reports = append(x.reports, r)
}

func instrPos(f *Frame) token.Pos {
	for i := f.idx; i >= 0 && i < len(f.block.Instrs); i-- {
		if p := f.block.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return f.fn.f.Pos()
}

// push enters a function.
func (x *Exec) push(s *State, f *ssa.Function, args, free []Val, call ssa.Instruction) {
	if len(f.Blocks) == 0 {
		if f.Pkg != nil {
			f.Pkg.Build()
		}
		if len(f.Blocks) == 0 {
			undecided("call of %s, which has no body and no model", f)
		}
	}
	if len(s.frames) > 60 {
		undecided("call depth (recursion through %s)", f)
	}
	info := infoOf(f)
	x.funcSet[f] = true
	fr := &Frame{own: s.own, fn: info, env: make([]Val, len(info.vals)), free: free, block: f.Blocks[0], call: call}
	if len(args) != len(f.Params) {
		undecided("call of %s with %d arguments", f, len(args))
	}
	for i, a := range args {
		fr.env[i] = a
	}
	s.frames = append(s.frames, fr)
}

// setVal sets the value of an instruction.
func (s *State) setVal(v ssa.Value, val Val) {
	f := s.topMut()
	f.env[f.fn.idx[v]] = val
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	if c.Value.Kind() == constant.Float || c.Value.Kind() == constant.Int {
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return Const{constant.ToInt(c.Value), c.Type()}
		}
	}
	return Const{c.Value, c.Type()}
}

func (x *Exec) get(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(s, v)
	case *ssa.Function:
		return Fn{F: v}
	case *ssa.FreeVar:
		f := s.top()
		for i, fv := range f.fn.f.FreeVars {
			if fv == v {
				return f.free[i]
			}
		}
	case *ssa.Builtin:
		return Ext{Name: "builtin:" + v.Name()}
	}
	f := s.top()
	r := f.env[f.fn.idx[v]]
	if r == nil {
		panic(fmt.Sprintf("value %s of %s is not set", v.Name(), f.fn.f))
	}
	return r
}

// globalPtr gives the address of a package variable. Variables of packages outside of the
// repository are opaque.
func (x *Exec) globalPtr(s *State, g *ssa.Global) Val {
	if id, ok := x.globals[g]; ok {
		return Ptr{id, ""}
	}
	if x.p.repo[g.Pkg] || inlineStd[g.Pkg.Pkg.Path()] {
		id := s.newObj('c', g.Type().(*types.Pointer).Elem(), "var "+g.String())
		x.globals[g] = id
		if !x.initPhase {
			// created late: keep it in the base heap, too
			s.heap[id].Shared = true
			s.base[id] = s.heap[id]
			delete(s.heap, id)
		}
		return Ptr{id, ""}
	}
	return Ext{Name: "global:" + g.String(), T: g.Type()}
}

var inlineStd = map[string]bool{}

// run explores all states.
func (x *Exec) run(s *State) {
	x.work = append(x.work, s)
	half := time.Now().Add(time.Until(x.deadline) * 2 / 5)
	for len(x.work) > 0 {
		k := len(x.work) - 1
		if x.states%2 == 1 && (x.cfg.Confirm != nil || time.Now().After(half)) {
			k = 0 // it takes long: do not only look at what goes deeper and deeper
		}
		s := x.work[k]
		x.work = append(x.work[:k], x.work[k+1:]...)
		x.states++
		x.runState(s)
		if len(x.reports) >= 5 && x.cfg.Confirm == nil || x.cfg.Confirm != nil && x.confirmed() {
			return
		}
		if n := len(x.reports); n > 0 && x.cfg.Prop != "" && !x.reports[n-1].Undecided && !x.reports[n-1].Wide {
			return // a violation
		}
		if x.steps > x.cfg.MaxSteps || time.Now().After(x.deadline) {
			x.report(s, token.NoPos, fmt.Sprintf("undecided: the analysis of %s did not finish within its bounds (%d steps, %d states)", x.cfg.Name, x.steps, x.states))
			return
		}
	}
}

// confirmed tells whether all the reports to be confirmed are.
func (x *Exec) confirmed() bool {
	n := 0
	for _, r := range x.reports {
		if x.cfg.Confirm[confirmKey(r)] {
			n++
		}
	}
	return n >= len(x.cfg.Confirm)
}

// confirmKey identifies a report: an obligation of a harness, or a panic at a place.
func confirmKey(r Report) string {
	if strings.HasPrefix(r.Msg, "panic") {
		return r.Msg + " at " + r.Pos
	}
	return r.Msg
}

// runState runs one state until it ends, forks or is subsumed.
func (x *Exec) runState(s *State) {
	for n := 0; ; n++ {
		if n%1000 == 999 && time.Now().After(x.deadline) {
			x.work = append(x.work, s)
			return
		}
		if !x.step(s) {
			return
		}
	}
}

// step executes one instruction. It returns false if the state is finished.
func (x *Exec) step(s *State) (cont bool) {
	x.steps++
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case forkPanic:
				x.forks++
				for i := len(r.alts) - 1; i >= 0; i-- {
					c := s
					if i > 0 {
						c = s.clone()
					}
					c.chIdx = 0
					if func() (ok bool) {
						defer func() {
							if r := recover(); r != nil {
								if _, isDead := r.(deadPanic); isDead {
									ok = false
									return
								}
								panic(r)
							}
						}()
						return r.alts[i](c)
					}() && !c.dead {
						x.work = append(x.work, c)
					}
				}
				cont = false
			case deadPanic:
				cont = false
			case undecidedPanic:
				x.report(s, token.NoPos, "undecided: "+r.why)
				cont = false
			case rtPanic:
				if !x.cfg.NoPanic && !x.cfg.Flags["panicexit"] {
					x.report(s, r.pos, "panic: "+r.msg)
				}
				cont = false
			case failPanic:
				if tagged(r.msg, x.cfg.Prop) {
					x.report(s, r.pos, r.msg)
				}
				cont = false
			default:
				if debug {
					panic(r)
				}
				x.report(s, token.NoPos, fmt.Sprintf("undecided: internal error: %v", r))
				cont = false
			}
		}
	}()
	if s.dead {
		return false
	}
	f := s.top()
	if f.idx == 0 || f.idx == -1 {
		if f.idx == 0 && f.prev != nil || f.idx == -1 {
			// phis and checkpoint
			if f.idx == 0 {
				x.phis(s)
				f = s.top()
			}
			if !x.checkpoint(s) {
				return false
			}
			f = s.top()
		}
	}
	in := f.block.Instrs[f.idx]
	nf := len(s.frames)
	cont = x.instr(s, in)
	if s.dead {
		return false
	}
	s.choices = s.choices[:0]
	s.chIdx = 0
	_ = nf
	return cont
}

type rtPanic struct {
	pos token.Pos
	msg string
}
type failPanic struct {
	pos token.Pos
	msg string
}

// phis evaluates the phis of the block just entered and moves past them. The frame's prev is
// cleared so that this is done once; idx -1 marks a pending checkpoint.
func (x *Exec) phis(s *State) {
	f := s.topMut()
	x.blocks[f.block] = true
	pi := -1
	for i, p := range f.block.Preds {
		if p == f.prev {
			pi = i
		}
	}
	var vals []Val
	n := 0
	for _, in := range f.block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.get(s, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.env[f.fn.idx[f.block.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	f.prev = nil
	f.idx = -1
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

// checkpoint is called at the beginning of a block, after its phis.
func (x *Exec) checkpoint(s *State) bool {
	f := s.topMut()
	nf := firstNonPhi(f.block)
	f.idx = nf
	header := f.fn.header[f.block]
	if x.initPhase || !f.fn.join[f.block] && !header || x.cfg.Flags["nojoin"] {
		return true
	}
	// a fork inside of folding re-runs this checkpoint
	f.idx = -1
	restore := func() { s.topMut().idx = nf }
	s.pruneAt(nf)
	if x.noVisit(f) {
		restore()
		return true
	}
	s.gcPend()
	s.gc()
	if header {
		s.decideBools()
		s.trim()
		s.gc()
		if x.cfg.Flags["loose"] {
			s.forgetElems()
		}
		if !x.cfg.Flags["nofold"] {
			s.fold()
			s.unprojectTexts()
		}
		s.gc()
	}
	restore()
	if s.dead {
		return false
	}
	x.joins++
	var c canon
	sk := c.run(s, nil)
	if debug {
		fmt.Fprintf(os.Stderr, "---- checkpoint %s block %d header=%v\n%s\nslots=%v lins=%v\n", f.fn.f, f.block.Index, header, sk, keysOf(c.slots), linKeys(s.lins))
	}
	v := x.visited[sk]
	if v == nil {
		v = &visit{}
		x.visited[sk] = v
	}
	if v.wide != nil && v.wide.within(c.slots, s.lins) {
		x.subsumed++
		return false
	}
	for _, g := range v.exact {
		if g.within(c.slots, s.lins) {
			x.subsumed++
			return false
		}
	}
	g := exactGen(s, c.slots)
	if !header || len(v.exact) < x.cfg.Delay && v.wide == nil {
		v.exact = append(v.exact, g)
		return true
	}
	if x.cfg.Confirm != nil {
		return false
	}
	m := len(c.slots)
	var w *gen
	if v.wide == nil {
		w = g
		for _, e := range v.exact {
			w = joinGen(w, e, m, false, nil)
		}
	} else {
		w = joinGen(v.wide, g, m, v.wn > 2, s.thresholds())
	}
	v.wide = w
	v.wn++
	x.widened++
	w.instantiate(s)
	s.wide = true
	if debug {
		fmt.Fprintf(os.Stderr, "==== widened: ineqs=%v lins=%v\n", linKeys(w.ineq), linKeys(s.lins))
	}
	return true
}

// decideBools splits the cases of conditions that are kept in variables, so that loops are entered with known ones.
func (s *State) decideBools() {
	for k := range s.frames {
		for i, v := range s.frames[k].env {
			if a, ok := v.(*App); ok && isBoolApp(a) {
				s.frameMut(k).env[i] = cBool(s.decide(a))
			}
		}
	}
}

func isBoolApp(a *App) bool {
	return a.Op == "not" || a.Op == "ge0" || a.Op == "eq0" || strings.HasPrefix(a.Op, "inset:")
}

// thresholds collects the constants that integers are compared with in the functions being executed.
func (s *State) thresholds() []int64 {
	var r []int64
	seen := map[int64]bool{}
	for _, f := range s.frames {
		for _, k := range f.fn.thresh {
			if !seen[k] {
				seen[k] = true
				r = append(r, k)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func keysOf(vs []Val) []string {
	var r []string
	for _, v := range vs {
		r = append(r, v.key())
	}
	return r
}
func linKeys(vs []*Lin) []string {
	var r []string
	for _, v := range vs {
		r = append(r, v.key())
	}
	return r
}

func (s *State) pruneAt(idx int) {
	f := s.topMut()
	old := f.idx
	f.idx = idx
	s.prune()
	s.topMut().idx = old
}

// gcPend resolves pending attributes of elements before anything is dropped.
func (s *State) gcPend() {
	for _, k := range sortedKeys(s.ghost) {
		if !strings.HasPrefix(k, "pend:") {
			continue
		}
		var el Val
		s.eachVal(func(v Val) {
			if "pend:"+v.key() == k {
				el = v
			}
		})
		if el == nil {
			for _, q := range s.runes {
				for _, p := range q.P {
					if p.Seg == 0 && "pend:"+p.Elem.key() == k {
						el = p.Elem
					}
				}
			}
		}
		if el != nil {
			s.ensureAttrs(el)
		}
	}
}

// noVisit says that a frame's loops are to be executed as they are (for constant data).
func (x *Exec) noVisit(f *Frame) bool { return false }

func (x *Exec) jump(s *State, to *ssa.BasicBlock) {
	f := s.topMut()
	f.prev = f.block
	f.block = to
	f.idx = 0
}

// instr executes an instruction; the frame's idx is advanced here.
func (x *Exec) instr(s *State, in ssa.Instruction) bool {
	next := func() { s.topMut().idx++ }
	set := func(v Val) {
		s.setVal(in.(ssa.Value), v)
		next()
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		next()
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		set(x.alloc(s, t, in))
	case *ssa.BinOp:
		set(x.binop(s, in.Op, x.get(s, in.X), x.get(s, in.Y), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.UnOp:
		v := x.get(s, in.X)
		switch in.Op {
		case token.MUL:
			set(x.load(s, v, in.Type(), in.Pos()))
		case token.NOT:
			set(mkNot(v))
		case token.SUB:
			if isCounter(v) {
				set(fromLin(neg(toLin(v))))
			} else if n, ok := asInt(v); ok {
				set(cIntT(-n, in.Type()))
			} else {
				set(mkApp("neg", in.Type(), v))
			}
		case token.XOR:
			set(mkApp("cpl", in.Type(), v))
		default:
			undecided("operator %s", in.Op)
		}
	case *ssa.Store:
		x.store(s, x.get(s, in.Addr), x.get(s, in.Val), in.Val.Type(), in.Pos())
		next()
	case *ssa.FieldAddr:
		v := x.get(s, in.X)
		p := x.deref(s, v, in.Pos())
		st := under(in.X.Type()).(*types.Pointer).Elem()
		_ = st
		set(fieldOf(p, in.Field))
	case *ssa.Field:
		v := x.get(s, in.X)
		switch v := v.(type) {
		case Struct:
			set(v.F[in.Field])
		case Ext:
			set(mkApp(fmt.Sprintf("field%d", in.Field), in.Type(), v))
		default:
			set(mkApp(fmt.Sprintf("field%d", in.Field), in.Type(), v))
		}
	case *ssa.IndexAddr:
		x.indexAddr(s, in, set)
	case *ssa.Index:
		v := x.get(s, in.X)
		i := x.get(s, in.Index)
		if bt, ok := under(in.X.Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			set(x.strIndex(s, v, i, in.Pos(), in.Type()))
			return true
		}
		undecided("index of an array value")
	case *ssa.Lookup:
		x.lookup(s, in, set)
	case *ssa.MapUpdate:
		x.mapUpdate(s, x.get(s, in.Map), x.get(s, in.Key), x.get(s, in.Value), in.Pos())
		next()
	case *ssa.MakeMap:
		id := s.newObj('m', in.Type(), "map")
		x.tagObj(s, id)
		set(MapV{id})
	case *ssa.MakeSlice:
		n := x.get(s, in.Len)
		et := under(in.Type()).(*types.Slice).Elem()
		k, ok := asInt(n)
		if ok && k == 0 && isByteSlice(in.Type()) {
			set(Ext{Name: "bytes", Data: []Val{cStr("")}, T: in.Type()})
			return true
		}
		if ok && k >= 0 && k <= 64 {
			var ps []Piece
			for i := int64(0); i < k; i++ {
				ps = append(ps, Piece{Elem: zeroVal(et)})
			}
			sl := s.newArray(et, ps, x.tag(s))
			set(sl)
			return true
		}
		undecided("make of a slice of unknown length")
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range in.Bindings {
			b = append(b, x.get(s, v))
		}
		set(Fn{in.Fn.(*ssa.Function), b})
	case *ssa.MakeInterface:
		v := x.get(s, in.X)
		set(x.mkIface(v, in.X.Type()))
	case *ssa.ChangeInterface:
		set(x.get(s, in.X))
	case *ssa.ChangeType:
		v := x.get(s, in.X)
		if c, ok := v.(Const); ok && c.V != nil {
			v = Const{c.V, in.Type()}
		}
		set(v)
	case *ssa.Convert:
		set(x.convert(s, x.get(s, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(x.convert(s, x.get(s, in.X), in.X.Type(), in.Type()))
	case *ssa.Slice:
		set(x.slice(s, in))
	case *ssa.SliceToArrayPointer:
		undecided("slice to array conversion")
	case *ssa.Extract:
		t := x.get(s, in.Tuple)
		switch t := t.(type) {
		case Tuple:
			set(t[in.Index])
		default:
			undecided("extract from %T", t)
		}
	case *ssa.TypeAssert:
		x.typeAssert(s, in, set)
	case *ssa.Range:
		v := x.get(s, in.X)
		set(x.mkRange(s, v, in.X.Type()))
	case *ssa.Next:
		set(x.next(s, in))
	case *ssa.If:
		c := x.get(s, in.Cond)
		b := s.decide(c)
		f := s.top()
		if _, isC := c.(Const); !isC || !x.p.isHarness(f.fn.f) {
			pos := in.Cond.Pos()
			if !pos.IsValid() {
				pos = instrPos(f)
			}
			if !x.p.isHarness(f.fn.f) {
				s.note(pos, fmt.Sprintf("branch taken: condition %v", b))
			}
		}
		if b {
			x.jump(s, in.Block().Succs[0])
		} else {
			x.jump(s, in.Block().Succs[1])
		}
	case *ssa.Jump:
		x.jump(s, in.Block().Succs[0])
	case *ssa.Return:
		var res Val
		switch len(in.Results) {
		case 0:
			res = Tuple{}
		case 1:
			res = x.get(s, in.Results[0])
		default:
			t := Tuple{}
			for _, r := range in.Results {
				t = append(t, x.get(s, r))
			}
			res = t
		}
		return x.ret(s, res)
	case *ssa.RunDefers:
		f := s.topMut()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// execute it, and come back to this instruction
			x.call(s, d.fn, d.args, nil, d.pos)
			return true
		}
		next()
	case *ssa.Defer:
		fn, args := x.callee(s, &in.Call)
		f := s.topMut()
		f.defers = append(f.defers, deferred{fn, args, in.Pos()})
		next()
	case *ssa.Call:
		fn, args := x.callee(s, &in.Call)
		x.callSites[in.Pos()] = true
		x.call(s, fn, args, in, in.Pos())
	case *ssa.Panic:
		panic(rtPanic{in.Pos(), "explicit panic"})
	case *ssa.Go:
		fn, args := x.callee(s, &in.Call)
		gos, _ := s.ghost["goroutines"].(Tuple)
		s.ghost["goroutines"] = append(gos[:len(gos):len(gos)], append(Tuple{fn}, args...))
		next()
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		undecided("channel operation")
	default:
		undecided("instruction %T", in)
	}
	return true
}

// ret returns from the top frame.
func (x *Exec) ret(s *State, res Val) bool {
	f := s.top()
	if f.result != nil {
		res = f.result
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		if x.onRet != nil {
			x.onRet(res)
		}
		if x.onEnd != nil {
			x.onEnd(s)
		}
		x.final = s
		return false
	}
	x.finishCall(s, f.call, res)
	return true
}

// finishCall delivers the result of a call to the (now top) frame.
func (x *Exec) finishCall(s *State, call ssa.Instruction, res Val) {
	if call == nil {
		return
	}
	if v, ok := call.(ssa.Value); ok {
		s.setVal(v, res)
	}
	s.topMut().idx++
}

func (x *Exec) tag(s *State) string {
	if len(s.frames) > 0 && x.p.isHarness(s.top().fn.f) {
		return "ghost"
	}
	return ""
}
func (x *Exec) tagObj(s *State, id int) {
	if t := x.tag(s); t != "" {
		s.mut(id).Tag = t
	}
}

func (x *Exec) alloc(s *State, t types.Type, in *ssa.Alloc) Val {
	if at, ok := under(t).(*types.Array); ok {
		id := s.newObj('a', at.Elem(), x.tag(s))
		if at.Len() > 4096 {
			undecided("large array")
		}
		o := s.obj(id)
		o.Exact = true
		for i := int64(0); i < at.Len(); i++ {
			o.P = append(o.P, Piece{Elem: zeroVal(at.Elem())})
		}
		return Ptr{id, ""}
	}
	id := s.newObj('c', t, "")
	x.tagObj(s, id)
	return Ptr{id, ""}
}

// deref checks that a pointer is not nil.
func (x *Exec) deref(s *State, v Val, pos token.Pos) Val {
	switch v := v.(type) {
	case Ptr, ElemPtr:
		return v
	case Const:
		panic(rtPanic{pos, "nil pointer dereference"})
	case *Sym:
		if s.decide(s.eqVal(v, cNil())) {
			panic(rtPanic{pos, "possible nil pointer dereference"})
		}
		// it has been bound to an object: re-read
		panic(deadPanic{})
	case Ext:
		return v
	}
	undecided("dereference of %T", v)
	return nil
}

func fieldOf(p Val, i int) Val {
	switch p := p.(type) {
	case Ptr:
		return Ptr{p.Obj, fmt.Sprintf("%s.%d", p.Path, i)}
	case ElemPtr:
		return ElemPtr{p.Arr, p.Idx, fmt.Sprintf("%s.%d", p.Sub, i)}
	case Ext:
		return Ext{Name: "fieldaddr:" + p.Name, Data: append(append([]Val(nil), p.Data...), cIntT(int64(i), tRune))}
	}
	undecided("field of %T", p)
	return nil
}

func (x *Exec) load(s *State, p Val, t types.Type, pos token.Pos) Val {
	if sy, ok := p.(*Sym); ok {
		if s.decide(s.eqVal(sy, cNil())) {
			panic(rtPanic{pos, "possible nil pointer dereference"})
		}
	}
	switch p := p.(type) {
	case Ptr:
		o := s.obj(p.Obj)
		if o.Kind == 'a' {
			return Ext{Name: "arrayval", Data: []Val{p}, T: t}
		}
		x.onAccess(s, p, false, pos)
		v := s.loadCell(p.Obj, p.Path, t)
		return v
	case ElemPtr:
		e := s.elemAt(s.arrGet(p.Arr), p.Idx)
		if p.Sub == "" {
			return e
		}
		return subField(e, p.Sub)
	case Const:
		panic(rtPanic{pos, "nil pointer dereference"})
	case Ext:
		return x.extLoad(s, p, t)
	}
	undecided("load through %T", p)
	return nil
}

func subField(e Val, sub string) Val {
	for _, part := range strings.Split(sub[1:], ".") {
		st, ok := e.(Struct)
		if !ok {
			undecided("field of an element")
		}
		i := 0
		fmt.Sscanf(part, "%d", &i)
		e = st.F[i]
	}
	return e
}

func setSubField(e Val, sub string, v Val) Val {
	if sub == "" {
		return v
	}
	parts := strings.SplitN(sub[1:], ".", 2)
	st, ok := e.(Struct)
	if !ok {
		undecided("field of an element")
	}
	i := 0
	fmt.Sscanf(parts[0], "%d", &i)
	f := append([]Val(nil), st.F...)
	rest := ""
	if len(parts) > 1 {
		rest = "." + parts[1]
	}
	f[i] = setSubField(f[i], rest, v)
	return Struct{st.T, f}
}

func (x *Exec) store(s *State, p, v Val, t types.Type, pos token.Pos) {
	if sy, ok := p.(*Sym); ok {
		if s.decide(s.eqVal(sy, cNil())) {
			panic(rtPanic{pos, "possible nil pointer dereference"})
		}
	}
	switch p := p.(type) {
	case Ptr:
		o := s.obj(p.Obj)
		if o.Kind == 'a' {
			undecided("assignment of a whole array")
		}
		x.onAccess(s, p, true, pos)
		x.publish(s, p.Obj, v)
		s.storeCell(p.Obj, p.Path, t, v)
	case ElemPtr:
		if p.Sub != "" {
			e := s.elemAt(s.arrGet(p.Arr), p.Idx)
			v = setSubField(e, p.Sub, v)
		}
		x.onElemWrite(s, p.Arr, pos)
		x.publish(s, p.Arr, v)
		s.storeElem(p.Arr, p.Idx, v)
	case Const:
		panic(rtPanic{pos, "nil pointer dereference"})
	case Ext:
		x.extStore(s, p, v, pos)
	default:
		undecided("store through %T", p)
	}
}

func (x *Exec) indexAddr(s *State, in *ssa.IndexAddr, set func(Val)) {
	v := x.get(s, in.X)
	i := x.toInt(s, x.get(s, in.Index))
	v = x.matSlice(s, v)
	switch v := v.(type) {
	case Ptr: // pointer to array
		o := s.obj(v.Obj)
		n := s.piecesLen(o.P)
		x.bounds(s, i, n, in.Pos())
		set(ElemPtr{v.Obj, i, ""})
	case Slice:
		x.bounds(s, i, sub(v.Hi, v.Lo), in.Pos())
		set(ElemPtr{v.Arr, add(v.Lo, i), ""})
	case Const:
		panic(rtPanic{in.Pos(), "index out of range (empty slice)"})
	case Ext:
		set(Ext{Name: "elemaddr", Data: []Val{v, i}, T: in.Type()})
	default:
		undecided("index of %T", v)
	}
}

// matSlice turns an unknown slice into one with an unknown number of elements.
func (x *Exec) matSlice(s *State, v Val) Val {
	if sy, ok := v.(*Sym); ok && sy.T != nil {
		if m, ok := s.matSlice(sy); ok {
			s.bind(sy, m)
			return m
		}
	}
	return v
}

// toInt views an index of another integer type as an int.
func (x *Exec) toInt(s *State, v Val) Val { return v }

// bounds checks 0 <= i < n.
func (x *Exec) bounds(s *State, i, n Val, pos token.Pos) {
	if !s.decide(s.ge0(toLin(i))) {
		panic(rtPanic{pos, "index out of range (negative)"})
	}
	if !s.decide(s.ge0(linAdd(linAdd(toLin(n), toLin(i), -1), &Lin{K: -1}, 1))) {
		panic(rtPanic{pos, "index out of range"})
	}
}

func (x *Exec) slice(s *State, in *ssa.Slice) Val {
	v := x.matSlice(s, x.get(s, in.X))
	var lo, hi Val
	if in.Low != nil {
		lo = x.get(s, in.Low)
	}
	if in.High != nil {
		hi = x.get(s, in.High)
	}
	if bt, ok := under(in.X.Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		return x.substr(s, v, lo, hi, in.Pos())
	}
	var base Slice
	var capEnd Val
	switch v := v.(type) {
	case Ptr:
		o := s.obj(v.Obj)
		base = Slice{Arr: v.Obj, Lo: cInt(0), Hi: s.piecesLen(o.P)}
	case Slice:
		base = v
	case Const:
		if lo != nil && !s.decide(s.eq0(toLin(lo))) || hi != nil && !s.decide(s.eq0(toLin(hi))) {
			panic(rtPanic{in.Pos(), "slice bounds out of range"})
		}
		return v
	case Ext:
		if v.Name == "bytes" {
			return Ext{Name: "bytes", Data: []Val{x.substr(s, v.Data[0], lo, hi, in.Pos())}, T: in.Type()}
		}
		undecided("slice of %s", v.Name)
	default:
		undecided("slice of %T", v)
	}
	capEnd = s.piecesLen(s.obj(base.Arr).P)
	if lo == nil {
		lo = cInt(0)
	}
	if hi == nil {
		hi = sub(base.Hi, base.Lo)
	}
	if !s.decide(s.ge0(toLin(lo))) {
		panic(rtPanic{in.Pos(), "slice bounds out of range (negative)"})
	}
	if !s.decideGe(hi, lo) {
		panic(rtPanic{in.Pos(), "slice bounds out of range (low > high)"})
	}
	if !s.decideGe(sub(capEnd, base.Lo), hi) {
		panic(rtPanic{in.Pos(), "slice bounds out of range"})
	}
	r := Slice{Arr: base.Arr, Lo: add(base.Lo, lo), Hi: add(base.Lo, hi)}
	if in.Max != nil {
		m := x.get(s, in.Max)
		if !s.decideGe(m, hi) || !s.decideGe(sub(capEnd, base.Lo), m) {
			panic(rtPanic{in.Pos(), "slice bounds out of range (capacity)"})
		}
		r.Full = s.provesEq(m, hi)
	} else {
		r.Full = base.Full && s.provesEq(r.Hi, base.Hi)
	}
	return r
}

func (x *Exec) mkIface(v Val, t types.Type) Val {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	return Iface{t, v}
}

func (x *Exec) typeAssert(s *State, in *ssa.TypeAssert, set func(Val)) {
	v := x.get(s, in.X)
	_, toIface := under(in.AssertedType).(*types.Interface)
	okv := func(r Val, ok bool) {
		if in.CommaOk {
			if !ok {
				r = zeroVal(in.AssertedType)
			}
			set(Tuple{r, cBool(ok)})
			return
		}
		if !ok {
			panic(rtPanic{in.Pos(), "failed type assertion"})
		}
		set(r)
	}
	switch v := v.(type) {
	case Const:
		okv(v, false)
	case Iface:
		if toIface {
			okv(v, types.Implements(v.T, under(in.AssertedType).(*types.Interface)))
			return
		}
		okv(v.V, types.Identical(v.T, in.AssertedType))
	default:
		if x.envTypeAssert != nil {
			if r, ok, known := x.envTypeAssert(s, v, in.AssertedType); known {
				okv(r, ok)
				return
			}
		}
		if toIface && !in.CommaOk {
			okv(v, true)
			return
		}
		c := s.choose(2, "type assertion")
		if c == 0 {
			okv(nil, false)
			return
		}
		if toIface {
			okv(v, true)
		} else {
			okv(s.freshVal(in.AssertedType, "assert"), true)
		}
	}
}

func (x *Exec) callee(s *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := x.get(s, c.Value)
		for _, a := range c.Args {
			args = append(args, x.get(s, a))
		}
		return Ext{Name: "invoke:" + c.Method.Name(), Data: []Val{recv}, T: c.Method.Type()}, args
	}
	for _, a := range c.Args {
		args = append(args, x.get(s, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return Ext{Name: "builtin:" + b.Name(), T: c.Signature()}, args
	}
	return x.get(s, c.Value), args
}

// call calls fn; the result is delivered to instr (if not nil).
func (x *Exec) call(s *State, fn Val, args []Val, instr ssa.Instruction, pos token.Pos) {
	done := func(v Val) { x.finishCall(s, instr, v) }
	switch f := fn.(type) {
	case Fn:
		if n, ok := x.named[f.key()]; ok && x.named != nil {
			x.push(s, x.p.harn.Func("namedFilter"), append([]Val{cStr(n)}, args...), nil, instr)
			return
		}
		name := f.F.String()
		if f.F.Origin() != nil {
			name = f.F.Origin().String()
		}
		if m := x.model(name); m != nil {
			c := &Call{x: x, s: s, name: name, fn: f.F, args: args, instr: instr, pos: pos}
			r, ok := m(c)
			if ok {
				done(r)
			}
			return
		}
		if st := x.stub(name); st != nil {
			x.push(s, st, args, nil, instr)
			return
		}
		if !x.inlinable(f.F) {
			if r, ok := x.unknownCall(s, f.F, args, pos); ok {
				done(r)
				return
			}
			undecided("call of %s (no model)", name)
		}
		if !x.p.isHarness(f.F) && f.F.Synthetic == "" {
			s.note(pos, "call "+f.F.String())
		}
		x.push(s, f.F, args, f.Bind, instr)
	case Ext:
		if strings.HasPrefix(f.Name, "builtin:") {
			done(x.builtin(s, f, args, instr, pos))
			return
		}
		if strings.HasPrefix(f.Name, "invoke:") {
			x.invoke(s, f, args, instr, pos)
			return
		}
		if m := x.extModel(f.Name); m != nil {
			c := &Call{x: x, s: s, name: f.Name, ext: f, args: args, instr: instr, pos: pos}
			r, ok := m(c)
			if ok {
				done(r)
			}
			return
		}
		undecided("call of %s", f.Name)
	case Const:
		panic(rtPanic{pos, "call of a nil function"})
	case *Sym:
		undecided("call of an unknown function (%s)", f.Tag)
	default:
		undecided("call of %T", fn)
	}
}

func (x *Exec) invoke(s *State, f Ext, args []Val, instr ssa.Instruction, pos token.Pos) {
	m := strings.TrimPrefix(f.Name, "invoke:")
	switch r := f.Data[0].(type) {
	case Const:
		panic(rtPanic{pos, "method call on a nil interface"})
	case Iface:
		sel := x.p.prog.MethodSets.MethodSet(r.T).Lookup(nil, m)
		if sel == nil {
			// unexported method
			for i := 0; i < x.p.prog.MethodSets.MethodSet(r.T).Len(); i++ {
				y := x.p.prog.MethodSets.MethodSet(r.T).At(i)
				if y.Obj().Name() == m {
					sel = y
				}
			}
		}
		if sel == nil {
			undecided("method %s of %s", m, r.T)
		}
		fn := x.p.prog.MethodValue(sel)
		if fn == nil {
			undecided("method %s of %s", m, r.T)
		}
		x.call(s, Fn{F: fn}, append([]Val{r.V}, args...), instr, pos)
		return
	case *Sym:
		if b, known := s.evalBool(s.eqVal(r, cNil())); !known || b {
			if s.decide(s.eqVal(r, cNil())) {
				panic(rtPanic{pos, "method call on a possibly nil interface"})
			}
		}
		name := "iface:" + typeKey(r.T) + "." + m
		if mm := x.model(name); mm != nil {
			c := &Call{x: x, s: s, name: name, args: append([]Val{r}, args...), instr: instr, pos: pos}
			res, ok := mm(c)
			if ok {
				x.finishCall(s, instr, res)
			}
			return
		}
		undecided("method %s of an unknown %s", m, typeKey(r.T))
	case Ext:
		name := "iface:" + r.Name + "." + m
		if mm := x.model(name); mm != nil {
			c := &Call{x: x, s: s, name: name, ext: r, args: append([]Val{r}, args...), instr: instr, pos: pos}
			res, ok := mm(c)
			if ok {
				x.finishCall(s, instr, res)
			}
			return
		}
		undecided("method %s of %s", m, r.Name)
	case *App:
		name := "iface:" + r.Op + "." + m
		if mm := x.model(name); mm != nil {
			c := &Call{x: x, s: s, name: name, args: append([]Val{r}, args...), instr: instr, pos: pos}
			res, ok := mm(c)
			if ok {
				x.finishCall(s, instr, res)
			}
			return
		}
		undecided("method %s of %s", m, r.Op)
	default:
		undecided("method %s of %T", m, r)
	}
}

// inlinable tells whether a function is analysed by its body.
func (x *Exec) inlinable(f *ssa.Function) bool {
	pkg := f.Pkg
	for g := f; pkg == nil && g != nil; g = g.Parent() {
		pkg = g.Pkg
		if pkg == nil && g.Origin() != nil {
			pkg = g.Origin().Pkg
		}
	}
	if pkg == nil {
		// synthetic wrappers (bound methods, thunks)
		return len(f.Blocks) > 0 || f.Synthetic != ""
	}
	if x.p.repo[pkg] {
		return true
	}
	return inlineStd[pkg.Pkg.Path()]
}

func init() {
	for _, p := range []string{"slices", "maps", "cmp"} {
		inlineStd[p] = true
	}
}

// ---- operators

func (x *Exec) binop(s *State, op token.Token, a, b Val, opT, resT types.Type, pos token.Pos) Val {
	bt, _ := under(opT).(*types.Basic)
	isStr := bt != nil && bt.Info()&types.IsString != 0
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	switch op {
	case token.EQL, token.NEQ:
		var c Val
		switch {
		case isStr:
			c = s.strEq(a, b)
		case isInt && isWide(bt):
			c = s.eq0(linAdd(toLin(a), toLin(b), -1))
		case isInt:
			c = x.cmpEnum(s, token.EQL, a, b, opT)
		default:
			c = s.eqVal(a, b)
		}
		if op == token.NEQ {
			c = mkNot(c)
		}
		return c
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			ca, ok1 := asStr(a)
			cb, ok2 := asStr(b)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return cBool(ca < cb)
				case token.LEQ:
					return cBool(ca <= cb)
				case token.GTR:
					return cBool(ca > cb)
				default:
					return cBool(ca >= cb)
				}
			}
			return mkApp("str"+op.String(), tBool, a, b)
		}
		if isInt && isWide(bt) {
			d := linAdd(toLin(a), toLin(b), -1)
			switch op {
			case token.GEQ:
				return s.ge0(d)
			case token.GTR:
				return s.ge0(linAdd(d, &Lin{K: -1}, 1))
			case token.LEQ:
				return s.ge0(neg(d))
			default:
				return s.ge0(linAdd(neg(d), &Lin{K: -1}, 1))
			}
		}
		if isInt {
			return x.cmpEnum(s, op, a, b, opT)
		}
		return mkApp("cmp"+op.String(), tBool, a, b)
	case token.ADD:
		if isStr {
			return concat(a, b)
		}
		if isInt {
			return retype(wrap(add(a, b), resT), resT)
		}
	case token.SUB:
		if isInt {
			return retype(wrap(sub(a, b), resT), resT)
		}
	case token.MUL:
		if isInt {
			if n, ok := asInt(a); ok {
				return retype(fromLin(scale0(toLin(b), n)), resT)
			}
			if n, ok := asInt(b); ok {
				return retype(fromLin(scale0(toLin(a), n)), resT)
			}
		}
	case token.QUO, token.REM:
		if isInt {
			m, ok1 := asInt(a)
			n, ok2 := asInt(b)
			if ok2 && n == 0 {
				panic(rtPanic{pos, "division by zero"})
			}
			if ok1 && ok2 {
				if op == token.QUO {
					return cIntT(m/n, resT)
				}
				return cIntT(m%n, resT)
			}
			if !ok2 && s.decide(x.binop(s, token.EQL, b, cIntT(0, opT), opT, tBool, pos)) {
				panic(rtPanic{pos, "possible division by zero"})
			}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		m, ok1 := asInt(a)
		n, ok2 := asInt(b)
		if ok1 && ok2 {
			switch op {
			case token.AND:
				return cIntT(m&n, resT)
			case token.OR:
				return cIntT(m|n, resT)
			case token.XOR:
				return cIntT(m^n, resT)
			case token.AND_NOT:
				return cIntT(m&^n, resT)
			case token.SHL:
				return cIntT(m<<uint(n), resT)
			case token.SHR:
				return cIntT(m>>uint(n), resT)
			}
		}
		if bt != nil && bt.Info()&types.IsBoolean != 0 {
			break
		}
		return mkApp(op.String(), resT, a, b)
	}
	if c1, ok := a.(Const); ok {
		if c2, ok := b.(Const); ok && c1.V != nil && c2.V != nil && bt != nil && bt.Info()&types.IsFloat != 0 {
			return Const{constant.BinaryOp(c1.V, op, c2.V), resT}
		}
	}
	return mkApp(op.String(), resT, a, b)
}

func retype(v Val, t types.Type) Val {
	if n, ok := asInt(v); ok {
		return cIntT(n, t)
	}
	return v
}

func wrap(v Val, t types.Type) Val {
	if n, ok := asInt(v); ok {
		if b, isB := under(t).(*types.Basic); isB {
			switch b.Kind() {
			case types.Uint8:
				return cIntT(int64(uint8(n)), t)
			case types.Uint16:
				return cIntT(int64(uint16(n)), t)
			case types.Uint32:
				return cIntT(int64(uint32(n)), t)
			case types.Int32:
				return cIntT(int64(int32(n)), t)
			case types.Int8:
				return cIntT(int64(int8(n)), t)
			case types.Int16:
				return cIntT(int64(int16(n)), t)
			}
		}
	}
	return v
}

func scale0(l *Lin, n int64) *Lin {
	if n == 0 {
		return &Lin{}
	}
	return scale(l, n)
}

// cmpEnum compares integers of small types, which are described by sets.
func (x *Exec) cmpEnum(s *State, op token.Token, a, b Val, t types.Type) Val {
	na, oka := asInt(a)
	nb, okb := asInt(b)
	if oka && okb {
		switch op {
		case token.EQL:
			return cBool(na == nb)
		case token.LSS:
			return cBool(na < nb)
		case token.LEQ:
			return cBool(na <= nb)
		case token.GTR:
			return cBool(na > nb)
		default:
			return cBool(na >= nb)
		}
	}
	if oka {
		flip := map[token.Token]token.Token{token.EQL: token.EQL, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		return x.cmpEnum(s, flip[op], b, a, t)
	}
	if okb {
		var set IntSet
		switch op {
		case token.EQL:
			set = IntSet{{nb, nb}}
		case token.LSS:
			set = IntSet{{negInf, nb - 1}}
		case token.LEQ:
			set = IntSet{{negInf, nb}}
		case token.GTR:
			set = IntSet{{nb + 1, posInf}}
		default:
			set = IntSet{{nb, posInf}}
		}
		if l, ok := a.(*Lin); ok && len(l.T) == 1 && l.T[0].C == 1 {
			// arithmetic wraps around
			rng := typeRange(t)
			if len(rng) == 1 && rng[0].hi < math.MaxInt32*4 {
				size := rng[0].hi - rng[0].lo + 1
				inr := set.inter(rng)
				set = inr.union(shift(inr, size)).union(shift(inr, -size))
			}
		}
		if _, isApp := a.(*App); isApp && op == token.EQL {
			return mkEnumEq(s, a, b)
		}
		return s.inSet(a, set)
	}
	if op == token.EQL {
		if s.setOf(a).size() == 1 && s.setOf(b).size() == 1 {
			return cBool(s.setOf(a)[0].lo == s.setOf(b)[0].lo)
		}
		if len(s.setOf(a).inter(s.setOf(b))) == 0 {
			return cBool(false)
		}
		return s.eqVal(a, b)
	}
	return mkApp("cmp"+op.String(), tBool, a, b)
}

func mkEnumEq(s *State, a, b Val) Val {
	n, _ := asInt(b)
	return s.inSet(a, IntSet{{n, n}})
}

func (x *Exec) convert(s *State, v Val, from, to types.Type) Val {
	fb, _ := under(from).(*types.Basic)
	tb, _ := under(to).(*types.Basic)
	fs, _ := under(from).(*types.Slice)
	ts, _ := under(to).(*types.Slice)
	isByte := func(s *types.Slice) bool {
		b, ok := under(s.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		if n, ok := asInt(v); ok {
			return cStr(string(rune(n)))
		}
		return mkApp("runestr", tString, v)
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if n, ok := asInt(v); ok {
			return wrap(cIntT(n, to), to)
		}
		// widening of a set-described integer: keep the term if its values fit
		if s.setOf(v).subset(typeRange(to)) || isWide(fb) && isWide(tb) {
			return v
		}
		if isWide(fb) || isWide(tb) {
			// e.g. int -> uint: keep, the values are lengths and the like
			if tb.Kind() == types.Int || tb.Kind() == types.Int64 || tb.Kind() == types.Uint || tb.Kind() == types.Uint64 {
				return v
			}
		}
		return mkApp("conv:"+typeKey(to), to, v)
	case fb != nil && fb.Info()&types.IsString != 0 && ts != nil && isByte(ts):
		return Ext{Name: "bytes", Data: []Val{v}, T: to}
	case fs != nil && isByte(fs) && tb != nil && tb.Info()&types.IsString != 0:
		return x.bytesToStr(s, v)
	case fb != nil && fb.Info()&types.IsString != 0 && ts != nil:
		// []rune(s)
		get := s.runesOf(v)
		sl := s.newArray(ts.Elem(), append([]Piece(nil), get()...), x.tag(s))
		return sl
	case fs != nil && tb != nil && tb.Info()&types.IsString != 0:
		// string([]rune)
		ps := s.view(v)
		for _, k := range sortedKeys(s.runes) {
			if q := s.runes[k]; piecesKey(q.P) == piecesKey(ps) {
				if _, ok := q.S.(Const); ok {
					return q.S
				}
				// invalid bytes come out as U+FFFD
				return mkApp("string([]rune)", tString, q.S)
			}
		}
		var out []Piece
		for _, p := range ps {
			if p.Seg > 0 {
				undecided("string of an unknown number of runes")
			}
			if n, ok := asInt(p.Elem); ok {
				out = append(out, Piece{Elem: cStr(string(rune(n)))})
			} else {
				out = append(out, Piece{Elem: mkApp("runestr", tString, p.Elem)})
			}
		}
		return mkCat(out)
	}
	if c, ok := v.(Const); ok && c.V != nil {
		return Const{c.V, to}
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return v
	}
	return mkApp("conv:"+typeKey(to), to, v)
}

func (x *Exec) bytesToStr(s *State, v Val) Val {
	switch v := v.(type) {
	case Ext:
		if v.Name == "bytes" {
			return v.Data[0]
		}
		if v.Name == "bytesref" {
			p := v.Data[0].(Ptr)
			return s.loadCell(p.Obj, p.Path, tString)
		}
	case Const:
		return cStr("")
	case Slice:
		return x.anyBytes(s, v)
	}
	return mkApp("bytestr", tString, v)
}

// ---- maps

func (x *Exec) mapObj(s *State, v Val) (int, *Obj, bool) {
	if m, ok := v.(MapV); ok {
		return m.Obj, s.obj(m.Obj), true
	}
	return 0, nil, false
}

// matMap turns an unknown map into a lazily explored one.
func (x *Exec) matMap(s *State, v Val) Val {
	if sy, ok := v.(*Sym); ok && sy.T != nil {
		if _, ok := under(sy.T).(*types.Map); ok {
			id := s.newObj('m', sy.T, sy.Tag)
			o := s.mut(id)
			o.Lazy = true
			o.F = map[string]Val{"#ver": freshSym("ver", nil)}
			s.bind(sy, MapV{id})
			return MapV{id}
		}
	}
	return v
}

func (x *Exec) lookup(s *State, in *ssa.Lookup, set func(Val)) {
	m := x.get(s, in.X)
	k := x.get(s, in.Index)
	mt, isMap := under(in.X.Type()).(*types.Map)
	if !isMap {
		set(x.strIndex(s, m, k, in.Pos(), in.Type()))
		return
	}
	v, ok := x.mapGet(s, m, k, mt, in.Pos())
	if in.CommaOk {
		set(Tuple{v, ok})
	} else {
		set(v)
	}
}

func (x *Exec) mapGet(s *State, m, k Val, mt *types.Map, pos token.Pos) (Val, Val) {
	m = x.matMap(s, m)
	zero := zeroVal(mt.Elem())
	if isNil(m) {
		return zero, cBool(false)
	}
	if e, ok := m.(Ext); ok {
		if h := x.extMap; h != nil {
			return h(s, e, k, mt)
		}
	}
	id, o, ok := x.mapObj(s, m)
	if !ok {
		undecided("lookup in %T", m)
	}
	x.onMapAccess(s, id, false, pos)
	if h := x.mapHook; h != nil {
		if v, okv, done := h(s, id, k, mt, pos); done {
			return v, okv
		}
	}
	_, constKey := k.(Const)
	if x.cfg.Flags["loose"] && (o.F["#loose"] != nil || !constKey) {
		// what is in it does not matter
		if s.choose(2, "map") == 0 {
			return zero, cBool(false)
		}
		return s.freshVal(mt.Elem(), "mapvalue"), cBool(true)
	}
	if i, ok := o.mi[k.key()]; ok {
		e := o.M[i]
		if e.Del {
			return zero, cBool(false)
		}
		return e.V, cBool(true)
	}
	kc, isConst := k.(Const)
	// constant entries: is the key one of them?
	constKeys := true
	for _, e := range o.M {
		if _, ok := e.K.(Const); !ok {
			constKeys = false
		}
	}
	if isConst && kc.V != nil && constKeys && !o.Lazy && len(o.P) == 0 {
		return zero, cBool(false)
	}
	if b, ok := under(mt.Key()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 && constKeys && !o.Lazy && len(o.P) == 0 {
		return x.mapGetInt(s, o, k, zero)
	}
	if !o.Lazy && len(o.P) == 0 && constKeys && len(o.M) > 80 {
		// a large table: found or not, and if so, one of its values
		found := s.decide(mkApp("in", tBool, k, m))
		if !found {
			return zero, cBool(false)
		}
		v := mkApp("at", mt.Elem(), m, k)
		return v, cBool(true)
	}
	for i := len(o.M) - 1; i >= 0; i-- {
		e := o.M[i]
		if s.decide(s.eqAny(k, e.K, mt.Key())) {
			o = s.obj(id)
			// after the fork, keys may have been unified
			if e.Del {
				return zero, cBool(false)
			}
			return s.obj(id).M[i].V, cBool(true)
		}
	}
	if len(o.P) > 0 {
		atom := s.simp(mkApp("in", tBool, k, mkCat(o.P)))
		if s.decide(atom) {
			return o.F["#val"], cBool(true)
		}
	}
	if o.Lazy {
		ver := o.F["#ver"]
		if !s.decide(mkApp("in", tBool, k, m, ver)) {
			return zero, cBool(false)
		}
		return x.lazyEntry(s, id, k, mt)
	}
	return zero, cBool(false)
}

// lazyEntry makes the value of a key of an unknown map explicit.
func (x *Exec) lazyEntry(s *State, id int, k Val, mt *types.Map) (Val, Val) {
	v := s.freshVal(mt.Elem(), "mapvalue")
	o := s.mut(id)
	o.mi[k.key()] = len(o.M)
	o.M = append(o.M, Entry{K: k, V: v})
	return v, cBool(true)
}

// mapGetInt looks up an integer in a constant table, forking by value.
func (x *Exec) mapGetInt(s *State, o *Obj, k Val, zero Val) (Val, Val) {
	cur := s.setOf(k)
	groups := map[string]IntSet{}
	vals := map[string]Val{}
	var keys IntSet
	type kv struct {
		n int64
		v Val
	}
	var kvs []kv
	for _, e := range o.M {
		n, ok := asInt(e.K)
		if !ok {
			undecided("map key")
		}
		if cur.has(n) {
			kvs = append(kvs, kv{n, e.V})
		}
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].n < kvs[j].n })
	for _, e := range kvs {
		vk := e.v.key()
		groups[vk] = append(groups[vk], iv{e.n, e.n})
		vals[vk] = e.v
		keys = append(keys, iv{e.n, e.n})
	}
	if len(keys) == 0 {
		return zero, cBool(false)
	}
	if !s.decide(s.inSet(k, keys)) {
		return zero, cBool(false)
	}
	gk := sortedKeys(groups)
	for i, g := range gk {
		if i == len(gk)-1 || s.decide(s.inSet(k, groups[g])) {
			return vals[g], cBool(true)
		}
	}
	return zero, cBool(false)
}

func (x *Exec) mapUpdate(s *State, m, k, v Val, pos token.Pos) {
	m = x.matMap(s, m)
	if isNil(m) {
		panic(rtPanic{pos, "assignment to entry in nil map"})
	}
	id, o, ok := x.mapObj(s, m)
	if !ok {
		if e, isExt := m.(Ext); isExt && x.extMapUpdate != nil {
			x.extMapUpdate(s, e, k, v)
			return
		}
		undecided("update of %T", m)
	}
	x.onMapAccess(s, id, true, pos)
	x.publish(s, id, v)
	if h := x.mapUpdHook; h != nil && h(s, id, k, v, pos) {
		return
	}
	if _, constKey := k.(Const); x.cfg.Flags["loose"] && (o.F["#loose"] != nil || !constKey) {
		o = s.mut(id)
		if o.F == nil {
			o.F = map[string]Val{}
		}
		o.F["#loose"] = cBool(true)
		o.M, o.P, o.mi = nil, nil, map[string]int{}
		return
	}
	if i, ok := o.mi[k.key()]; ok {
		s.mut(id).M[i] = Entry{K: k, V: v}
		return
	}
	if len(o.P) > 0 && o.F["#val"].key() != v.key() {
		if a, ok := v.(*App); ok && isBoolApp(a) {
			v = cBool(s.decide(a))
			o = s.obj(id)
		}
		if o.F["#val"].key() != v.key() && s.decide(s.simp(mkApp("in", tBool, k, mkCat(o.P)))) {
			undecided("update of a map of unknown content")
		}
	}
	mt := under(o.T).(*types.Map)
	// other entries with an equal key must be known to differ
	if kc, isC := k.(Const); !isC || kc.V == nil {
		for i := len(o.M) - 1; i >= 0; i-- {
			if s.decide(s.eqAny(k, o.M[i].K, mt.Key())) {
				m := s.mut(id)
				m.M[i] = Entry{K: m.M[i].K, V: v}
				return
			}
		}
	} else {
		for i := len(o.M) - 1; i >= 0; i-- {
			if _, isC := o.M[i].K.(Const); !isC {
				if s.decide(s.eqAny(k, o.M[i].K, mt.Key())) {
					m := s.mut(id)
					m.M[i] = Entry{K: m.M[i].K, V: v}
					return
				}
			}
		}
	}
	mo := s.mut(id)
	mo.mi[k.key()] = len(mo.M)
	mo.M = append(mo.M, Entry{K: k, V: v})
}

// ---- range

func (x *Exec) mkRange(s *State, v Val, t types.Type) Val {
	id := s.newObj('c', nil, "iter")
	x.tagObj(s, id)
	o := s.mut(id)
	if _, ok := under(t).(*types.Basic); ok {
		o.F["s"] = v
		o.F["i"] = cInt(0)
		return Ext{Name: "striter", Data: []Val{Ptr{id, ""}}}
	}
	v = x.matMap(s, v)
	if isNil(v) {
		o.F["i"] = cInt(0)
		o.F["n"] = cInt(0)
		return Ext{Name: "mapiter", Data: []Val{Ptr{id, ""}}}
	}
	m, ok := v.(MapV)
	if !ok {
		undecided("range over %T", v)
	}
	if s.obj(m.Obj).F["#loose"] != nil {
		undecided("range over a map of unknown content")
	}
	if x.rangeHook != nil {
		x.rangeHook(s, m.Obj)
	}
	o.F["m"] = v
	o.F["i"] = cInt(0)
	return Ext{Name: "mapiter", Data: []Val{Ptr{id, ""}}}
}

func (x *Exec) next(s *State, in *ssa.Next) Val {
	it := x.get(s, in.Iter).(Ext)
	id := it.Data[0].(Ptr).Obj
	o := s.obj(id)
	if it.Name == "striter" {
		str := o.F["s"]
		i := o.F["i"]
		get := s.runesOf(str)
		str = s.obj(id).F["s"]
		n := s.piecesLen(get())
		if !s.decideGe(n, addK(i, 1)) {
			return Tuple{cBool(false), cInt(0), cIntT(0, tRune)}
		}
		r := s.elemAt(get, i)
		var off Val
		if k, ok := asInt(i); ok && k == 0 {
			off = cInt(0)
		} else if c, ok := asStr(str); ok {
			k, _ := asInt(i)
			j := 0
			for b := range c {
				if int64(j) == k {
					off = cInt(int64(b))
				}
				j++
			}
		}
		if off == nil {
			off = mkApp("byteoff", tInt, str, i)
			s.addLin(toLin(off))
		}
		s.mut(id).F["i"] = addK(i, 1)
		return Tuple{cBool(true), off, r}
	}
	// map
	mv, ok := o.F["m"]
	if !ok {
		return Tuple{cBool(false), cNil(), cNil()}
	}
	mo := s.obj(mv.(MapV).Obj)
	if h := x.mapIter; h != nil {
		if t, done := h(s, id, mv.(MapV).Obj, in); done {
			return t
		}
	}
	if mo.Lazy || len(mo.P) > 0 {
		undecided("iteration over an unknown map")
	}
	i, _ := asInt(o.F["i"])
	if len(mo.M) > 4 {
		// in the order of insertion
		for int(i) < len(mo.M) && mo.M[i].Del {
			i++
		}
		if int(i) >= len(mo.M) {
			return Tuple{cBool(false), cNil(), cNil()}
		}
		e := mo.M[i]
		s.mut(id).F["i"] = cInt(i + 1)
		return Tuple{cBool(true), e.K, e.V}
	}
	// in any order; i is the set of the entries done
	var left []int64
	for k, e := range mo.M {
		if !e.Del && i&(1<<k) == 0 {
			left = append(left, int64(k))
		}
	}
	if len(left) == 0 {
		return Tuple{cBool(false), cNil(), cNil()}
	}
	k := left[0]
	if len(left) > 1 {
		k = left[s.choose(len(left), "the order of a map's entries")]
	}
	e := s.obj(mv.(MapV).Obj).M[k]
	s.mut(id).F["i"] = cInt(i | 1<<k)
	return Tuple{cBool(true), e.K, e.V}
}

// ---- strings

// strIndex is s[i], a byte.
func (x *Exec) strIndex(s *State, v, i Val, pos token.Pos, t types.Type) Val {
	if c, ok := asStr(v); ok {
		if n, ok := asInt(i); ok {
			if n < 0 || n >= int64(len(c)) {
				panic(rtPanic{pos, "string index out of range"})
			}
			return cIntT(int64(c[n]), t)
		}
	}
	if !s.decide(s.ge0(toLin(i))) {
		panic(rtPanic{pos, "string index out of range (negative)"})
	}
	if !s.decideGe(s.strLen(v), addK(i, 1)) {
		panic(rtPanic{pos, "string index out of range"})
	}
	return mkApp("byteat", t, v, i)
}

// substr is s[lo:hi].
func (x *Exec) substr(s *State, v, lo, hi Val, pos token.Pos) Val {
	if lo == nil {
		lo = cInt(0)
	}
	n := s.strLen(v)
	if hi == nil {
		hi = n
	}
	if c, ok := asStr(v); ok {
		l, ok1 := asInt(lo)
		h, ok2 := asInt(hi)
		if ok1 && ok2 {
			if l < 0 || h < l || h > int64(len(c)) {
				panic(rtPanic{pos, "slice bounds out of range"})
			}
			return cStr(c[l:h])
		}
	}
	if eq(lo, cInt(0)) && s.provesEq(hi, n) {
		return v
	}
	if !s.decide(s.ge0(toLin(lo))) || !s.decideGe(hi, lo) || !s.decideGe(n, hi) {
		panic(rtPanic{pos, "slice bounds out of range"})
	}
	if s.provesEq(lo, hi) {
		return cStr("")
	}
	if x.substrHook != nil {
		if r, ok := x.substrHook(s, v, lo, hi, n); ok {
			return r
		}
	}
	return mkApp("substr", tString, v, lo, hi)
}
