package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is an abstract heap object. Objects are copied on write (see State.mut).
type Obj struct {
	own    int
	Kind   byte // 'c': cells (a variable or struct), 'a': array, 'm': map
	T      types.Type
	F      map[string]Val // cells, by path
	Lazy   bool           // unknown cells / entries hold unknown values (instead of zero)
	P      []Piece        // array content; folded content of a map
	Exact  bool           // array: capacity is exactly the content
	M      []Entry        // map: entries, most recent last
	mi     map[string]int
	Tag    string // what it is
	Any    bool   // a token (or the like) supplied by the environment
	Shared bool   // may be reached by other streams or goroutines
	ReadO  bool   // must never be written
}

// Entry is an entry of a map. Del means that the key is known to be absent.
type Entry struct {
	K, V Val
	Del  bool
}

// Frame is an activation of a function.
type Frame struct {
	own    int
	fn     *fnInfo
	env    []Val
	free   []Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	call   ssa.Instruction // the call in the caller to be given the result (nil: discard)
	result Val             // overriding result (for models), or nil
	loops  string
	once   string // runs under this sync.Once
}
type deferred struct {
	fn   Val
	args []Val
	pos  token.Pos
}

type fact struct {
	v Val
	b bool
}
type setFact struct {
	v Val
	s IntSet
}

// Seg is an anonymous run of elements.
type Seg struct {
	Len  Val
	Attr []Val // counts, by attribute of the element kind
	Kind string
}

// RuneSeq is the sequence of runes of a string.
type RuneSeq struct {
	S Val
	P []Piece
}

// State is an abstract state: one disjunct.
type State struct {
	own     int
	frames  []*Frame
	base    map[int]*Obj
	heap    map[int]*Obj
	atoms   map[string]fact
	sets    map[string]setFact
	lins    []*Lin
	segs    map[int]*Seg
	runes   map[string]RuneSeq
	choices []int
	chIdx   int
	trace   *Trace
	depth   int
	ghost   map[string]Val
	dead    bool
	wide    bool   // generalized at a loop
	share   int    // objects up to this one are shared with other streams
	sync    []held // the locks held, and what sync.Once has done
}

// Trace is the path to a state, for reports.
type Trace struct {
	prev *Trace
	pos  token.Pos
	what string
	n    int
}

var ownCounter, idCounter int

func newOwn() int { ownCounter++; return ownCounter }
func newID() int  { idCounter++; return idCounter }

func newState() *State {
	return &State{own: newOwn(), base: map[int]*Obj{}, heap: map[int]*Obj{}, atoms: map[string]fact{},
		sets: map[string]setFact{}, segs: map[int]*Seg{}, runes: map[string]RuneSeq{}, ghost: map[string]Val{}}
}

func (s *State) clone() *State {
	c := *s
	c.own = newOwn()
	s.own = newOwn()
	c.frames = append([]*Frame(nil), s.frames...)
	c.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.atoms = make(map[string]fact, len(s.atoms))
	for k, v := range s.atoms {
		c.atoms[k] = v
	}
	c.sets = make(map[string]setFact, len(s.sets))
	for k, v := range s.sets {
		c.sets[k] = v
	}
	c.lins = append([]*Lin(nil), s.lins...)
	c.segs = make(map[int]*Seg, len(s.segs))
	for k, v := range s.segs {
		c.segs[k] = v
	}
	c.runes = make(map[string]RuneSeq, len(s.runes))
	for k, v := range s.runes {
		c.runes[k] = v
	}
	c.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	c.choices = append([]int(nil), s.choices...)
	return &c
}

func (s *State) note(pos token.Pos, what string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{s.trace, pos, what, n}
}

func (s *State) top() *Frame {
	f := s.frames[len(s.frames)-1]
	return f
}

// topMut returns the top frame for writing.
func (s *State) topMut() *Frame { return s.frameMut(len(s.frames) - 1) }
func (s *State) frameMut(i int) *Frame {
	f := s.frames[i]
	if f.own != s.own {
		g := *f
		g.own = s.own
		g.env = append([]Val(nil), f.env...)
		g.defers = append([]deferred(nil), f.defers...)
		s.frames[i] = &g
		f = &g
	}
	return f
}

func (s *State) obj(id int) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := s.base[id]; ok {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}
func (s *State) isBase(id int) bool {
	if _, ok := s.heap[id]; ok {
		return false
	}
	return true
}
func (s *State) mut(id int) *Obj {
	o := s.obj(id)
	if o.own == s.own && !s.isBase(id) {
		return o
	}
	c := *o
	c.own = s.own
	if o.F != nil {
		c.F = make(map[string]Val, len(o.F))
		for k, v := range o.F {
			c.F[k] = v
		}
	}
	c.P = append([]Piece(nil), o.P...)
	c.M = append([]Entry(nil), o.M...)
	if o.mi != nil {
		c.mi = make(map[string]int, len(o.mi))
		for k, v := range o.mi {
			c.mi[k] = v
		}
	}
	s.heap[id] = &c
	return &c
}
func (s *State) newObj(kind byte, t types.Type, tag string) int {
	id := newID()
	o := &Obj{own: s.own, Kind: kind, T: t, Tag: tag}
	if kind == 'c' {
		o.F = map[string]Val{}
	}
	if kind == 'm' {
		o.mi = map[string]int{}
	}
	s.heap[id] = o
	return id
}

func freshSym(tag string, t types.Type) *Sym { return &Sym{ID: newID(), Tag: tag, T: t} }

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

func zeroVal(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsInteger != 0:
			return cIntT(0, t)
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsFloat != 0:
			return cIntT(0, t)
		}
		return cNil()
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return Struct{u, f}
	case *types.Array:
		return Ext{Name: "zeroarray", T: t}
	}
	return cNil()
}

// ---- cells

func fieldType(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	for _, p := range strings.Split(path[1:], ".") {
		st, ok := under(t).(*types.Struct)
		if !ok {
			return nil
		}
		i, err := strconv.Atoi(p)
		if err != nil || i >= st.NumFields() {
			return nil
		}
		t = st.Field(i).Type()
	}
	return t
}

// loadCell reads the cell(s) at path of type t.
func (s *State) loadCell(id int, path string, t types.Type) Val {
	o := s.obj(id)
	if st, ok := under(t).(*types.Struct); ok {
		if v, ok := o.F[path]; ok { // opaque struct
			return v
		}
		f := make([]Val, st.NumFields())
		for i := range f {
			f[i] = s.loadCell(id, path+"."+strconv.Itoa(i), st.Field(i).Type())
		}
		return Struct{st, f}
	}
	if v, ok := o.F[path]; ok {
		return v
	}
	if o.Lazy {
		v := &Sym{ID: newID(), Tag: o.Tag + path, T: t, Owner: id, Path: path}
		if s.isBase(id) {
			o = s.mut(id)
		}
		o = s.mut(id)
		o.F[path] = v
		return v
	}
	return zeroVal(t)
}

func (s *State) storeCell(id int, path string, t types.Type, v Val) {
	if st, ok := under(t).(*types.Struct); ok {
		if sv, ok := v.(Struct); ok {
			for i := range sv.F {
				s.storeCell(id, path+"."+strconv.Itoa(i), st.Field(i).Type(), sv.F[i])
			}
			return
		}
	}
	s.mut(id).F[path] = v
}

// ---- rewriting (substitution)

// rewrite applies r to the whole state.
func (s *State) rewrite(r *renamer) {
	if r.all() == false && r.seqf == nil {
		r.st = s
	}
	for i := range s.frames {
		f := s.frames[i]
		ch := false
		for _, v := range f.env {
			if v != nil && touched(r, v) {
				ch = true
				break
			}
		}
		if !ch {
			for _, v := range f.free {
				if touched(r, v) {
					ch = true
				}
			}
			for _, d := range f.defers {
				if touched(r, d.fn) {
					ch = true
				}
				for _, a := range d.args {
					if touched(r, a) {
						ch = true
					}
				}
			}
			if f.result != nil && touched(r, f.result) {
				ch = true
			}
		}
		if !ch {
			continue
		}
		g := s.frameMut(i)
		for j, v := range g.env {
			if v != nil {
				g.env[j] = r.val(v)
			}
		}
		g.free = r.vals(g.free)
		for j, d := range g.defers {
			g.defers[j] = deferred{r.val(d.fn), r.vals(d.args), d.pos}
		}
		if g.result != nil {
			g.result = r.val(g.result)
		}
	}
	for id, o := range s.heap {
		if !objTouched(r, o) {
			continue
		}
		o = s.mut(id)
		for k, v := range o.F {
			o.F[k] = r.val(v)
		}
		o.P = r.pieces(o.P)
		if len(o.M) > 0 {
			o.mi = map[string]int{}
			for j, e := range o.M {
				o.M[j] = Entry{r.val(e.K), r.val(e.V), e.Del}
				o.mi[o.M[j].K.key()] = j
			}
		}
	}
	atoms := map[string]fact{}
	for k, f := range s.atoms {
		if !touched(r, f.v) {
			if old, ok := atoms[k]; ok && old.b != f.b {
				s.dead = true
			}
			atoms[k] = f
			continue
		}
		v := s.simp(r.val(f.v))
		if b, ok := asBool(v); ok {
			if b != f.b {
				s.dead = true
			}
			continue
		}
		b := f.b
		for {
			if a, ok := v.(*App); ok && a.Op == "not" {
				v = a.Args[0]
				b = !b
				continue
			}
			break
		}
		if old, ok := atoms[v.key()]; ok && old.b != b {
			s.dead = true
		}
		atoms[v.key()] = fact{v, b}
	}
	s.atoms = atoms
	sets := map[string]setFact{}
	for k, f := range s.sets {
		if touched(r, f.v) {
			v := r.val(f.v)
			if n, ok := asInt(v); ok {
				if !f.s.has(n) {
					s.dead = true
				}
				continue
			}
			k = v.key()
			f = setFact{v, f.s}
		}
		if old, ok := sets[k]; ok {
			f.s = f.s.inter(old.s)
			if len(f.s) == 0 {
				s.dead = true
			}
		}
		sets[k] = f
	}
	s.sets = sets
	var lins []*Lin
	for _, l := range s.lins {
		if linTouched(r, l) {
			l = toLin(r.val(l))
			if len(l.T) == 0 {
				if l.K < 0 {
					s.dead = true
				}
				continue
			}
		}
		lins = append(lins, l)
	}
	s.lins = lins
	for id, g := range s.segs {
		ch := touched(r, g.Len)
		for _, a := range g.Attr {
			if touched(r, a) {
				ch = true
			}
		}
		if ch {
			s.segs[id] = &Seg{r.val(g.Len), r.vals(g.Attr), g.Kind}
		}
	}
	for _, k := range sortedKeys(s.runes) {
		q, ok := s.runes[k]
		if !ok {
			continue
		}
		t := touched(r, q.S) || r.seqf != nil
		if !t {
			for _, p := range q.P {
				if pieceTouched(r, p) {
					t = true
				}
			}
		}
		if t {
			delete(s.runes, k)
			q = RuneSeq{r.val(q.S), r.pieces(q.P)}
			s.putRunes(q)
		}
	}
	for k, v := range s.ghost {
		if touched(r, v) {
			s.ghost[k] = r.val(v)
		}
	}
}

func linTouched(r *renamer, l *Lin) bool {
	for _, t := range l.T {
		if touched(r, t.V) {
			return true
		}
	}
	return false
}
func objTouched(r *renamer, o *Obj) bool {
	if r.seqf != nil && len(o.P) > 0 {
		return true
	}
	for _, v := range o.F {
		if touched(r, v) {
			return true
		}
	}
	for _, p := range o.P {
		if pieceTouched(r, p) {
			return true
		}
	}
	for _, e := range o.M {
		if touched(r, e.K) || touched(r, e.V) {
			return true
		}
	}
	return false
}
func pieceTouched(r *renamer, p Piece) bool {
	if p.Seg > 0 {
		return r.segsTouched(p.Seg)
	}
	return touched(r, p.Elem)
}

func touched(r *renamer, v Val) bool {
	switch v := v.(type) {
	case nil, Const:
		return false
	case *Sym:
		return r.symTouched(v)
	case *App:
		for _, a := range v.Args {
			if touched(r, a) {
				return true
			}
		}
		return false
	case *Lin:
		return linTouched(r, v)
	case Ptr:
		return r.objTouchedID(v.Obj)
	case ElemPtr:
		return r.objTouchedID(v.Arr) || touched(r, v.Idx)
	case Slice:
		return r.objTouchedID(v.Arr) || touched(r, v.Lo) || touched(r, v.Hi)
	case Fn:
		for _, a := range v.Bind {
			if touched(r, a) {
				return true
			}
		}
		return false
	case Ext:
		for _, a := range v.Data {
			if touched(r, a) {
				return true
			}
		}
		return false
	case Iface:
		return touched(r, v.V)
	case Tuple:
		for _, a := range v {
			if touched(r, a) {
				return true
			}
		}
		return false
	case Struct:
		for _, a := range v.F {
			if touched(r, a) {
				return true
			}
		}
		return false
	case MapV:
		return r.objTouchedID(v.Obj)
	case Cat:
		if r.seqf != nil {
			return true
		}
		for _, p := range v.P {
			if pieceTouched(r, p) {
				return true
			}
		}
		return false
	}
	panic(fmt.Sprintf("touched: %T", v))
}

func (r *renamer) symTouched(s *Sym) bool {
	return r.only != 0 && s.ID == r.only || r.all()
}
func (r *renamer) all() bool                { return r.only == 0 && r.onlySeg == 0 && r.seqf == nil }
func (r *renamer) objTouchedID(id int) bool { return r.all() }
func (r *renamer) segsTouched(id int) bool {
	return r.onlySeg != 0 && r.onlySeg == id || r.all()
}

// bind substitutes v for sym.
func (s *State) bind(sym *Sym, v Val) {
	if sv, ok := v.(*Sym); ok && sv.ID == sym.ID {
		return
	}
	old := sym
	q, hasRunes := s.runes[sym.key()]
	if hasRunes {
		delete(s.runes, sym.key())
	}
	if f, ok := s.sets[sym.key()]; ok {
		if n, ok := asInt(v); ok && !f.s.has(n) {
			s.dead = true
		}
	}
	r := &renamer{only: sym.ID, sym: func(x *Sym) Val {
		if x.ID == old.ID {
			return v
		}
		return x
	}}
	r.obj = func(i int) int { return i }
	r.segf = func(p Piece) []Piece { return []Piece{p} }
	s.rewrite(r)
	if hasRunes {
		s.unifyRunes(v, q.P)
	}
}

// replaceSeg substitutes a sequence of pieces for a segment, everywhere.
func (s *State) replaceSeg(id int, ps []Piece) {
	r := &renamer{onlySeg: id, sym: func(x *Sym) Val { return x }, obj: func(i int) int { return i }}
	r.segf = func(p Piece) []Piece {
		if p.Seg != id {
			return []Piece{p}
		}
		out := make([]Piece, len(ps))
		for i, q := range ps {
			out[i] = q
			if p.Proj != "" {
				out[i].Proj = p.Proj
			}
		}
		return s.projPieces(out)
	}
	s.rewrite(r)
	delete(s.segs, id)
}

// projPieces evaluates projections of known elements (texts).
func (s *State) projPieces(ps []Piece) []Piece {
	out := make([]Piece, 0, len(ps))
	for _, p := range ps {
		if p.Seg == 0 && p.Proj != "" {
			if v, ok := s.project(p.Elem, p.Proj); ok {
				if c, ok := v.(Cat); ok {
					out = append(out, c.P...)
					continue
				}
				p = Piece{Elem: v}
			}
		}
		out = append(out, p)
	}
	return out
}

// project evaluates a projection of an element.
func (s *State) project(e Val, proj string) (Val, bool) {
	if proj == "=" {
		return e, true
	}
	if proj == "fold" {
		return s.foldOf(e)
	}
	if strings.HasPrefix(proj, ".") {
		if p, ok := e.(Ptr); ok {
			o := s.obj(p.Obj)
			t := fieldType(o.T, p.Path+proj)
			if t == nil {
				return nil, false
			}
			return s.loadCell(p.Obj, p.Path+proj, t), true
		}
		return nil, false
	}
	if f := projFns[proj]; f != nil {
		return f(s, e), true
	}
	return nil, false
}

var projFns = map[string]func(*State, Val) Val{}

// ---- facts

func (s *State) addLin(l *Lin) {
	if len(l.T) == 0 {
		if l.K < 0 {
			s.dead = true
		}
		return
	}
	// normalize by gcd
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.C)
	}
	if g > 1 {
		n := &Lin{}
		for _, t := range l.T {
			n.T = append(n.T, LT{t.V, t.C / g})
		}
		n.K = floorDiv(l.K, g)
		l = n
	}
	for _, c := range s.lins {
		if c.key() == l.key() {
			return
		}
	}
	s.lins = append(s.lins, l)
}
func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// assumeGe0 adds l >= 0; if that makes l == 0, the equality is used to substitute.
func (s *State) assumeGe0(l *Lin) {
	s.addLin(l)
	if s.dead {
		return
	}
	if entailsGe0(s.lins, neg(l)) {
		s.assumeEq0(l)
		return
	}
}

// assumeEq0 adds l == 0.
func (s *State) assumeEq0(l *Lin) {
	if len(l.T) == 0 {
		if l.K != 0 {
			s.dead = true
		}
		return
	}
	// pick an atom with coefficient +-1 that is a plain symbol
	best := -1
	for i, t := range l.T {
		if t.C != 1 && t.C != -1 {
			continue
		}
		sy, ok := t.V.(*Sym)
		if !ok {
			continue
		}
		// must not occur inside the others (Apps)
		occ := false
		for j, u := range l.T {
			if j != i {
				if occursSym(u.V, sy.ID) {
					occ = true
				}
			}
		}
		if occ {
			continue
		}
		if best < 0 || sy.ID > l.T[best].V.(*Sym).ID {
			best = i
		}
	}
	if best < 0 {
		s.addLin(l)
		s.addLin(neg(l))
		// len(x) == const 0 ...
		return
	}
	t := l.T[best]
	rest := linAdd(l, &Lin{T: []LT{t}}, -1)
	var v Val
	if t.C == 1 {
		v = fromLin(neg(rest))
	} else {
		v = fromLin(rest)
	}
	s.bind(t.V.(*Sym), v)
	s.dropEmpty()
}

// dropEmpty removes segments known to be empty.
func (s *State) dropEmpty() {
	for {
		again := false
		ids := make([]int, 0, len(s.segs))
		for id := range s.segs {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			g := s.segs[id]
			if g == nil {
				continue
			}
			if n, ok := asInt(g.Len); ok && n == 0 {
				attrs := g.Attr
				s.replaceSeg(id, nil)
				for _, a := range attrs {
					s.assumeEqVal(a, cInt(0))
				}
				again = true
				break
			}
		}
		if !again {
			return
		}
	}
}

func (s *State) assumeEqVal(a, b Val) {
	s.assumeEq0(linAdd(toLin(a), toLin(b), -1))
}

func occursSym(v Val, id int) bool {
	r := &renamer{only: id}
	return touched(r, v)
}

func (s *State) provesGe0(l *Lin) bool { return entailsGe0(s.lins, l) }
func (s *State) provesEq(a, b Val) bool {
	d := linAdd(toLin(a), toLin(b), -1)
	if len(d.T) == 0 {
		return d.K == 0
	}
	return s.provesGe0(d) && s.provesGe0(neg(d))
}

func (s *State) setOf(v Val) IntSet {
	if n, ok := asInt(v); ok {
		return IntSet{{n, n}}
	}
	if f, ok := s.sets[v.key()]; ok {
		return f.s
	}
	return typeRange(valType(v))
}

func valType(v Val) types.Type {
	switch v := v.(type) {
	case Const:
		return v.T
	case *Sym:
		return v.T
	case *App:
		return v.T
	case Ext:
		return v.T
	case *Lin:
		if len(v.T) > 0 {
			return valType(v.T[0].V)
		}
	}
	return nil
}

func typeRange(t types.Type) IntSet {
	if t == nil {
		return full()
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return full()
	}
	switch b.Kind() {
	case types.Uint8:
		return IntSet{{0, 255}}
	case types.Uint16:
		return IntSet{{0, 65535}}
	case types.Uint32:
		return IntSet{{0, 1<<32 - 1}}
	case types.Int8:
		return IntSet{{-128, 127}}
	case types.Int16:
		return IntSet{{-32768, 32767}}
	case types.Int32:
		return IntSet{{-1 << 31, 1<<31 - 1}}
	case types.Uint, types.Uint64, types.Uintptr:
		return IntSet{{0, posInf}}
	}
	return full()
}

// ---- forking

type forkAlt func(*State) bool
type forkPanic struct {
	alts []forkAlt
	why  string
}

// choose picks nondeterministically among n alternatives.
func (s *State) choose(n int, why string) int {
	if s.chIdx < len(s.choices) {
		c := s.choices[s.chIdx]
		s.chIdx++
		return c
	}
	var alts []forkAlt
	for i := 0; i < n; i++ {
		i := i
		alts = append(alts, func(c *State) bool {
			c.choices = append(c.choices, i)
			return true
		})
	}
	panic(forkPanic{alts, why})
}
