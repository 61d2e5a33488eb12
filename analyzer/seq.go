package main

import (
	"go/types"
	"sort"
)

// Kind describes the elements of segments.
type Kind struct {
	Name string
	T    types.Type
	Mk   func(s *State) Val
	// Attr evaluates the attributes (counts or sums) of one element. It may fork.
	Attr func(s *State, e Val) []Val
	N    int // number of attributes
	// Inv, if set, must provably hold for an element to become part of a segment; Mk establishes it.
	Inv func(s *State, e Val) bool
}

var kinds = map[string]*Kind{}

func (s *State) newSeg(kind string, ln Val) int {
	k := kinds[kind]
	id := newID()
	g := &Seg{Len: ln, Kind: kind}
	if k != nil {
		for i := 0; i < k.N; i++ {
			a := freshSym("attr", tInt)
			g.Attr = append(g.Attr, a)
			s.addLin(toLin(a))
		}
	}
	s.segs[id] = g
	return id
}

// anySeg makes a segment of unknown length (>= 0).
func (s *State) anySeg(kind string) int {
	l := freshSym("len", tInt)
	s.addLin(toLin(l))
	return s.newSeg(kind, l)
}

func (s *State) pieceLen(p Piece) Val {
	if p.Seg > 0 {
		return s.segs[p.Seg].Len
	}
	return cInt(1)
}
func (s *State) piecesLen(ps []Piece) Val {
	var l Val = cInt(0)
	for _, p := range ps {
		l = add(l, s.pieceLen(p))
	}
	return l
}

// splitAt makes pos a boundary between pieces and returns the index of the piece that follows.
// The caller has established 0 <= pos <= length.
func (s *State) splitAt(get func() []Piece, pos Val) int {
	var c Val = cInt(0)
	ps := get()
	for i := 0; i < len(ps); i++ {
		if s.provesEq(pos, c) {
			return i
		}
		l := s.pieceLen(ps[i])
		if s.decideGe(pos, add(c, l)) {
			c = add(c, l)
			continue
		}
		if s.decideEqInt(pos, c) {
			return i
		}
		if ps[i].Seg == 0 {
			// c < pos < c+1: impossible
			s.dead = true
			panic(deadPanic{})
		}
		g := s.segs[ps[i].Seg]
		a := s.newSeg(g.Kind, sub(pos, c))
		b := s.newSeg(g.Kind, sub(add(c, l), pos))
		for j := range g.Attr {
			// attr(b) = attr(seg) - attr(a)
			s.segs[b].Attr[j] = sub(g.Attr[j], s.segs[a].Attr[j])
			s.addLin(toLin(s.segs[b].Attr[j]))
		}
		s.addSegFacts(a)
		s.addSegFacts(b)
		s.replaceSeg(ps[i].Seg, []Piece{{Seg: a}, {Seg: b}})
		ps = get()
		return i + 1
	}
	return len(ps)
}

// addSegFacts states the facts relating count attributes to the length.
func (s *State) addSegFacts(id int) {
	g := s.segs[id]
	s.addLin(toLin(g.Len))
	k := kinds[g.Kind]
	if k == nil {
		return
	}
	for j := range g.Attr {
		s.addLin(toLin(g.Attr[j]))
		if countAttr(k, j) {
			s.addLin(linAdd(toLin(g.Len), toLin(g.Attr[j]), -1))
		}
	}
}

// elemAt returns the element at position pos (which the caller has shown to be within bounds).
func (s *State) elemAt(get func() []Piece, pos Val) Val {
	i := s.splitAt(get, pos)
	for {
		ps := get()
		if i >= len(ps) {
			s.dead = true
			panic(deadPanic{})
		}
		p := ps[i]
		if p.Seg == 0 {
			return s.ensureAttrs(p.Elem)
		}
		g := s.segs[p.Seg]
		// the element exists, so the segment is not empty, unless it can be
		if !s.decideGe(g.Len, cInt(1)) {
			s.dropEmpty()
			continue
		}
		s.unfoldFront(p.Seg)
	}
}

// unfoldFront splits a (nonempty) segment into its first element and the rest.
func (s *State) unfoldFront(id int) Val {
	g := s.segs[id]
	k := kinds[g.Kind]
	e := s.mkElem(k)
	rest := s.newSeg(g.Kind, addK(g.Len, -1))
	if k != nil && k.N > 0 {
		ind := make([]Val, k.N)
		for j := range ind {
			b := freshSym("ind", tInt)
			s.addLin(toLin(b))
			if countAttr(k, j) {
				s.addLin(linAdd(&Lin{K: 1}, toLin(b), -1))
			}
			ind[j] = b
			s.segs[rest].Attr[j] = sub(g.Attr[j], b)
		}
		s.ghost["pend:"+e.key()] = Tuple(ind)
	}
	s.addSegFacts(rest)
	s.replaceSeg(id, []Piece{{Elem: e}, {Seg: rest}})
	if n, ok := asInt(s.segs[rest].Len); ok && n == 0 {
		s.dropEmpty()
	}
	return e
}

func (s *State) mkElem(k *Kind) Val {
	if k == nil {
		return freshSym("elem", nil)
	}
	return k.Mk(s)
}

func countAttr(k *Kind, j int) bool {
	return k.Name != "bytes" && !(len(k.Name) > 0 && sumAttrs[k.Name] == j+1)
}

// sumAttrs says which attribute (1-based) of a kind is a sum, not a count.
var sumAttrs = map[string]int{}

// ensureAttrs decides the attributes of an element that was taken out of a segment.
func (s *State) ensureAttrs(e Val) Val {
	key := "pend:" + e.key()
	pend, ok := s.ghost[key]
	if !ok {
		return e
	}
	k := kindOf(s, e)
	if k == nil {
		delete(s.ghost, key)
		return e
	}
	vals := k.Attr(s, e) // may fork
	delete(s.ghost, key)
	for j, b := range pend.(Tuple) {
		s.assumeEqVal(b, vals[j])
		if s.dead {
			panic(deadPanic{})
		}
	}
	if !s.consistent() {
		s.dead = true
		panic(deadPanic{})
	}
	s.dropEmpty()
	return e
}

// consistent checks that the linear facts are satisfiable.
func (s *State) consistent() bool {
	_, _, feas := lpMin(s.lins, &Lin{})
	return feas
}

type deadPanic struct{}

// ---- slices

func (s *State) arrGet(arr int) func() []Piece {
	return func() []Piece { return s.obj(arr).P }
}
func (s *State) sliceLen(v Val) Val {
	switch v := v.(type) {
	case Slice:
		return sub(v.Hi, v.Lo)
	case Const:
		return cInt(0)
	}
	return nil
}

// view returns the pieces of a slice (splitting at its bounds).
func (s *State) view(v Val) []Piece {
	sl, ok := v.(Slice)
	if !ok {
		return nil
	}
	get := s.arrGet(sl.Arr)
	s.splitAt(get, sl.Lo)
	s.splitAt(get, sl.Hi)
	lo := s.splitAt(get, sl.Lo)
	hi := s.splitAt(get, sl.Hi)
	return append([]Piece(nil), get()[lo:hi]...)
}

func (s *State) newArray(t types.Type, ps []Piece, tag string) Slice {
	id := s.newObj('a', t, tag)
	s.obj(id).P = ps
	return Slice{Arr: id, Lo: cInt(0), Hi: s.piecesLen(ps)}
}

// appendTo models the append builtin.
func (s *State) appendTo(a Val, t types.Type, more []Piece, tag string) Val {
	if len(more) == 0 {
		return a
	}
	sl, ok := a.(Slice)
	if !ok { // nil
		return s.newArray(t, more, tag)
	}
	if sl.Full {
		return s.newArray(t, append(s.view(a), more...), tag)
	}
	o := s.obj(sl.Arr)
	end := s.piecesLen(o.P)
	if s.provesEq(sl.Hi, end) {
		if o.Exact {
			ps := s.view(a)
			r := s.newArray(t, append(ps, more...), tag)
			return r
		}
		if !s.provesGe0(toLin(subK(s.piecesLen(more)))) {
			// maybe nothing is appended; harmless
			_ = end
		}
		m := s.mut(sl.Arr)
		m.P = append(append([]Piece(nil), m.P...), more...)
		m.Tag = tag
		return Slice{Arr: sl.Arr, Lo: sl.Lo, Hi: s.piecesLen(m.P)}
	}
	// There is something after the end of the view, which may be overwritten.
	if !s.viewedBeyond(sl) {
		s.view(a)
		get := s.arrGet(sl.Arr)
		hi := s.splitAt(get, sl.Hi)
		m := s.mut(sl.Arr)
		m.P = append(append([]Piece(nil), m.P[:hi]...), more...)
		m.Tag = tag
		return Slice{Arr: sl.Arr, Lo: sl.Lo, Hi: s.piecesLen(m.P)}
	}
	// Visible to others: in place (capacity permitting), or a copy.
	if s.choose(2, "append in place?") == 1 {
		return s.newArray(t, append(s.view(a), more...), tag)
	}
	s.view(a)
	get := s.arrGet(sl.Arr)
	hi := s.splitAt(get, sl.Hi)
	n := s.piecesLen(more)
	rest := s.restAfter(sl.Arr, add(sl.Hi, n))
	m := s.mut(sl.Arr)
	m.P = append(append(append([]Piece(nil), m.P[:hi]...), more...), rest...)
	return Slice{Arr: sl.Arr, Lo: sl.Lo, Hi: add(sl.Hi, n)}
}

func subK(v Val) Val { return addK(v, -1) }

// restAfter gives the content of an array after pos: the actual pieces where the boundary is
// known, or else an unknown run.
func (s *State) restAfter(arr int, pos Val) []Piece {
	var c Val = cInt(0)
	ps := s.obj(arr).P
	for i := 0; i <= len(ps); i++ {
		if s.provesEq(pos, c) {
			return append([]Piece(nil), ps[i:]...)
		}
		if i < len(ps) {
			c = add(c, s.pieceLen(ps[i]))
		}
	}
	if s.provesGe0(linAdd(toLin(pos), toLin(c), -1)) {
		return nil // beyond the end
	}
	kind := ""
	for _, p := range ps {
		if p.Seg > 0 {
			kind = s.segs[p.Seg].Kind
		} else if k := kindOf(s, p.Elem); k != nil {
			kind = k.Name
		}
	}
	id := s.newSeg(kind, sub(c, pos))
	s.addSegFacts(id)
	return []Piece{{Seg: id}}
}

// viewedBeyond tells whether another live slice sees elements of sl's array from sl.Hi on.
func (s *State) viewedBeyond(sl Slice) bool {
	found := false
	s.eachVal(func(v Val) {
		switch v := v.(type) {
		case Slice:
			if v.Arr == sl.Arr && !s.provesGe0(linAdd(toLin(sl.Hi), toLin(v.Hi), -1)) {
				found = true
			}
		case ElemPtr:
			if v.Arr == sl.Arr {
				found = true
			}
		}
	})
	return found
}

// copySlice models the copy builtin.
func (s *State) copySlice(dst, src Val) Val {
	ld, ls := s.sliceLen(dst), s.sliceLen(src)
	n := ls
	if !s.decideGe(ld, ls) {
		n = ld
	}
	if k, ok := asInt(n); ok && k == 0 {
		return n
	}
	d, ok1 := dst.(Slice)
	sr, ok2 := src.(Slice)
	if !ok1 || !ok2 {
		return n
	}
	if s.provesEq(n, cInt(0)) {
		return n
	}
	part := Slice{Arr: sr.Arr, Lo: sr.Lo, Hi: add(sr.Lo, n)}
	s.view(part)
	get := s.arrGet(d.Arr)
	s.splitAt(get, d.Lo)
	pieces := s.view(part)
	lo := s.splitAt(get, d.Lo)
	rest := s.restAfter(d.Arr, add(d.Lo, n))
	m := s.mut(d.Arr)
	m.P = append(append(append([]Piece(nil), m.P[:lo]...), pieces...), rest...)
	return n
}

// storeElem overwrites an element.
func (s *State) storeElem(arr int, idx Val, v Val) {
	get := s.arrGet(arr)
	s.elemAt(get, idx)
	i := s.splitAt(get, idx)
	m := s.mut(arr)
	m.P = append([]Piece(nil), m.P...)
	m.P[i] = Piece{Elem: v}
}

// ---- visiting values

func walkVal(v Val, f func(Val)) {
	if v == nil {
		return
	}
	f(v)
	switch v := v.(type) {
	case *App:
		for _, a := range v.Args {
			walkVal(a, f)
		}
	case *Lin:
		for _, t := range v.T {
			walkVal(t.V, f)
		}
	case ElemPtr:
		walkVal(v.Idx, f)
	case Slice:
		walkVal(v.Lo, f)
		walkVal(v.Hi, f)
	case Fn:
		for _, a := range v.Bind {
			walkVal(a, f)
		}
	case Ext:
		for _, a := range v.Data {
			walkVal(a, f)
		}
	case Iface:
		walkVal(v.V, f)
	case Tuple:
		for _, a := range v {
			walkVal(a, f)
		}
	case Struct:
		for _, a := range v.F {
			walkVal(a, f)
		}
	case Cat:
		for _, p := range v.P {
			if p.Seg == 0 {
				walkVal(p.Elem, f)
			}
		}
	}
}

// eachVal visits all values in frames and (non-base) heap objects.
func (s *State) eachVal(f func(Val)) {
	for _, fr := range s.frames {
		for _, v := range fr.env {
			walkVal(v, f)
		}
		for _, v := range fr.free {
			walkVal(v, f)
		}
		for _, d := range fr.defers {
			walkVal(d.fn, f)
			for _, a := range d.args {
				walkVal(a, f)
			}
		}
		walkVal(fr.result, f)
	}
	for _, o := range s.heap {
		for _, v := range o.F {
			walkVal(v, f)
		}
		for _, p := range o.P {
			if p.Seg == 0 {
				walkVal(p.Elem, f)
			}
		}
		for _, e := range o.M {
			walkVal(e.K, f)
			walkVal(e.V, f)
		}
	}
	for _, v := range s.ghost {
		walkVal(v, f)
	}
}

// ---- runes of strings

var validRunes = IntSet{{0, 0xD7FF}, {0xE000, 0x10FFFF}}

func (s *State) putRunes(q RuneSeq) {
	if str, ok := asStr(q.S); ok {
		_ = str
		s.unifyRunes(q.S, q.P)
		return
	}
	k := q.S.key()
	if old, ok := s.runes[k]; ok && piecesKey(old.P) != piecesKey(q.P) {
		// two views of one string; keep the first (forgetting is sound)
		return
	}
	s.runes[k] = q
}

// unifyRunes uses the fact that the runes of v are ps.
func (s *State) unifyRunes(v Val, ps []Piece) {
	str, ok := asStr(v)
	if !ok {
		if _, isCat := v.(Cat); isCat {
			return
		}
		s.putRunes(RuneSeq{v, ps})
		return
	}
	rs := []rune(str)
	nseg := 0
	for _, p := range ps {
		if p.Seg > 0 {
			nseg++
		}
	}
	if nseg == 0 {
		if len(ps) != len(rs) {
			s.dead = true
			return
		}
	} else if len(ps)-nseg > len(rs) {
		s.dead = true
		return
	}
	one := func(e Val, r rune) {
		switch e := e.(type) {
		case *Sym:
			if !s.setOf(e).has(int64(r)) {
				s.dead = true
				return
			}
			s.bind(e, cIntT(int64(r), tRune))
		case Const:
			if n, _ := asInt(e); n != int64(r) {
				s.dead = true
			}
		}
	}
	// prefix
	i := 0
	for ; i < len(ps) && i < len(rs) && ps[i].Seg == 0; i++ {
		one(ps[i].Elem, rs[i])
		if s.dead {
			return
		}
	}
	if nseg == 1 && i < len(ps) && ps[i].Seg > 0 {
		tail := len(ps) - i - 1
		mid := rs[i : len(rs)-tail]
		for j := 0; j < tail; j++ {
			one(ps[i+1+j].Elem, rs[len(rs)-tail+j])
			if s.dead {
				return
			}
		}
		var q []Piece
		for _, r := range mid {
			q = append(q, Piece{Elem: cIntT(int64(r), tRune)})
		}
		g := s.segs[ps[i].Seg]
		if g != nil {
			ln, at := g.Len, g.Attr
			k := kinds[g.Kind]
			s.replaceSeg(ps[i].Seg, q)
			s.assumeEqVal(ln, cInt(int64(len(mid))))
			for j := range at {
				var sum Val = cInt(0)
				for _, p := range q {
					sum = add(sum, k.Attr(s, p.Elem)[j])
				}
				s.assumeEqVal(at[j], sum)
			}
			s.dropEmpty()
		}
	}
}

// runesOf returns the rune sequence of a string (deciding first whether it is empty).
func (s *State) runesOf(v Val) func() []Piece {
	if str, ok := asStr(v); ok {
		var ps []Piece
		for _, r := range str {
			ps = append(ps, Piece{Elem: cIntT(int64(r), tRune)})
		}
		return func() []Piece { return ps }
	}
	if c, ok := v.(Cat); ok {
		// concatenation: runes of the pieces (a valid string's runes concatenate)
		var fs []func() []Piece
		for _, p := range c.P {
			if p.Seg > 0 || p.Proj != "" {
				undecided("runes of a text with an unknown number of pieces")
			}
			fs = append(fs, s.runesOf(p.Elem))
		}
		return func() []Piece {
			var ps []Piece
			for _, f := range fs {
				ps = append(ps, f()...)
			}
			return ps
		}
	}
	k := v.key()
	if _, ok := s.runes[k]; !ok {
		if s.decide(s.strEq(v, cStr(""))) {
			return func() []Piece { return nil }
		}
		if a, ok := v.(*App); ok && a.Op == "runestr" {
			s.runes[k] = RuneSeq{v, []Piece{{Elem: a.Args[0]}}}
		} else {
			l := freshSym("runes", tInt)
			s.addLin(linAdd(toLin(l), &Lin{K: 1}, -1))
			id := s.newSeg("rune", l)
			s.addSegFacts(id)
			s.runes[k] = RuneSeq{v, []Piece{{Seg: id}}}
		}
	}
	return func() []Piece { return s.runes[k].P }
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
