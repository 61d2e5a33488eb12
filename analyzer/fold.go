package main

import (
	"go/types"
	"sort"
)

// fold merges adjacent anonymous elements of sequences into segments, consistently in all
// sequences, so that states at a loop head have bounded size.
//
// A piece can be merged if nothing but sequences refers to it. A boundary between pieces is kept
// if an integer of the state points there, or at the first or last element of a sequence that
// belongs to the analysed program.
func (s *State) fold() {
	s.foldSets()
	s.projectTexts()
	s.foldTexts()
	s.recognizeImages()
	s.foldConsts()
	for s.foldOnce() {
	}
	s.foldMaps()
}

type seqRef struct {
	ps      []Piece
	arr     int // array object, or 0
	program bool
	text    bool
}

func (s *State) seqs() []seqRef {
	var r []seqRef
	for _, id := range sortedInts(s.heap) {
		o := s.heap[id]
		if o.Kind == 'a' {
			r = append(r, seqRef{ps: o.P, arr: id, program: o.Tag != "ghost"})
		} else if o.Kind == 'm' && len(o.P) > 0 {
			r = append(r, seqRef{ps: o.P})
		}
	}
	for _, k := range sortedKeys(s.runes) {
		r = append(r, seqRef{ps: s.runes[k].P})
	}
	s.eachVal(func(v Val) {
		if c, ok := v.(Cat); ok {
			r = append(r, seqRef{ps: c.P, text: true})
		}
	})
	return r
}

func pieceID(p Piece) string {
	p.Proj = ""
	return p.key()
}

// scalarRefs collects what is referred to from outside of sequences: objects and symbols.
func (s *State) scalarRefs() (objs map[int]bool, syms map[int]bool, ints []Val) {
	objs, syms = map[int]bool{}, map[int]bool{}
	seenInt := map[string]bool{}
	addInt := func(v Val) {
		if isCounter(v) && !seenInt[v.key()] {
			seenInt[v.key()] = true
			ints = append(ints, v)
		}
	}
	var visit func(v Val)
	visit = func(v Val) {
		switch v := v.(type) {
		case nil:
		case Const:
			addInt(v)
		case *Sym:
			addInt(v)
			syms[v.ID] = true
		case *App:
			addInt(v)
			if v.Op == "len" {
				if _, ok := v.Args[0].(*Sym); ok {
					return // a number, not a use of the text
				}
			}
			for _, a := range v.Args {
				visit(a)
			}
		case *Lin:
			addInt(v)
			for _, t := range v.T {
				if y, ok := t.V.(*Sym); ok {
					syms[y.ID] = true
				} else {
					visit(t.V)
				}
			}
		case Ptr:
			objs[v.Obj] = true
		case ElemPtr:
			visit(v.Idx)
		case Slice:
			visit(v.Lo)
			visit(v.Hi)
		case Fn:
			for _, a := range v.Bind {
				visit(a)
			}
		case Ext:
			for _, a := range v.Data {
				visit(a)
			}
		case Iface:
			visit(v.V)
		case Tuple:
			for _, a := range v {
				visit(a)
			}
		case Struct:
			for _, a := range v.F {
				visit(a)
			}
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			visit(v)
		}
		for _, v := range f.free {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
		visit(f.result)
	}
	for id, o := range s.heap {
		for path, v := range o.F {
			if y, ok := v.(*Sym); ok && y.Owner == id && y.Path == path {
				continue // its own unknown content
			}
			visit(v)
		}
		for _, e := range o.M {
			visit(e.K)
			visit(e.V)
		}
	}
	for k, v := range s.ghost {
		if len(k) > 5 && k[:5] == "pend:" {
			continue
		}
		visit(v)
	}
	for _, q := range s.runes {
		visit(q.S)
	}
	return
}

// elemObjs finds the objects that are elements of arrays.
func (s *State) elemObjs() map[int]bool {
	r := map[int]bool{}
	for _, o := range s.heap {
		for _, p := range o.P {
			if pt, ok := p.Elem.(Ptr); ok && p.Seg == 0 && pt.Path == "" {
				r[pt.Obj] = true
			}
		}
	}
	return r
}

// projectTexts writes texts that are the content of elements as projections of these.
func (s *State) projectTexts() {
	elems := s.elemObjs()
	elemSyms := map[int]bool{}
	arrs := map[string]bool{}
	for _, o := range s.heap {
		if len(o.P) > 0 {
			arrs[piecesKey(o.P)] = true
		}
		for _, p := range o.P {
			if y, ok := p.Elem.(*Sym); ok && p.Seg == 0 && types.Identical(under(y.T), tString) {
				elemSyms[y.ID] = true
			}
		}
	}
	s.mapSeqs(func(ps []Piece) []Piece {
		var out []Piece
		for i, p := range ps {
			if p.Seg == 0 && p.Proj == "" {
				if y, ok := p.Elem.(*Sym); ok && elemSyms[y.ID] && !arrs[piecesKey(ps)] {
					if out == nil {
						out = append([]Piece(nil), ps...)
					}
					out[i] = Piece{Elem: y, Proj: "="}
				} else if ok && y.Owner != 0 && elems[y.Owner] {
					if o := s.heap[y.Owner]; o != nil {
						if f, ok := o.F[y.Path]; ok && f.key() == y.key() {
							if out == nil {
								out = append([]Piece(nil), ps...)
							}
							out[i] = Piece{Elem: Ptr{y.Owner, ""}, Proj: y.Path}
						}
					}
				}
			}
		}
		if out == nil {
			return ps
		}
		return out
	})
}

// unprojectTexts undoes projectTexts.
func (s *State) unprojectTexts() {
	s.mapSeqs(func(ps []Piece) []Piece { return s.projPieces(ps) })
}

// mapSeqs applies f to every sequence of the state.
func (s *State) mapSeqs(f func([]Piece) []Piece) {
	r := &renamer{seqf: f, sym: func(x *Sym) Val { return x }, obj: func(i int) int { return i },
		segf: func(p Piece) []Piece { return []Piece{p} }}
	s.rewrite(r)
}

// protected tells, for each sequence, which boundaries (before piece i) must be kept.
func (s *State) foldOnce() bool {
	refObjs, refSyms, ints := s.scalarRefs()
	sq := s.seqs()
	foldable := func(p Piece) bool {
		if p.Seg > 0 {
			return true
		}
		switch e := p.Elem.(type) {
		case Ptr:
			if e.Path != "" || refObjs[e.Obj] || s.isBase(e.Obj) {
				return false
			}
			o := s.obj(e.Obj)
			if o.Kind != 'c' {
				return false
			}
			for path, v := range o.F {
				if y, ok := v.(*Sym); ok && y.Owner == e.Obj && y.Path == path {
					if refSyms[y.ID] {
						return false
					}
				}
			}
			k := kindOf(s, e)
			return k != nil && (k.Inv == nil || k.Inv(s, e))
		case *Sym:
			if refSyms[e.ID] {
				return false
			}
			return kindOf(s, e) != nil
		case Const:
			return kindOf(s, e) != nil && e.V != nil
		}
		return false
	}
	// where each piece occurs
	type occ struct{ q, i int }
	occs := map[string][]occ{}
	for qi, q := range sq {
		for i, p := range q.ps {
			if q.text && p.Seg == 0 && p.Proj == "" {
				continue
			}
			occs[pieceID(p)] = append(occs[pieceID(p)], occ{qi, i})
		}
	}
	prot := make([][]bool, len(sq))
	for qi, q := range sq {
		prot[qi] = make([]bool, len(q.ps)+1)
		var c Val = cInt(0)
		n := len(q.ps)
		for i := 0; i <= n; i++ {
			for _, v := range ints {
				if v.key() == c.key() || q.arr != 0 && addK(v, 1).key() == c.key() {
					prot[qi][i] = true
				}
			}
			if i < n {
				c = add(c, s.pieceLen(q.ps[i]))
			}
		}
		if q.program && n > 0 {
			if q.ps[0].Seg == 0 {
				prot[qi][1] = true
			}
			if q.ps[n-1].Seg == 0 {
				prot[qi][n-1] = true
			}
		}
	}
	keepElem := map[string]bool{} // first and last elements of program sequences stay elements
	for _, q := range sq {
		n := len(q.ps)
		if q.program && n > 0 {
			keepElem[pieceID(q.ps[0])] = true
			keepElem[pieceID(q.ps[n-1])] = true
		}
	}
	kindName := func(p Piece) string {
		if p.Seg > 0 {
			return s.segs[p.Seg].Kind
		}
		if k := kindOf(s, p.Elem); k != nil {
			return k.Name
		}
		return "?"
	}
	for qi, q := range sq {
		for i := 0; i+1 < len(q.ps); i++ {
			p, r := q.ps[i], q.ps[i+1]
			if q.text && (p.Seg == 0 && p.Proj == "" || r.Seg == 0 && r.Proj == "") {
				continue
			}
			if p.Proj != r.Proj || prot[qi][i+1] || !foldable(p) || !foldable(r) || kindName(p) != kindName(r) {
				continue
			}
			pid, rid := pieceID(p), pieceID(r)
			if pid == rid || keepElem[pid] && p.Seg == 0 || keepElem[rid] && r.Seg == 0 {
				continue
			}
			ok := true
			for _, o := range occs[pid] {
				x := sq[o.q].ps
				if o.i+1 >= len(x) || pieceID(x[o.i+1]) != rid || x[o.i].Proj != x[o.i+1].Proj || prot[o.q][o.i+1] {
					ok = false
				}
			}
			for _, o := range occs[rid] {
				x := sq[o.q].ps
				if o.i == 0 || pieceID(x[o.i-1]) != pid {
					ok = false
				}
			}
			if !ok {
				continue
			}
			s.mergePieces(p, r, kindName(p))
			return true
		}
	}
	// single elements become segments of length one
	for _, q := range sq {
		for _, p := range q.ps {
			if q.text && p.Proj == "" {
				continue
			}
			if p.Seg == 0 && foldable(p) && !keepElem[pieceID(p)] {
				if _, isConst := p.Elem.(Const); isConst {
					continue
				}
				id := s.segOf(p, kindName(p))
				pid := pieceID(p)
				s.mapSeqs(func(ps []Piece) []Piece {
					var out []Piece
					for i, x := range ps {
						if x.Seg == 0 && pieceID(x) == pid {
							if out == nil {
								out = append([]Piece(nil), ps...)
							}
							out[i] = Piece{Seg: id, Proj: x.Proj}
						}
					}
					if out == nil {
						return ps
					}
					return out
				})
				return true
			}
		}
	}
	return false
}

// foldConsts makes constant runes of texts anonymous.
func (s *State) foldConsts() {
	count := map[string]map[int]bool{}
	sq := s.seqs()
	for qi, q := range sq {
		for _, p := range q.ps {
			if _, ok := p.Elem.(Const); ok && p.Seg == 0 {
				if count[p.key()] == nil {
					count[p.key()] = map[int]bool{}
				}
				count[p.key()][qi] = true
			}
		}
	}
	for _, k := range sortedKeys(s.runes) {
		q := s.runes[k]
		if _, ok := q.S.(Const); ok {
			continue
		}
		var out []Piece
		for i, p := range q.P {
			if _, ok := p.Elem.(Const); ok && p.Seg == 0 && len(count[p.key()]) == 1 {
				if out == nil {
					out = append([]Piece(nil), q.P...)
				}
				out[i] = Piece{Seg: s.segOf(p, "rune")}
			}
		}
		if out != nil {
			s.runes[k] = RuneSeq{q.S, out}
		}
	}
}

// segOf makes a segment that stands for one piece.
func (s *State) segOf(p Piece, kind string) int {
	ln, at := s.measure(p, kind)
	id := newID()
	s.segs[id] = &Seg{ln, at, kind}
	return id
}

func (s *State) measure(p Piece, kind string) (Val, []Val) {
	if p.Seg > 0 {
		g := s.segs[p.Seg]
		return g.Len, g.Attr
	}
	k := kinds[kind]
	var at []Val
	if k != nil && k.Attr != nil {
		s.ensureAttrs(p.Elem)
		at = k.Attr(s, p.Elem)
	}
	return cInt(1), at
}

func (s *State) mergePieces(p, r Piece, kind string) {
	l1, a1 := s.measure(p, kind)
	l2, a2 := s.measure(r, kind)
	id := newID()
	g := &Seg{Len: add(l1, l2), Kind: kind}
	for j := range a1 {
		g.Attr = append(g.Attr, add(a1[j], a2[j]))
	}
	s.segs[id] = g
	pid, rid := pieceID(p), pieceID(r)
	s.mapSeqs(func(ps []Piece) []Piece {
		var out []Piece
		for i := 0; i < len(ps); i++ {
			if i+1 < len(ps) && pieceID(ps[i]) == pid && pieceID(ps[i+1]) == rid {
				if out == nil {
					out = append([]Piece(nil), ps[:i]...)
				}
				out = append(out, Piece{Seg: id, Proj: ps[i].Proj})
				i++
				continue
			}
			if out != nil {
				out = append(out, ps[i])
			}
		}
		if out == nil {
			return ps
		}
		return out
	})
	delete(s.segs, p.Seg)
	delete(s.segs, r.Seg)
}

// foldTexts merges adjacent unknown texts (that are referred to from nowhere else).
func (s *State) foldTexts() {
	for {
		_, refSyms, _ := s.scalarRefs()
		// symbols that are elements of arrays, or owned by live objects, are not anonymous
		for _, o := range s.heap {
			for _, p := range o.P {
				if p.Seg == 0 {
					walkVal(p.Elem, func(v Val) {
						if y, ok := v.(*Sym); ok {
							refSyms[y.ID] = true
						}
					})
				}
			}
			for _, v := range o.F {
				if y, ok := v.(*Sym); ok {
					refSyms[y.ID] = true
				}
			}
		}
		var cats [][]Piece
		s.eachVal(func(v Val) {
			if c, ok := v.(Cat); ok {
				cats = append(cats, c.P)
			}
		})
		anon := func(p Piece) bool {
			y, ok := p.Elem.(*Sym)
			return p.Seg == 0 && p.Proj == "" && ok && !refSyms[y.ID] && y.T != nil && types.Identical(under(y.T), tString)
		}
		merged := false
	search:
		for _, c := range cats {
			for i := 0; i+1 < len(c); i++ {
				if !anon(c[i]) || !anon(c[i+1]) || c[i].key() == c[i+1].key() {
					continue
				}
				a, b := c[i].key(), c[i+1].key()
				ok := true
				for _, d := range cats {
					for j, p := range d {
						if p.key() == a && (j+1 >= len(d) || d[j+1].key() != b) {
							ok = false
						}
						if p.key() == b && (j == 0 || d[j-1].key() != a) {
							ok = false
						}
					}
				}
				if !ok {
					continue
				}
				n := freshSym("text", tString)
				ne := s.nonEmpty(c[i].Elem) || s.nonEmpty(c[i+1].Elem)
				s.mapSeqs(func(ps []Piece) []Piece {
					var out []Piece
					for j := 0; j < len(ps); j++ {
						if j+1 < len(ps) && ps[j].key() == a && ps[j+1].key() == b {
							if out == nil {
								out = append([]Piece(nil), ps[:j]...)
							}
							out = append(out, Piece{Elem: n})
							j++
							continue
						}
						if out != nil {
							out = append(out, ps[j])
						}
					}
					if out == nil {
						return ps
					}
					return out
				})
				if ne {
					at := mkApp("streq", tBool, n, cStr(""))
					s.atoms[at.key()] = fact{at, false}
				}
				merged = true
				break search
			}
		}
		if !merged {
			return
		}
	}
}

// foldMaps forgets updates of unknown maps whose keys are no longer of interest.
// foldSets turns the entries with unknown keys of a map, if all have the same value, into a sequence.
func (s *State) foldSets() {
	for _, id := range sortedInts(s.heap) {
		o := s.heap[id]
		if o.Kind != 'm' || o.Lazy {
			continue
		}
		for i, p := range o.P {
			if k, ok := p.Elem.(*App); ok && p.Seg == 0 && p.Proj == "" && len(k.Args) == 1 && k.T != nil {
				regProj(k.Op, k.T)
				m := s.mut(id)
				m.P = append([]Piece(nil), m.P...)
				m.P[i] = Piece{Elem: k.Args[0], Proj: "fn:" + k.Op}
				o = m
			}
		}
		if len(o.M) == 0 {
			continue
		}
		var val Val
		if o.F != nil {
			val = o.F["#val"]
		}
		ok := true
		var keep []Entry
		var ps []Piece
		for _, e := range o.M {
			if c, isC := e.K.(Const); isC && c.V != nil {
				keep = append(keep, e)
				continue
			}
			if val == nil {
				val = e.V
			}
			if e.Del || e.V.key() != val.key() {
				ok = false
				break
			}
			switch k := e.K.(type) {
			case *Sym:
				ps = append(ps, Piece{Elem: k})
			case *App:
				if len(k.Args) != 1 || k.T == nil {
					ok = false
					break
				}
				regProj(k.Op, k.T)
				ps = append(ps, Piece{Elem: k.Args[0], Proj: "fn:" + k.Op})
			default:
				ok = false
			}
		}
		if !ok || len(ps) == 0 {
			continue
		}
		m := s.mut(id)
		m.M = keep
		m.mi = map[string]int{}
		for i, e := range keep {
			m.mi[e.K.key()] = i
		}
		m.F = map[string]Val{"#val": val}
		m.P = append(append([]Piece(nil), m.P...), ps...)
	}
}

func regProj(op string, t types.Type) {
	if projFns["fn:"+op] == nil {
		projFns["fn:"+op] = func(s *State, e Val) Val { return s.simp(mkApp(op, t, e)) }
	}
}

func (s *State) foldMaps() {
	ids := sortedInts(s.heap)
	for _, id := range ids {
		o := s.heap[id]
		if o.Kind != 'm' || !o.Lazy || len(o.M) == 0 {
			continue
		}
		_, refSyms, _ := s.scalarRefsExceptMap(id)
		var keep []Entry
		for _, e := range o.M {
			live := false
			walkVal(e.K, func(v Val) {
				if y, ok := v.(*Sym); ok && refSyms[y.ID] {
					live = true
				}
			})
			if live {
				keep = append(keep, e)
			}
		}
		if len(keep) != len(o.M) {
			m := s.mut(id)
			m.M = keep
			m.mi = map[string]int{}
			for i, e := range keep {
				m.mi[e.K.key()] = i
			}
			m.F = map[string]Val{"#ver": freshSym("ver", nil)}
		}
	}
	sort.Ints(ids)
}

func (s *State) scalarRefsExceptMap(id int) (map[int]bool, map[int]bool, []Val) {
	o := s.heap[id]
	c := *o
	c.M = nil
	s.heap[id] = &c
	a, b, d := s.scalarRefs()
	s.heap[id] = o
	return a, b, d
}

// forgetElems makes the elements of all arrays unknown, keeping their numbers.
func (s *State) forgetElems() {
	for _, id := range sortedInts(s.heap) {
		o := s.heap[id]
		if o.Kind != 'a' || len(o.P) == 0 || len(o.P) == 1 && o.P[0].Seg > 0 || o.T == nil {
			continue
		}
		n := s.piecesLen(o.P)
		s.mut(id).P = []Piece{{Seg: s.newSeg(kindName(o.T), n)}}
	}
}

// abstractText replaces a text, as a whole or at the start of others, by an unknown one.
func (s *State) abstractText(old Val) {
	if _, ok := old.(Const); ok {
		return
	}
	sym := freshSym("text", tString)
	key := old.key()
	ps := catPieces(old)
	var f func(Val) Val
	f = func(v Val) Val {
		if v.key() == key {
			return sym
		}
		switch v := v.(type) {
		case Cat:
			if len(v.P) <= len(ps) || piecesKey(v.P[:len(ps)]) != piecesKey(ps) {
				return v
			}
			return mkCat(append([]Piece{{Elem: sym}}, v.P[len(ps):]...))
		case Ext:
			if v.Name == "bytes" {
				return Ext{Name: v.Name, Data: []Val{f(v.Data[0])}, T: v.T}
			}
		}
		return v
	}
	// only if it is still in use elsewhere: what is not recognized there is compared exactly
	n := 0
	count := func(v Val) {
		if f(v).key() != v.key() {
			n++
		}
	}
	for _, o := range s.heap {
		for _, v := range o.F {
			count(v)
		}
	}
	for _, fr := range s.frames {
		for _, v := range fr.env {
			if v != nil {
				count(v)
			}
		}
	}
	if n >= 2 {
		s.mapVals(f)
	}
}
