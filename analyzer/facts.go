package main

import (
	"fmt"
	"go/types"
	"strings"
)

type undecidedPanic struct{ why string }

// undecided abandons the analysis of a state: the construct is beyond the abstract domain.
func undecided(f string, args ...any) { panic(undecidedPanic{fmt.Sprintf(f, args...)}) }

func mkNot(v Val) Val {
	if b, ok := asBool(v); ok {
		return cBool(!b)
	}
	if a, ok := v.(*App); ok && a.Op == "not" {
		return a.Args[0]
	}
	return mkApp("not", tBool, v)
}

func lenTerm(l *Lin) (Val, int64, bool) {
	if len(l.T) == 1 {
		if a, ok := l.T[0].V.(*App); ok && a.Op == "len" {
			return a.Args[0], l.T[0].C, true
		}
	}
	return nil, 0, false
}

// ge0 is the condition l >= 0.
func (s *State) ge0(l *Lin) Val {
	if len(l.T) == 0 {
		return cBool(l.K >= 0)
	}
	if str, c, ok := lenTerm(l); ok {
		if c == 1 && l.K == -1 {
			return mkNot(s.strEq(str, cStr("")))
		}
		if c == -1 && l.K == 0 {
			return s.strEq(str, cStr(""))
		}
	}
	return mkApp("ge0", tBool, l)
}

// eq0 is the condition l == 0.
func (s *State) eq0(l *Lin) Val {
	if len(l.T) == 0 {
		return cBool(l.K == 0)
	}
	if str, _, ok := lenTerm(l); ok && l.K == 0 {
		return s.strEq(str, cStr(""))
	}
	return mkApp("eq0", tBool, l)
}

// strLen is the length in bytes of a string.
func (s *State) strLen(v Val) Val {
	if c, ok := asStr(v); ok {
		return cInt(int64(len(c)))
	}
	if c, ok := v.(Cat); ok {
		var l Val = cInt(0)
		for _, p := range c.P {
			if p.Seg > 0 {
				g := s.segs[p.Seg]
				j := sumAttrs[g.Kind]
				if j > 0 && p.Proj == sumProj[g.Kind] {
					l = add(l, g.Attr[j-1])
				} else {
					l = add(l, mkApp("seglen", tInt, Ext{Name: p.key()}))
				}
				continue
			}
			if p.Proj != "" {
				undecided("length of a projection")
			}
			l = add(l, s.strLen(p.Elem))
		}
		return l
	}
	if a, ok := v.(*App); ok && a.Op == "runestr" {
		if set := s.setOf(a.Args[0]); set.subset(IntSet{{0, 127}}) {
			return cInt(1)
		}
	}
	return mkApp("len", tInt, v)
}

var sumProj = map[string]string{}

// strEq is the condition a == b, for strings.
func (s *State) strEq(a, b Val) Val {
	if a.key() == b.key() {
		return cBool(true)
	}
	ca, oka := asStr(a)
	cb, okb := asStr(b)
	if oka && okb {
		return cBool(ca == cb)
	}
	if oka && !okb {
		a, b, ca, cb, oka, okb = b, a, cb, ca, okb, oka
	}
	// b may be constant now
	if e, ok := a.(*App); ok && e.Op == "errtext" && okb && strings.TrimSpace(cb) == "" {
		return cBool(false) // errors say something
	}
	if cat, ok := a.(Cat); ok && okb {
		if c0, ok := asStr(cat.P[0].Elem0()); ok && cat.P[0].Seg == 0 && cat.P[0].Proj == "" {
			if !strings.HasPrefix(cb, c0) {
				return cBool(false)
			}
			return s.strEq(mkCat(cat.P[1:]), cStr(cb[len(c0):]))
		}
		last := cat.P[len(cat.P)-1]
		if c0, ok := asStr(last.Elem0()); ok && last.Seg == 0 && last.Proj == "" {
			if !strings.HasSuffix(cb, c0) {
				return cBool(false)
			}
			return s.strEq(mkCat(cat.P[:len(cat.P)-1]), cStr(cb[:len(cb)-len(c0)]))
		}
		if cb == "" {
			for _, p := range cat.P {
				if p.Seg == 0 && p.Proj == "" && s.nonEmpty(p.Elem) {
					return cBool(false)
				}
			}
		}
	}
	if app, ok := a.(*App); ok && app.Op == "runestr" && okb {
		rs := []rune(cb)
		if len(rs) != 1 {
			return cBool(false)
		}
		return s.inSet(app.Args[0], IntSet{{int64(rs[0]), int64(rs[0])}})
	}
	pa, isCatA := a.(Cat)
	pb, isCatB := b.(Cat)
	if isCatA || isCatB {
		x, y := catPieces(a), catPieces(b)
		_, _ = pa, pb
		i := 0
		for i < len(x) && i < len(y) && x[i].key() == y[i].key() {
			i++
		}
		x, y = x[i:], y[i:]
		for len(x) > 0 && len(y) > 0 && x[len(x)-1].key() == y[len(y)-1].key() {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		na, nb := mkCat(x), mkCat(y)
		if na.key() != a.key() || nb.key() != b.key() {
			return s.strEq(na, nb)
		}
	}
	if !okb && a.key() > b.key() {
		a, b = b, a
	}
	return mkApp("streq", tBool, a, b)
}

// Elem0 is the element of a piece, or an empty string if it is a segment.
func (p Piece) Elem0() Val {
	if p.Elem == nil {
		return cNil()
	}
	return p.Elem
}

func (s *State) nonEmpty(v Val) bool {
	if c, ok := asStr(v); ok {
		return c != ""
	}
	b, known := s.evalBool(s.strEq(v, cStr("")))
	return known && !b
}

// inSet is the condition v ∈ set, for an enumerable v.
func (s *State) inSet(v Val, set IntSet) Val {
	if n, ok := asInt(v); ok {
		return cBool(set.has(n))
	}
	if l, ok := v.(*Lin); ok && len(l.T) == 1 && (l.T[0].C == 1) {
		return s.inSet(l.T[0].V, shift(set, -l.K))
	}
	k := set.key()
	setReg[k] = set
	return mkApp("inset:"+k, tBool, v)
}

var setReg = map[string]IntSet{}

func shift(s IntSet, d int64) IntSet {
	var r IntSet
	for _, v := range s {
		lo, hi := v.lo, v.hi
		if lo != negInf {
			lo += d
		}
		if hi != posInf {
			hi += d
		}
		r = append(r, iv{lo, hi})
	}
	return r
}

func (s IntSet) key() string {
	if len(s) > 8 {
		// intern
		h := uint64(14695981039346656037)
		for _, v := range s {
			for _, x := range []int64{v.lo, v.hi} {
				for i := 0; i < 8; i++ {
					h ^= uint64(byte(x >> (8 * i)))
					h *= 1099511628211
				}
			}
		}
		return fmt.Sprintf("%d#%x", len(s), h)
	}
	var b strings.Builder
	for _, v := range s {
		fmt.Fprintf(&b, "%d..%d ", v.lo, v.hi)
	}
	return b.String()
}

func isPtrLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan, *types.Interface:
		return true
	}
	return false
}

// eqVal is the condition a == b for values other than ordinary integers and strings.
func (s *State) eqVal(a, b Val) Val {
	if a.key() == b.key() {
		return cBool(true)
	}
	if isNil(b) {
		a, b = b, a
	}
	if isNil(a) {
		switch b := b.(type) {
		case Const:
			return cBool(b.V == nil)
		case *Sym:
			return mkApp("isnil", tBool, b)
		case *App:
			if nonNilApp[b.Op] {
				return cBool(false)
			}
			return mkApp("isnil", tBool, b)
		case Ext:
			if b.Name == "anyfunc" || b.Name == "maybe" {
				return cBool(false)
			}
			return cBool(false)
		}
		return cBool(false)
	}
	for _, v := range []*Val{&a, &b} {
		if app, ok := (*v).(*App); ok && isBoolApp(app) {
			if r, ok := s.evalBool(app); ok {
				*v = cBool(r)
			}
		}
	}
	if ab, ok := asBool(a); ok {
		if ab {
			return b
		}
		return mkNot(b)
	}
	if bb, ok := asBool(b); ok {
		if bb {
			return a
		}
		return mkNot(a)
	}
	if app, ok := a.(*App); ok && isBoolApp(app) {
		if s.decide(app) {
			return b
		}
		return mkNot(b)
	}
	switch x := a.(type) {
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.Obj == y.Obj {
				return cBool(x.Path == y.Path)
			}
			ox, oy := s.obj(x.Obj), s.obj(y.Obj)
			if ox.Any && oy.Any && types.Identical(ox.T, oy.T) {
				if x.Obj > y.Obj {
					x, y = y, x
				}
				return mkApp("eqval", tBool, x, y)
			}
			return cBool(false)
		}
		if _, ok := b.(Ext); ok {
			return cBool(false)
		}
	case Iface:
		switch y := b.(type) {
		case Iface:
			if !types.Identical(x.T, y.T) {
				return cBool(false)
			}
			return s.eqAny(x.V, y.V, x.T)
		case Ext:
			return cBool(false)
		}
	case Ext:
		switch b.(type) {
		case Ext:
			if x.Name == "val" || b.(Ext).Name == "val" {
				break
			}
			return cBool(false)
		case Ptr, Iface:
			return cBool(false)
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if !s.decide(s.eqAny(x.F[i], y.F[i], x.T.Field(i).Type())) {
					return cBool(false)
				}
			}
			return cBool(true)
		}
	case Const:
		if _, ok := asInt(a); ok {
			if _, ok := asInt(b); ok {
				return cBool(false)
			}
			n, _ := asInt(a)
			return s.inSet(b, IntSet{{n, n}})
		}
	}
	if n, ok := asInt(b); ok {
		return s.inSet(a, IntSet{{n, n}})
	}
	if _, ok := a.(MapV); ok {
		return cBool(false)
	}
	if a.key() > b.key() {
		a, b = b, a
	}
	if isNewErr(a) && errLike(b) || isNewErr(b) && errLike(a) {
		return cBool(false)
	}
	return mkApp("eqval", tBool, a, b)
}

func isNewErr(v Val) bool {
	a, ok := v.(*App)
	return ok && a.Op == "newerr"
}

// errLike tells whether v is an error that was not made by the code at hand, or a different one.
func errLike(v Val) bool {
	switch v := v.(type) {
	case *App:
		return v.Op == "newerr" || v.Op == "error"
	case Ext, Iface, Ptr:
		return true
	}
	return false
}

var nonNilApp = map[string]bool{"errorf": true, "error": true, "newerr": true}

// eqAny is equality by type.
func (s *State) eqAny(a, b Val, t types.Type) Val {
	if t != nil {
		if bt, ok := under(t).(*types.Basic); ok {
			switch {
			case bt.Info()&types.IsString != 0:
				return s.strEq(a, b)
			case bt.Info()&types.IsInteger != 0 && isWide(bt):
				return s.eq0(linAdd(toLin(a), toLin(b), -1))
			}
		}
	}
	return s.eqVal(a, b)
}

func isWide(b *types.Basic) bool {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return true
	}
	return false
}

// simp re-evaluates a condition after substitution.
func (s *State) simp(v Val) Val {
	a, ok := v.(*App)
	if !ok {
		return v
	}
	switch {
	case a.Op == "not":
		return mkNot(s.simp(a.Args[0]))
	case a.Op == "ge0":
		return s.ge0(toLin(a.Args[0]))
	case a.Op == "eq0":
		return s.eq0(toLin(a.Args[0]))
	case a.Op == "streq":
		return s.strEq(a.Args[0], a.Args[1])
	case a.Op == "len":
		return s.strLen(a.Args[0])
	case a.Op == "runestr":
		return runeStr(a.Args[0])
	case a.Op == "eqval" || a.Op == "isnil":
		if _, ok := a.Args[0].(Struct); ok {
			return v
		}
		if a.Op == "isnil" {
			return s.eqVal(a.Args[0], cNil())
		}
		return s.eqVal(a.Args[0], a.Args[1])
	case strings.HasPrefix(a.Op, "inset:"):
		return s.inSet(a.Args[0], setReg[a.Op[6:]])
	}
	if f := simpFns[a.Op]; f != nil {
		return f(s, a)
	}
	return v
}

var simpFns = map[string]func(*State, *App) Val{
	"in": func(s *State, a *App) Val {
		if c, ok := asStr(a.Args[1]); ok && c == "" && len(a.Args) == 2 {
			return cBool(false)
		}
		return a
	},
}

func (s *State) lenFacts(l *Lin) {
	for _, t := range l.T {
		if a, ok := t.V.(*App); ok && a.Op == "len" {
			k := int64(0)
			if f, ok := s.atoms[mkApp("streq", tBool, a.Args[0], cStr("")).key()]; ok && !f.b {
				k = 1
			}
			s.addLin(&Lin{T: []LT{{t.V, 1}}, K: -k})
		}
	}
}

// evalBool evaluates a condition under the facts of the state.
func (s *State) evalBool(v Val) (val, known bool) {
	if b, ok := asBool(v); ok {
		return b, true
	}
	if sv := s.simp(v); sv.key() != v.key() {
		return s.evalBool(sv)
	}
	a, isApp := v.(*App)
	if !isApp {
		f, ok := s.atoms[v.key()]
		return f.b, ok
	}
	switch {
	case a.Op == "not":
		b, k := s.evalBool(a.Args[0])
		return !b, k
	case a.Op == "ge0":
		l := toLin(a.Args[0])
		s.lenFacts(l)
		if s.provesGe0(l) {
			return true, true
		}
		if s.provesGe0(linAdd(neg(l), &Lin{K: -1}, 1)) {
			return false, true
		}
		return false, false
	case a.Op == "eq0":
		l := toLin(a.Args[0])
		s.lenFacts(l)
		le := s.provesGe0(neg(l))
		ge := s.provesGe0(l)
		if le && ge {
			return true, true
		}
		if s.provesGe0(linAdd(neg(l), &Lin{K: -1}, 1)) || s.provesGe0(linAdd(l, &Lin{K: -1}, 1)) {
			return false, true
		}
		return false, false
	case strings.HasPrefix(a.Op, "inset:"):
		set := setReg[a.Op[6:]]
		cur := s.setOf(a.Args[0])
		in := cur.inter(set)
		if len(in) == 0 {
			return false, true
		}
		if cur.subset(set) {
			return true, true
		}
		return false, false
	}
	if f, ok := s.atoms[a.key()]; ok {
		return f.b, true
	}
	if a.Op == "eqval" || a.Op == "streq" {
		if b, k := s.evalEq(a); k {
			return b, true
		}
	}
	if a.Op == "in" && len(a.Args) == 2 {
		if _, isMap := a.Args[1].(MapV); !isMap {
			for _, p := range catPieces(a.Args[1]) {
				if p.Seg == 0 {
					if v, ok := s.project(p.Elem, p.Proj); p.Proj == "" && p.Elem.key() == a.Args[0].key() || ok && v.key() == a.Args[0].key() {
						return true, true
					}
				}
			}
		}
	}
	if a.Op == "streq" {
		if c, ok := asStr(a.Args[1]); ok {
			// another constant?
			for _, f := range s.atoms {
				if !f.b {
					continue
				}
				if e, ok := f.v.(*App); ok && e.Op == "streq" && e.Args[0].key() == a.Args[0].key() {
					if c2, ok := asStr(e.Args[1]); ok && c2 != c {
						return false, true
					}
				}
			}
			if q, ok := s.runes[a.Args[0].key()]; ok {
				if b, k := s.matchRunes(q.P, c); k {
					return b, true
				}
			}
			if f := strHook; f != nil {
				if b, k := f(s, a.Args[0], c); k {
					return b, true
				}
			}
		}
	}
	return false, false
}

// evalEq decides an equality by the equalities and inequalities known: a = b = c ≠ d.
func (s *State) evalEq(a *App) (val, known bool) {
	var eqs, nes []*App
	for _, f := range s.atoms {
		if e, ok := f.v.(*App); ok && e.Op == a.Op {
			if f.b {
				eqs = append(eqs, e)
			} else {
				nes = append(nes, e)
			}
		}
	}
	if len(eqs) == 0 {
		return false, false
	}
	class := func(v Val) map[string]Val {
		c := map[string]Val{v.key(): v}
		for ch := true; ch; {
			ch = false
			for _, e := range eqs {
				_, x := c[e.Args[0].key()]
				_, y := c[e.Args[1].key()]
				if x != y {
					c[e.Args[0].key()] = e.Args[0]
					c[e.Args[1].key()] = e.Args[1]
					ch = true
				}
			}
		}
		return c
	}
	x := class(a.Args[0])
	if _, ok := x[a.Args[1].key()]; ok {
		return true, true
	}
	y := class(a.Args[1])
	for _, e := range nes {
		_, p := x[e.Args[0].key()]
		_, q := y[e.Args[1].key()]
		_, r := y[e.Args[0].key()]
		_, u := x[e.Args[1].key()]
		if p && q || r && u {
			return false, true
		}
	}
	for _, v := range x {
		if c, ok := v.(Const); ok && c.V != nil {
			for _, w := range y {
				if d, ok := w.(Const); ok && d.V != nil && d.key() != c.key() {
					return false, true
				}
			}
		}
	}
	return false, false
}

// strHook lets models add knowledge about strings.
var strHook func(s *State, v Val, c string) (bool, bool)

// matchRunes compares known runes with a constant.
func (s *State) matchRunes(ps []Piece, c string) (val, known bool) {
	rs := []rune(c)
	min, seg := 0, false
	exact := true
	for _, p := range ps {
		if p.Seg > 0 {
			seg = true
			if lb, ok := lowerBound(s.lins, toLin(s.segs[p.Seg].Len)); ok {
				min += int(lb)
			}
		} else {
			min++
		}
	}
	if len(rs) < min || !seg && len(rs) != min {
		return false, true
	}
	for i, p := range ps {
		if p.Seg > 0 {
			exact = false
			break
		}
		set := s.setOf(p.Elem)
		if !set.has(int64(rs[i])) {
			return false, true
		}
		if set.size() != 1 {
			exact = false
		}
	}
	if seg {
		for i := 1; i <= len(ps); i++ {
			p := ps[len(ps)-i]
			if p.Seg > 0 {
				break
			}
			if len(rs)-i < 0 || !s.setOf(p.Elem).has(int64(rs[len(rs)-i])) {
				return false, true
			}
		}
	}
	if exact && !seg && !strings.ContainsRune(c, 0xFFFD) {
		return true, true
	}
	return false, false
}

// decide evaluates a condition, forking the state if it is unknown.
func (s *State) decide(v Val) bool {
	if b, ok := s.evalBool(v); ok {
		return b
	}
	if a, ok := v.(*App); ok {
		if a.Op == "not" {
			return !s.decide(a.Args[0])
		}
		if a.Op == "eq0" {
			l := toLin(a.Args[0])
			panic(forkPanic{alts: []forkAlt{
				func(c *State) bool { c.assumeEq0(l); return !c.dead },
				func(c *State) bool {
					m := linAdd(l, &Lin{K: -1}, 1)
					if c.provesGe0(linAdd(neg(m), &Lin{K: -1}, 1)) {
						return false
					}
					c.assumeGe0(m)
					return !c.dead
				},
				func(c *State) bool {
					m := linAdd(neg(l), &Lin{K: -1}, 1)
					if c.provesGe0(linAdd(neg(m), &Lin{K: -1}, 1)) {
						return false
					}
					c.assumeGe0(m)
					return !c.dead
				}}, why: "eq"})
		}
	}
	panic(forkPanic{alts: []forkAlt{
		func(c *State) bool { c.assume(v, true); return !c.dead },
		func(c *State) bool { c.assume(v, false); return !c.dead },
	}, why: v.key()})
}

func (s *State) decideGe(a, b Val) bool {
	return s.decide(s.ge0(linAdd(toLin(a), toLin(b), -1)))
}
func (s *State) decideEqInt(a, b Val) bool {
	return s.decide(s.eq0(linAdd(toLin(a), toLin(b), -1)))
}

// assume adds a (previously undecided) condition to the facts.
func (s *State) assume(v Val, b bool) {
	if c, ok := asBool(v); ok {
		if c != b {
			s.dead = true
		}
		return
	}
	a, isApp := v.(*App)
	if !isApp {
		if sy, ok := v.(*Sym); ok {
			s.bind(sy, cBool(b))
			return
		}
		s.atoms[v.key()] = fact{v, b}
		return
	}
	switch {
	case a.Op == "not":
		s.assume(a.Args[0], !b)
		return
	case a.Op == "ge0":
		l := toLin(a.Args[0])
		if !b {
			l = linAdd(neg(l), &Lin{K: -1}, 1)
		}
		s.assumeGe0(l)
		return
	case a.Op == "eq0":
		if b {
			s.assumeEq0(toLin(a.Args[0]))
		}
		return
	case strings.HasPrefix(a.Op, "inset:"):
		set := setReg[a.Op[6:]]
		if !b {
			set = set.compl()
		}
		cur := s.setOf(a.Args[0]).inter(set)
		if len(cur) == 0 {
			s.dead = true
			return
		}
		if sy, ok := a.Args[0].(*Sym); ok && cur.size() == 1 {
			s.bind(sy, cIntT(cur[0].lo, sy.T))
			return
		}
		s.sets[a.Args[0].key()] = setFact{a.Args[0], cur}
		s.afterSet(a.Args[0])
		return
	case a.Op == "streq" && b:
		x, y := a.Args[0], a.Args[1]
		if sy, ok := x.(*Sym); ok && !occursSym(y, sy.ID) {
			s.checkNeq(x, y)
			if !s.dead {
				s.bind(sy, y)
			}
			return
		}
		if sy, ok := y.(*Sym); ok && !occursSym(x, sy.ID) {
			s.bind(sy, x)
			return
		}
	case a.Op == "eqval" && b:
		x, y := a.Args[0], a.Args[1]
		if sy, ok := x.(*Sym); ok {
			s.bind(sy, y)
			return
		}
		if sy, ok := y.(*Sym); ok {
			s.bind(sy, x)
			return
		}
	case a.Op == "isnil":
		if sy, ok := a.Args[0].(*Sym); ok {
			if b {
				s.bind(sy, cNil())
				return
			}
			if p, ok := under(sy.T).(*types.Pointer); ok {
				id := s.newObj('c', p.Elem(), sy.Tag)
				s.mut(id).Lazy = true
				s.bind(sy, Ptr{id, ""})
				return
			}
			if m, ok := s.matSlice(sy); ok {
				s.bind(sy, m)
				return
			}
		}
	}
	s.atoms[a.key()] = fact{a, b}
}

// checkNeq marks the state dead if x == y contradicts a recorded disequality.
func (s *State) checkNeq(x, y Val) {}

// matSlice makes a symbolic slice a slice of an unknown number of elements.
func (s *State) matSlice(sy *Sym) (Val, bool) {
	t, ok := under(sy.T).(*types.Slice)
	if !ok {
		return nil, false
	}
	kn := kindName(t.Elem())
	id := s.anySeg(kn)
	s.addSegFacts(id)
	return s.newArray(t.Elem(), []Piece{{Seg: id}}, "ghost"), true
}

// kindName finds (or makes) the kind for a type of elements.
func kindName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok && types.Unalias(p.Elem()) != p.Elem() {
		t = types.NewPointer(types.Unalias(p.Elem()))
	}
	n := types.TypeString(t, nil)
	if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.Int32 {
		return "rune"
	}
	if kinds[n] == nil {
		kinds[n] = &Kind{Name: n, T: t, Mk: func(s *State) Val { return s.freshVal(t, "elem") }}
	}
	return n
}

// kindOf finds the kind of an element.
func kindOf(s *State, e Val) *Kind {
	switch e := e.(type) {
	case Ptr:
		if e.Path == "" {
			return kinds[kindName(types.NewPointer(s.obj(e.Obj).T))]
		}
	case *Sym:
		if e.T != nil {
			return kinds[kindName(e.T)]
		}
	case *App:
		if e.T != nil {
			return kinds[kindName(e.T)]
		}
	case Const:
		if e.T != nil {
			return kinds[kindName(e.T)]
		}
	case Cat:
		return kinds[kindName(tString)]
	case Struct:
		return kinds[kindName(e.T)]
	}
	return nil
}

// freshVal makes an unknown value of a type.
func (s *State) freshVal(t types.Type, tag string) Val {
	switch u := under(t).(type) {
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = s.freshVal(u.Field(i).Type(), tag+"."+u.Field(i).Name())
		}
		return Struct{u, f}
	case *types.Signature:
		return Ext{Name: "anyfunc", Data: []Val{freshSym(tag, nil)}, T: t}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = s.freshVal(u.At(i).Type(), tag)
		}
		return r
	}
	return freshSym(tag, t)
}

// afterSet propagates knowledge about a rune (hook for derived facts).
func (s *State) afterSet(v Val) {}
