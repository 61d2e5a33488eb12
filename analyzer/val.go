package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Values are immutable.
type Val interface{ key() string }

// Const is a constant of basic type, or nil (V == nil).
type Const struct {
	V constant.Value
	T types.Type
}

func (c Const) key() string {
	if c.V == nil {
		return "nil"
	}
	switch c.V.Kind() {
	case constant.Bool:
		return "b:" + c.V.String()
	case constant.Int:
		return "i:" + c.V.ExactString()
	case constant.String:
		return "q:" + strconv.Quote(constant.StringVal(c.V))
	}
	return "k:" + c.V.ExactString()
}

// Sym is an unknown scalar (bool, integer, string, interface, ...). If it is the
// content of a field of an abstract object, Owner and Path say which.
type Sym struct {
	ID    int
	Tag   string
	T     types.Type
	Owner int
	Path  string
}

func (s *Sym) key() string { return "s" + strconv.Itoa(s.ID) }

// App is an uninterpreted, pure function applied to values.
type App struct {
	Op   string
	Args []Val
	T    types.Type
	k    string
}

func mkApp(op string, t types.Type, args ...Val) *App {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(a.key())
	}
	b.WriteByte(')')
	return &App{Op: op, Args: args, T: t, k: b.String()}
}
func (a *App) key() string { return a.k }

// Lin is an integer linear expression with at least one term.
type LT struct {
	V Val
	C int64
}
type Lin struct {
	T []LT
	K int64
	k string
}

func (l *Lin) key() string {
	if l.k == "" {
		var b strings.Builder
		b.WriteString("L{")
		for _, t := range l.T {
			fmt.Fprintf(&b, "%+d*%s", t.C, t.V.key())
		}
		fmt.Fprintf(&b, "%+d}", l.K)
		l.k = b.String()
	}
	return l.k
}

// Ptr points to a cell of a heap object.
type Ptr struct {
	Obj  int
	Path string
}

func (p Ptr) key() string { return "p" + strconv.Itoa(p.Obj) + p.Path }

// ElemPtr points to an element of an array object.
type ElemPtr struct {
	Arr int
	Idx Val
	Sub string // field path within a struct element
}

func (p ElemPtr) key() string { return "e" + strconv.Itoa(p.Arr) + "[" + p.Idx.key() + "]" + p.Sub }

// Slice is a view of an array object.
type Slice struct {
	Arr    int
	Lo, Hi Val
	Full   bool // there is no capacity beyond Hi
}

func (s Slice) key() string {
	if s.Full {
		return "v" + strconv.Itoa(s.Arr) + "[" + s.Lo.key() + ":" + s.Hi.key() + "!]"
	}
	return "v" + strconv.Itoa(s.Arr) + "[" + s.Lo.key() + ":" + s.Hi.key() + "]"
}

// Fn is a function of the analysed program with its captured variables.
type Fn struct {
	F    *ssa.Function
	Bind []Val
}

func (f Fn) key() string {
	var b strings.Builder
	b.WriteString("f:" + f.F.String())
	for _, v := range f.Bind {
		b.WriteString("," + v.key())
	}
	return b.String()
}

// Ext is a function (or other opaque thing) provided by the analysis.
type Ext struct {
	Name string
	Data []Val
	T    types.Type
}

func (f Ext) key() string {
	var b strings.Builder
	b.WriteString("x:" + f.Name)
	for _, v := range f.Data {
		b.WriteString("," + v.key())
	}
	return b.String()
}

// Iface is a non-nil interface value of known dynamic type.
type Iface struct {
	T types.Type
	V Val
}

func (i Iface) key() string { return "I<" + types.TypeString(i.T, nil) + ">" + i.V.key() }

// Tuple is a multi-value result.
type Tuple []Val

func (t Tuple) key() string {
	s := make([]string, len(t))
	for i, v := range t {
		s[i] = v.key()
	}
	return "(" + strings.Join(s, ";") + ")"
}

// Struct is a struct value.
type Struct struct {
	T *types.Struct
	F []Val
}

func (t Struct) key() string {
	s := make([]string, len(t.F))
	for i, v := range t.F {
		s[i] = v.key()
	}
	return "{" + strings.Join(s, ";") + "}"
}

// MapV is a reference to a map object.
type MapV struct{ Obj int }

func (m MapV) key() string { return "m" + strconv.Itoa(m.Obj) }

// Cat is a text made of pieces (the content of a buffer, or a concatenation).
type Cat struct{ P []Piece }

func (c Cat) key() string { return "cat[" + piecesKey(c.P) + "]" }

// Piece is an element, or a segment (Seg > 0) of unknown length, of a sequence.
// With Proj it stands for the field (path) of the element(s), in a text.
type Piece struct {
	Seg  int
	Elem Val
	Proj string
}

func (p Piece) key() string {
	if p.Seg > 0 {
		return "S" + strconv.Itoa(p.Seg) + p.Proj
	}
	return p.Elem.key() + p.Proj
}
func piecesKey(ps []Piece) string {
	s := make([]string, len(ps))
	for i, p := range ps {
		s[i] = p.key()
	}
	return strings.Join(s, " ")
}

// ---- constants

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tRune   = types.Typ[types.Rune]
)

func cIntT(n int64, t types.Type) Val { return Const{constant.MakeInt64(n), t} }
func cInt(n int64) Val                { return Const{constant.MakeInt64(n), tInt} }
func cBool(b bool) Val                { return Const{constant.MakeBool(b), tBool} }
func cStr(s string) Val               { return Const{constant.MakeString(s), tString} }
func cNil() Val                       { return Const{} }
func isNil(v Val) bool                { c, ok := v.(Const); return ok && c.V == nil }
func eq(a, b Val) bool                { return a.key() == b.key() }
func asInt(v Val) (int64, bool) {
	if c, ok := v.(Const); ok && c.V != nil && c.V.Kind() == constant.Int {
		n, ok := constant.Int64Val(c.V)
		return n, ok
	}
	return 0, false
}
func asBool(v Val) (bool, bool) {
	if c, ok := v.(Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}
func asStr(v Val) (string, bool) {
	if c, ok := v.(Const); ok && c.V != nil && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}

// ---- linear arithmetic

func toLin(v Val) *Lin {
	if n, ok := asInt(v); ok {
		return &Lin{K: n}
	}
	if l, ok := v.(*Lin); ok {
		return l
	}
	return &Lin{T: []LT{{v, 1}}}
}
func fromLin(l *Lin) Val {
	if len(l.T) == 0 {
		return cInt(l.K)
	}
	if len(l.T) == 1 && l.T[0].C == 1 && l.K == 0 {
		return l.T[0].V
	}
	return l
}
func linAdd(a, b *Lin, f int64) *Lin { // a + f*b
	m := map[string]LT{}
	for _, t := range a.T {
		m[t.V.key()] = t
	}
	for _, t := range b.T {
		k := t.V.key()
		c := m[k].C + f*t.C
		if c == 0 {
			delete(m, k)
		} else {
			m[k] = LT{t.V, c}
		}
	}
	r := &Lin{K: a.K + f*b.K}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.T = append(r.T, m[k])
	}
	return r
}
func add(a, b Val) Val        { return fromLin(linAdd(toLin(a), toLin(b), 1)) }
func sub(a, b Val) Val        { return fromLin(linAdd(toLin(a), toLin(b), -1)) }
func addK(a Val, k int64) Val { return fromLin(linAdd(toLin(a), &Lin{K: k}, 1)) }
func neg(l *Lin) *Lin         { return linAdd(&Lin{}, l, -1) }

// ---- integer sets

type IntSet []iv
type iv struct{ lo, hi int64 }

const (
	negInf = int64(-1) << 62
	posInf = int64(1) << 62
)

func full() IntSet { return IntSet{{negInf, posInf}} }
func (s IntSet) inter(o IntSet) IntSet {
	var r IntSet
	i, j := 0, 0
	for i < len(s) && j < len(o) {
		lo, hi := max(s[i].lo, o[j].lo), min(s[i].hi, o[j].hi)
		if lo <= hi {
			r = append(r, iv{lo, hi})
		}
		if s[i].hi < o[j].hi {
			i++
		} else {
			j++
		}
	}
	return r
}
func (s IntSet) compl() IntSet {
	var r IntSet
	next := negInf
	for _, v := range s {
		if v.lo > next {
			r = append(r, iv{next, v.lo - 1})
		}
		next = v.hi + 1
	}
	if next <= posInf {
		r = append(r, iv{next, posInf})
	}
	return r
}
func (s IntSet) has(n int64) bool {
	i := sort.Search(len(s), func(i int) bool { return s[i].hi >= n })
	return i < len(s) && s[i].lo <= n
}
func (s IntSet) subset(o IntSet) bool { return len(s.inter(o.compl())) == 0 }
func (s IntSet) size() int64 {
	var n int64
	for _, v := range s {
		n += v.hi - v.lo + 1
	}
	return n
}
func (s IntSet) String() string {
	var b strings.Builder
	for i, v := range s {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 6 {
			fmt.Fprintf(&b, "... (%d intervals)", len(s))
			break
		}
		if v.lo == v.hi {
			fmt.Fprintf(&b, "%d", v.lo)
		} else {
			l, h := fmt.Sprint(v.lo), fmt.Sprint(v.hi)
			if v.lo == negInf {
				l = "-inf"
			}
			if v.hi == posInf {
				h = "inf"
			}
			fmt.Fprintf(&b, "%s..%s", l, h)
		}
	}
	return b.String()
}

// union of a set with another
func (s IntSet) union(o IntSet) IntSet { return s.compl().inter(o.compl()).compl() }

// ---- substitution

type renamer struct {
	only    int // if set, only this symbol is changed
	onlySeg int // if set, only this segment is changed
	sym     func(*Sym) Val
	obj     func(int) int
	segf    func(Piece) []Piece
	seqf    func([]Piece) []Piece // if set, only sequences are changed
	st      *State                // if set, terms are simplified
}

func (r *renamer) val(v Val) Val {
	switch v := v.(type) {
	case Const:
		return v
	case *Sym:
		return r.sym(v)
	case *App:
		args := make([]Val, len(v.Args))
		for i, a := range v.Args {
			args[i] = r.val(a)
		}
		n := mkApp(v.Op, v.T, args...)
		if r.st != nil && n.k != v.k {
			return r.st.simp(n)
		}
		return n
	case *Lin:
		l := &Lin{K: v.K}
		for _, t := range v.T {
			l = linAdd(l, toLin(r.val(t.V)), t.C)
		}
		return fromLin(l)
	case Ptr:
		return Ptr{r.obj(v.Obj), v.Path}
	case ElemPtr:
		return ElemPtr{r.obj(v.Arr), r.val(v.Idx), v.Sub}
	case Slice:
		return Slice{r.obj(v.Arr), r.val(v.Lo), r.val(v.Hi), v.Full}
	case Fn:
		return Fn{v.F, r.vals(v.Bind)}
	case Ext:
		return Ext{v.Name, r.vals(v.Data), v.T}
	case Iface:
		return Iface{v.T, r.val(v.V)}
	case Tuple:
		return Tuple(r.vals(v))
	case Struct:
		return Struct{v.T, r.vals(v.F)}
	case MapV:
		return MapV{r.obj(v.Obj)}
	case Cat:
		return mkCat(r.pieces(v.P))
	}
	panic(fmt.Sprintf("rename: %T", v))
}
func (r *renamer) vals(vs []Val) []Val {
	if vs == nil {
		return nil
	}
	o := make([]Val, len(vs))
	for i, v := range vs {
		o[i] = r.val(v)
	}
	return o
}
func (r *renamer) pieces(ps []Piece) []Piece {
	o := make([]Piece, 0, len(ps))
	for _, p := range ps {
		if p.Seg > 0 {
			o = append(o, r.segf(p)...)
		} else {
			o = append(o, Piece{Elem: r.val(p.Elem), Proj: p.Proj})
		}
	}
	if r.seqf != nil {
		o = r.seqf(o)
	}
	return o
}

// isIntVal tells whether v is a (wide) integer that may be generalized by widening.
func isCounter(v Val) bool {
	var t types.Type
	switch v := v.(type) {
	case Const:
		if v.V == nil || v.V.Kind() != constant.Int {
			return false
		}
		t = v.T
	case *Sym:
		t = v.T
	case *App:
		t = v.T
	case *Lin:
		return true
	default:
		return false
	}
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return true
	}
	return false
}

// mkCat makes a text of pieces, flattening and joining constants.
func mkCat(ps []Piece) Val {
	var out []Piece
	var addv func(p Piece)
	addv = func(p Piece) {
		if p.Seg == 0 && p.Proj == "" {
			if c, ok := p.Elem.(Cat); ok {
				for _, q := range c.P {
					addv(q)
				}
				return
			}
			if str, ok := asStr(p.Elem); ok {
				if str == "" {
					return
				}
				if n := len(out); n > 0 && out[n-1].Seg == 0 && out[n-1].Proj == "" {
					if prev, ok := asStr(out[n-1].Elem); ok {
						out[n-1] = Piece{Elem: cStr(prev + str)}
						return
					}
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		addv(p)
	}
	if len(out) == 0 {
		return cStr("")
	}
	if len(out) == 1 && out[0].Seg == 0 && out[0].Proj == "" {
		return out[0].Elem
	}
	return Cat{out}
}
func catPieces(v Val) []Piece {
	if c, ok := v.(Cat); ok {
		return c.P
	}
	if s, ok := asStr(v); ok && s == "" {
		return nil
	}
	return []Piece{{Elem: v}}
}
func concat(a, b Val) Val {
	return mkCat(append(append([]Piece(nil), catPieces(a)...), catPieces(b)...))
}
