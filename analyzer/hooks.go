package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call is a call of a modelled function.
type Call struct {
	x     *Exec
	s     *State
	name  string
	fn    *ssa.Function
	ext   Ext
	args  []Val
	instr ssa.Instruction
	pos   token.Pos
}

// Model gives the effect and result of a call. If ok is false it has arranged for the result itself.
type Model func(c *Call) (res Val, ok bool)

// hooks are set by particular checks.
type hooks struct {
	envTypeAssert func(s *State, v Val, t types.Type) (Val, bool, bool)
	extMap        func(s *State, e Ext, k Val, mt *types.Map) (Val, Val)
	extMapUpdate  func(s *State, e Ext, k, v Val)
	mapHook       func(s *State, id int, k Val, mt *types.Map, pos token.Pos) (Val, Val, bool)
	mapUpdHook    func(s *State, id int, k, v Val, pos token.Pos) bool
	rangeHook     func(s *State, id int)
	mapIter       func(s *State, it, id int, in *ssa.Next) (Val, bool)
	substrHook    func(s *State, v, lo, hi, n Val) (Val, bool)
	sharing       sharing
	models        map[string]Model // in addition to the standard ones (nil: remove)
	stubs         map[string]*ssa.Function
	named         map[string]string // filters that are replaced by the harness's, by their names
}

var stdModels = map[string]Model{}

func (x *Exec) model(name string) Model {
	if m, ok := x.models[name]; ok {
		return m
	}
	if _, ok := x.stubs[name]; ok {
		return nil
	}
	return stdModels[name]
}
func (x *Exec) extModel(name string) Model { return x.model("ext:" + name) }
func (x *Exec) stub(name string) *ssa.Function {
	return x.stubs[name]
}

func (x *Exec) onAccess(s *State, p Ptr, write bool, pos token.Pos) {
	x.shareAccess(s, p.Obj, p.Path, write, pos)
}
func (x *Exec) onElemWrite(s *State, arr int, pos token.Pos) {
	x.shareAccess(s, arr, "[]", true, pos)
}
func (x *Exec) onMapAccess(s *State, id int, write bool, pos token.Pos) {
	x.shareAccess(s, id, "[]", write, pos)
}

// extLoad loads through the address of something opaque (a variable of another package, or a field of it).
func (x *Exec) extLoad(s *State, p Ext, t types.Type) Val {
	if strings.HasPrefix(p.Name, "global:") {
		if k, ok := extGlobals[p.Name[7:]]; ok {
			return k
		}
		if g, ok := x.p.harn.Members["g_"+strings.NewReplacer("/", "_", ".", "_").Replace(p.Name[7:])].(*ssa.Global); ok {
			return x.load(s, x.globalPtr(s, g), g.Type().(*types.Pointer).Elem(), token.NoPos)
		}
		return Ext{Name: "val:" + p.Name[7:], Data: p.Data, T: t}
	}
	if strings.HasPrefix(p.Name, "fieldaddr:") {
		return Ext{Name: "field:" + p.Name[10:], Data: p.Data, T: t}
	}
	if p.Name == "elemaddr" {
		if b, ok := p.Data[0].(Ext); ok && b.Name == "bytes" {
			return x.strIndex(s, b.Data[0], p.Data[1], token.NoPos, t)
		}
	}
	undecided("load of %s", p.Name)
	return nil
}

var extGlobals = map[string]Val{}

func (x *Exec) extStore(s *State, p Ext, v Val, pos token.Pos) {
	if strings.HasPrefix(p.Name, "global:") || strings.HasPrefix(p.Name, "fieldaddr:") {
		if x.initPhase {
			return
		}
	}
	undecided("store to %s", p.Name)
}

// unknownCall handles calls of external functions that have no model.
func (x *Exec) unknownCall(s *State, f *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	if f.Name() == "init" && f.Signature.Params().Len() == 0 {
		return Tuple{}, true
	}
	return x.pureCall(s, f, args)
}

func isByteSlice(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(sl.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) builtin(s *State, f Ext, args []Val, instr ssa.Instruction, pos token.Pos) Val {
	name := strings.TrimPrefix(f.Name, "builtin:")
	sig, _ := f.T.(*types.Signature)
	switch name {
	case "len", "cap":
		v := x.matSlice(s, args[0])
		switch v := v.(type) {
		case Slice:
			if name == "cap" {
				return mkApp("cap", tInt, v)
			}
			return s.sliceLen(v)
		case MapV:
			o := s.obj(v.Obj)
			if o.Lazy || len(o.P) > 0 {
				l := mkApp("maplen", tInt, v, o.F["#ver"])
				s.addLin(toLin(l))
				return l
			}
			n := int64(0)
			for _, e := range o.M {
				if !e.Del {
					n++
				}
			}
			return cInt(n)
		case Ptr:
			return s.piecesLen(s.obj(v.Obj).P)
		case Ext:
			if v.Name == "bytes" || v.Name == "bytesref" {
				return s.strLen(x.bytesToStr(s, v))
			}
		case Const:
			if v.V == nil {
				return cInt(0)
			}
			return s.strLen(v)
		}
		if sig != nil && sig.Params().Len() > 0 {
			if b, ok := under(sig.Params().At(0).Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return s.strLen(v)
			}
		}
		undecided("%s of %T", name, v)
	case "append":
		a := x.matSlice(s, args[0])
		if sig != nil && isByteSlice(sig.Params().At(0).Type()) {
			return Ext{Name: "bytes", Data: []Val{concat(x.bytesToStr(s, a), x.anyBytes(s, args[1]))}, T: sig.Params().At(0).Type()}
		}
		b := x.matSlice(s, args[1])
		if isNil(b) {
			return a
		}
		bs, ok := b.(Slice)
		if !ok {
			undecided("append of %T", b)
		}
		var et types.Type
		if sig != nil {
			et = under(sig.Params().At(0).Type()).(*types.Slice).Elem()
		}
		more := s.view(bs)
		if sa, ok := a.(Slice); ok && len(more) > 0 && !sa.Full {
			if o := s.obj(sa.Arr); !o.Exact || !s.provesEq(sa.Hi, s.piecesLen(o.P)) {
				x.onElemWrite(s, sa.Arr, pos)
				for _, p := range more {
					if p.Seg == 0 {
						x.publish(s, sa.Arr, p.Elem)
					}
				}
			}
		}
		return s.appendTo(a, et, more, x.tag(s))
	case "copy":
		a, b := x.matSlice(s, args[0]), x.matSlice(s, args[1])
		if _, ok := a.(Ext); ok {
			undecided("copy to bytes")
		}
		if sa, ok := a.(Slice); ok {
			x.onElemWrite(s, sa.Arr, pos)
		}
		return s.copySlice(a, b)
	case "delete":
		m := x.matMap(s, args[0])
		if isNil(m) {
			return Tuple{}
		}
		id, o, ok := x.mapObj(s, m)
		if !ok {
			undecided("delete from %T", m)
		}
		x.onMapAccess(s, id, true, pos)
		if len(o.P) > 0 || o.Lazy {
			undecided("delete from an unknown map")
		}
		mt := under(o.T).(*types.Map)
		for i := len(o.M) - 1; i >= 0; i-- {
			if s.decide(s.eqAny(args[1], o.M[i].K, mt.Key())) {
				mo := s.mut(id)
				var out []Entry
				out = append(out, mo.M[:i]...)
				out = append(out, mo.M[i+1:]...)
				mo.M = out
				mo.mi = map[string]int{}
				for j, e := range out {
					mo.mi[e.K.key()] = j
				}
				return Tuple{}
			}
		}
		return Tuple{}
	case "clear":
		switch m := x.matMap(s, args[0]).(type) {
		case MapV:
			x.onMapAccess(s, m.Obj, true, pos)
			mo := s.mut(m.Obj)
			mo.M, mo.mi, mo.P, mo.Lazy = nil, map[string]int{}, nil, false
			return Tuple{}
		case Const:
			return Tuple{}
		}
		undecided("clear")
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if s.decideGe(a, r) == (name == "max") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		v := args[0]
		if isNil(v) {
			panic(rtPanic{pos, "nil pointer dereference"})
		}
		if sy, ok := v.(*Sym); ok {
			if s.decide(s.eqVal(sy, cNil())) {
				panic(rtPanic{pos, "possible nil pointer dereference"})
			}
		}
		return v
	case "recover":
		return cNil()
	}
	undecided("builtin %s", name)
	return nil
}

// anyBytes is the text of a string or slice of bytes.
func (x *Exec) anyBytes(s *State, v Val) Val {
	switch v := v.(type) {
	case Ext:
		return x.bytesToStr(s, v)
	case Const:
		if v.V == nil {
			return cStr("")
		}
		return v
	case Slice:
		// explicit bytes (append(b, 'x', 'y'))
		var out []Piece
		for _, p := range s.view(v) {
			n, ok := asInt(p.Elem0())
			if p.Seg > 0 || !ok {
				if p.Seg == 0 && s.setOf(p.Elem).subset(IntSet{{0, 127}}) {
					out = append(out, Piece{Elem: mkApp("runestr", tString, p.Elem)})
					continue
				}
				undecided("unknown bytes")
			}
			out = append(out, Piece{Elem: cStr(string([]byte{byte(n)}))})
		}
		return mkCat(out)
	}
	return v
}

// ---- helpers for models

func (c *Call) str(i int) Val { return c.args[i] }

func (c *Call) resultType() types.Type {
	if c.fn != nil {
		r := c.fn.Signature.Results()
		switch r.Len() {
		case 0:
			return nil
		case 1:
			return r.At(0).Type()
		}
		return r
	}
	return nil
}

// textCell is where a builder or buffer keeps its content.
func (c *Call) textCell(i int) (int, string) {
	v := c.args[i]
	if sy, ok := v.(*Sym); ok {
		if c.s.decide(c.s.eqVal(sy, cNil())) {
			panic(rtPanic{c.pos, "possible nil pointer dereference"})
		}
	}
	if isNil(v) {
		panic(rtPanic{c.pos, "nil pointer dereference"})
	}
	p, ok := v.(Ptr)
	if !ok {
		undecided("%s: receiver is %T", c.name, v)
	}
	return p.Obj, p.Path + "#text"
}
func (c *Call) text(i int) Val {
	id, k := c.textCell(i)
	c.x.shareAccess(c.s, id, k, false, c.pos)
	if v, ok := c.s.obj(id).F[k]; ok {
		return v
	}
	return cStr("")
}
func (c *Call) setText(i int, v Val) {
	id, k := c.textCell(i)
	c.x.shareAccess(c.s, id, k, true, c.pos)
	c.s.mut(id).F[k] = v
}

// runeStr is string(r) for a rune.
func runeStr(r Val) Val {
	if n, ok := asInt(r); ok {
		return cStr(string(rune(n)))
	}
	return mkApp("runestr", tString, r)
}

// freshErr is a new, non-nil error.
func freshErr(tag string) Val {
	return mkApp("error", types.Universe.Lookup("error").Type(), freshSym(tag, nil))
}

// newErr is an error that is made here, so different from all others.
func newErr(tag string) Val {
	return mkApp("newerr", types.Universe.Lookup("error").Type(), freshSym(tag, nil))
}

func describe(v Val) string { return fmt.Sprintf("%T %s", v, v.key()) }
