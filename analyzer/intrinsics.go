package main

import (
	"go/ast"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stubDecl is a harness function standing in for another function.
type stubDecl struct {
	target string
	groups []string // enabled by default if empty
	fn     *ssa.Function
}

// findStubs collects the //jv:stub directives of the harness.
func (p *Program) findStubs() []stubDecl {
	var r []stubDecl
	for _, f := range p.byPkg[p.harn.Pkg.Path()].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if !strings.HasPrefix(c.Text, "//jv:stub ") {
					continue
				}
				parts := strings.Fields(c.Text)[1:]
				fn := p.harn.Func(fd.Name.Name)
				r = append(r, stubDecl{parts[0], parts[1:], fn})
			}
		}
	}
	return r
}

// enableStd sets the stubs of group std, which are also used by the initialization of packages.
func (x *Exec) enableStd() {
	x.stubs = map[string]*ssa.Function{}
	for _, d := range x.p.findStubs() {
		if len(d.groups) == 1 && d.groups[0] == "std" {
			x.stubs[d.target] = d.fn
		}
	}
}

// enableStubs sets the stubs for the given groups.
func (x *Exec) enableStubs(groups ...string) {
	if x.stubs == nil {
		x.stubs = map[string]*ssa.Function{}
	}
	on := map[string]bool{}
	for _, g := range groups {
		on[g] = true
	}
	for _, d := range x.p.findStubs() {
		ok := len(d.groups) == 0
		for _, g := range d.groups {
			ok = ok || on[g]
		}
		if ok {
			x.stubs[d.target] = d.fn
		}
	}
}

const harnPkg = "github.com/clipperhouse/jargon/" + harnessDir

func intrinsic(name string, m Model) { stdModels[harnPkg+"."+name] = m }

func (c *Call) constStr(i int) string {
	s, ok := asStr(c.args[i])
	if !ok {
		undecided("the argument of %s is not constant", c.name)
	}
	return s
}

func init() {
	intrinsic("choose", func(c *Call) (Val, bool) {
		n, _ := asInt(c.args[0])
		return cInt(int64(c.s.choose(int(n), "choose"))), true
	})
	intrinsic("anyBool", func(c *Call) (Val, bool) { return cBool(c.s.choose(2, "bool") == 1), true })
	intrinsic("anyInt", func(c *Call) (Val, bool) { return freshSym("int", tInt), true })
	intrinsic("anyString", func(c *Call) (Val, bool) { return freshSym("text", tString), true })
	anyOf := func(c *Call) (Val, bool) { return c.s.freshVal(c.resultType(), "any"), true }
	intrinsic("anyRunes", anyOf)
	intrinsic("anyStrings", anyOf)
	intrinsic("anyAttrs", anyOf)
	intrinsic("anyTokens", anyOf)
	intrinsic("anyTokenPtr", func(c *Call) (Val, bool) {
		return c.s.anyObj(c.resultType().(*types.Pointer).Elem(), "token"), true
	})
	intrinsic("anyAtom", anyOf)
	intrinsic("anyRune", func(c *Call) (Val, bool) { return kinds["rune"].Mk(c.s), true })
	intrinsic("modelOf", func(c *Call) (Val, bool) {
		v := c.args[0]
		for {
			i, ok := v.(Iface)
			if !ok {
				break
			}
			v = i.V
		}
		if p, ok := v.(Ptr); ok && p.Path == "" {
			if o := c.s.obj(p.Obj); o.T != nil && strings.HasPrefix(typeKey(o.T), harnPkg+".") {
				return Iface{T: types.NewPointer(o.T), V: p}, true
			}
		}
		undecided("%s: an unknown object (%s)", c.name, describe(c.args[0]))
		return nil, false
	})
	intrinsic("undecided", func(c *Call) (Val, bool) {
		undecided("%s", c.constStr(0))
		return nil, false
	})
	intrinsic("callMain", func(c *Call) (Val, bool) {
		pkg := c.x.p.ssa[c.constStr(0)]
		if pkg == nil || pkg.Func("main") == nil {
			undecided("there is no command %s", c.constStr(0))
		}
		c.x.push(c.s, pkg.Func("main"), nil, nil, c.instr)
		return nil, false
	})
	intrinsic("nameFilter", func(c *Call) (Val, bool) {
		if c.x.named == nil {
			c.x.named = map[string]string{}
		}
		if _, ok := c.args[0].(Fn); !ok {
			undecided("a filter that is %s", describe(c.args[0]))
		}
		c.x.named[c.args[0].key()] = c.constStr(1)
		return Tuple{}, true
	})
	intrinsic("havoc", func(c *Call) (Val, bool) {
		i, ok := c.args[0].(Iface)
		if !ok {
			undecided("havoc of %s", describe(c.args[0]))
		}
		pt, ok := under(i.T).(*types.Pointer)
		if !ok {
			undecided("havoc of a %s", i.T)
		}
		c.x.store(c.s, i.V, c.s.freshVal(pt.Elem(), "decoded"), pt.Elem(), c.pos)
		return Tuple{}, true
	})
	intrinsic("jsonText", func(c *Call) (Val, bool) {
		if i, ok := c.args[0].(Iface); ok {
			if pt, ok := under(i.T).(*types.Pointer); ok {
				if st, ok := under(pt.Elem()).(*types.Struct); ok {
					for k := 0; k < st.NumFields(); k++ {
						tag := reflect.StructTag(st.Tag(k)).Get("json")
						if strings.Split(tag, ",")[0] == c.constStr(1) {
							return c.x.load(c.s, fieldOf(i.V, k), st.Field(k).Type(), c.pos), true
						}
					}
				}
			}
		}
		return cStr(""), true
	})
	intrinsic("mentions", func(c *Call) (Val, bool) {
		return cBool(strings.Contains(c.args[0].key(), c.args[1].key())), true
	})
	intrinsic("share", func(c *Call) (Val, bool) {
		c.s.share, c.s.sync = idCounter, nil
		return Tuple{}, true
	})
	intrinsic("abstractText", func(c *Call) (Val, bool) {
		c.s.abstractText(c.x.load(c.s, c.args[0], tString, c.pos))
		return Tuple{}, true
	})
	intrinsic("sameMap", func(c *Call) (Val, bool) {
		v := c.args[0]
		if i, ok := v.(Iface); ok {
			v = i.V
		}
		return cBool(c.s.sameMap(v, c.args[1])), true
	})
	intrinsic("bytesRef", func(c *Call) (Val, bool) {
		return Ext{Name: "bytesref", Data: []Val{c.args[0]}, T: c.resultType()}, true
	})
	intrinsic("contractionTable", func(c *Call) (Val, bool) {
		return c.x.globalOf(c.s, "github.com/clipperhouse/jargon/filters/contractions", "map[string]string"), true
	})
	intrinsic("anyErr", func(c *Call) (Val, bool) { return freshErr("err"), true })
	intrinsic("assert", func(c *Call) (Val, bool) {
		c.x.asserts[c.pos]++
		c.x.assertMsg[c.pos] = c.constStr(1)
		if !c.s.decide(c.args[0]) {
			panic(failPanic{c.pos, c.constStr(1)})
		}
		return Tuple{}, true
	})
	intrinsic("fail", func(c *Call) (Val, bool) {
		c.x.asserts[c.pos]++
		c.x.assertMsg[c.pos] = c.constStr(0)
		panic(failPanic{c.pos, c.constStr(0)})
	})
	intrinsic("assume", func(c *Call) (Val, bool) {
		if !c.s.decide(c.args[0]) {
			panic(deadPanic{})
		}
		return Tuple{}, true
	})
	intrinsic("trace", func(c *Call) (Val, bool) {
		c.s.note(c.pos, c.constStr(0))
		return Tuple{}, true
	})
	seqEq := func(c *Call) (Val, bool) { return cBool(c.s.sameSeq(c.args[0], c.args[1])), true }
	intrinsic("sameSeq", seqEq)
	intrinsic("sameStrs", seqEq)
	intrinsic("sameRunes", seqEq)
	intrinsic("textOf", func(c *Call) (Val, bool) {
		v := c.x.matSlice(c.s, c.args[0])
		var out []Piece
		for _, p := range c.s.view(v) {
			p.Proj = c.x.valuePath
			out = append(out, p)
		}
		return mkCat(c.s.projPieces(out)), true
	})
	intrinsic("joinStrs", func(c *Call) (Val, bool) {
		v := c.x.matSlice(c.s, c.args[0])
		var out []Piece
		for _, p := range c.s.view(v) {
			if p.Seg > 0 {
				p.Proj = "="
			}
			out = append(out, p)
		}
		return mkCat(c.s.projPieces(out)), true
	})
	intrinsic("sameText", func(c *Call) (Val, bool) {
		b, known := c.s.evalBool(c.s.strEq(c.args[0], c.args[1]))
		return cBool(known && b), true
	})
	intrinsic("sameTok", func(c *Call) (Val, bool) {
		b, known := c.s.evalBool(c.s.eqVal(c.args[0], c.args[1]))
		return cBool(known && b), true
	})
	intrinsic("takeText", func(c *Call) (Val, bool) {
		s := c.args[0]
		if str, ok := asStr(s); ok && str == "" {
			panic(deadPanic{})
		}
		sy, ok := s.(*Sym)
		if !ok {
			undecided("takeText of %s", describe(s))
		}
		a := freshSym("tok", tString)
		b := freshSym("rest", tString)
		c.s.bind(sy, mkCat([]Piece{{Elem: a}, {Elem: b}}))
		c.s.assume(c.s.strEq(a, cStr("")), false)
		return Tuple{a, b}, true
	})
	intrinsic("isPunctText", func(c *Call) (Val, bool) { return textPred("punct", c.args[0]), true })
	intrinsic("isSpaceText", func(c *Call) (Val, bool) { return textPred("space", c.args[0]), true })
	intrinsic("outside", func(c *Call) (Val, bool) { return c.s.runesOutside(c.args[0], c.constStr(1)), true })
	intrinsic("anyRunesText", func(c *Call) (Val, bool) {
		t := freshSym("text", tString)
		n, _ := asInt(c.args[0])
		var ps []Piece
		for i := int64(0); i < n; i++ {
			ps = append(ps, Piece{Elem: kinds["rune"].Mk(c.s)})
		}
		c.s.assume(c.s.strEq(t, cStr("")), false)
		c.s.runes[t.key()] = RuneSeq{t, ps}
		return t, true
	})
	intrinsic("foldText", func(c *Call) (Val, bool) {
		var out []Piece
		for _, p := range c.s.runesOf(c.args[0])() {
			p.Proj = "fold"
			out = append(out, p)
		}
		return mkCat(c.s.projPieces(out)), true
	})
	intrinsic("runeCount", func(c *Call) (Val, bool) { return c.s.piecesLen(c.s.runesOf(c.args[0])()), true })
	intrinsic("fn1", func(c *Call) (Val, bool) { return mkApp(c.constStr(0), tString, c.args[1]), true })
	intrinsic("fn2", func(c *Call) (Val, bool) { return mkApp(c.constStr(0), tString, c.args[1], c.args[2]), true })
	intrinsic("pr1", func(c *Call) (Val, bool) { return mkApp(c.constStr(0), tBool, c.args[1]), true })
}

// textPred classifies a text: known for constants.
func textPred(op string, v Val) Val {
	if s, ok := asStr(v); ok {
		set := punctSet()
		if op == "space" {
			set = runeSet("unicode.IsSpace", runePreds["IsSpace"])
		}
		for _, r := range s {
			if !set.has(int64(r)) {
				return cBool(false)
			}
		}
		return cBool(true)
	}
	return mkApp(op+"text", tBool, v)
}

func punctSet() IntSet {
	return runeSet("unicode.IsPunct", runePreds["IsPunct"]).union(IntSet{{'\t', '\n'}, {'\r', '\r'}})
}

// sameSeq tells whether two slices provably have the same elements.
func (s *State) sameSeq(a, b Val) bool {
	s.view(a)
	s.view(b) // may split what a consists of
	x := s.view(a)
	return s.samePieces(x, s.view(b))
}

func (s *State) samePieces(x, y []Piece) bool {
	drop := func(ps []Piece) []Piece {
		var out []Piece
		for _, p := range ps {
			if p.Seg > 0 && s.provesEq(s.segs[p.Seg].Len, cInt(0)) {
				continue
			}
			out = append(out, p)
		}
		return out
	}
	x, y = drop(x), drop(y)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].key() != y[i].key() {
			if x[i].Seg == 0 && y[i].Seg == 0 && x[i].Proj == y[i].Proj {
				if b, known := s.evalBool(s.eqAny(x[i].Elem, y[i].Elem, valType(x[i].Elem))); known && b {
					continue
				}
			}
			return false
		}
	}
	return true
}

// anyObj is an object with unknown content.
func (s *State) anyObj(t types.Type, tag string) Val {
	id := s.newObj('c', t, tag)
	o := s.mut(id)
	o.Lazy, o.Any = true, true
	return Ptr{id, ""}
}

// setupKinds defines the kind of tokens: attributes that are kept when tokens are summarized in sequences.
func (x *Exec) setupKinds(s0 *State, attrs []string) {
	for k := range kinds {
		delete(kinds, k)
	}
	for k := range sumAttrs {
		delete(sumAttrs, k)
	}
	tt := x.p.ssa["github.com/clipperhouse/jargon"].Type("Token").Type()
	// find the text's field: run (*Token).String on an unknown token
	x.valuePath = ".?"
	func() {
		defer func() { recover() }()
		y := newExec(x.p, &Config{Name: "value"})
		y.globals = x.globals
		s := s0.clone()
		t := s.anyObj(tt, "token")
		fn := x.p.prog.LookupMethod(types.NewPointer(tt), nil, "String")
		y.push(s, fn, []Val{t}, nil, nil)
		y.onRet = func(v Val) {
			if sy, ok := v.(*Sym); ok && sy.Owner == t.(Ptr).Obj {
				x.valuePath = sy.Path
			}
		}
		y.run(s)
	}()
	name := kindName(types.NewPointer(tt))
	k := &Kind{Name: name, T: types.NewPointer(tt)}
	kinds[name] = k
	value := func(s *State, e Val) Val {
		p, ok := e.(Ptr)
		if !ok {
			undecided("a token that is %T", e)
		}
		return s.loadCell(p.Obj, p.Path+x.valuePath, tString)
	}
	k.Inv = func(s *State, e Val) bool { return s.nonEmpty(value(s, e)) }
	k.Mk = func(s *State) Val {
		t := s.anyObj(tt, "token")
		s.assume(s.strEq(value(s, t), cStr("")), false)
		return t
	}
	var fs []func(s *State, e Val) Val
	var runeAttrs []string
	for _, a := range attrs {
		if strings.HasPrefix(a, "rune:") {
			runeAttrs = append(runeAttrs, a[5:])
			continue
		}
		switch a {
		case "bytes":
			sumAttrs[name] = len(fs) + 1
			sumProj[name] = x.valuePath
			fs = append(fs, func(s *State, e Val) Val { return s.strLen(value(s, e)) })
		default:
			panic("unknown attribute " + a)
		}
	}
	k.N = len(fs)
	x.setupRunes(runeAttrs)
	k.Attr = func(s *State, e Val) []Val {
		var r []Val
		for _, f := range fs {
			r = append(r, f(s, e))
		}
		return r
	}
}

// runeAttrSets are the sets of runes whose complements are counted in texts.
var runeAttrSets []string

// namedSet is a set of runes known to the harnesses by name.
func namedSet(n string) IntSet {
	switch n {
	case "punct":
		return punctSet()
	case "space":
		return runeSet("unicode.IsSpace", runePreds["IsSpace"])
	case "letter":
		return runeSet("unicode.IsLetter", runePreds["IsLetter"])
	case "handle":
		return IntSet{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}
	case "hashtag":
		return namedSet("letter").union(runeSet("unicode.IsNumber", runePreds["IsNumber"])).union(IntSet{{'_', '_'}})
	case "unfoldable":
		var f IntSet
		for _, e := range luceneTable() {
			f = append(f, iv{e.from, e.from})
		}
		return f.compl()
	}
	panic("unknown set " + n)
}

// setupRunes defines the kind of runes of texts: for each named set, the runes outside of it are counted.
func (x *Exec) setupRunes(sets []string) {
	runeAttrSets = sets
	foldImages = x.cfg.Flags["images"]
	var ss []IntSet
	for _, n := range sets {
		ss = append(ss, namedSet(n))
	}
	k := &Kind{Name: "rune", T: tRune, N: len(sets)}
	k.Mk = func(s *State) Val {
		r := freshSym("rune", tRune)
		s.sets[r.key()] = setFact{r, validRunes}
		return r
	}
	k.Attr = func(s *State, e Val) []Val {
		var r []Val
		for _, set := range ss {
			if s.decide(s.inSet(e, set)) {
				r = append(r, cInt(0))
			} else {
				r = append(r, cInt(1))
			}
		}
		return r
	}
	kinds["rune"] = k
}

// runesOutside counts the runes of a text that are not in a named set.
func (s *State) runesOutside(v Val, name string) Val {
	j := -1
	for i, n := range runeAttrSets {
		if n == name {
			j = i
		}
	}
	if j < 0 {
		undecided("set %s is not tracked", name)
	}
	var sum Val = cInt(0)
	get := s.runesOf(v)
	for i := 0; i < len(get()); i++ {
		p := get()[i]
		if p.Seg > 0 {
			sum = add(sum, s.segs[p.Seg].Attr[j])
			continue
		}
		s.ensureAttrs(p.Elem)
		sum = add(sum, kinds["rune"].Attr(s, get()[i].Elem)[j])
	}
	return sum
}

// globalOf is the value of the only variable of a type in a package.
func (x *Exec) globalOf(s *State, pkg, typ string) Val {
	var found *ssa.Global
	p := x.p.ssa[pkg]
	if p == nil {
		undecided("package %s is missing", pkg)
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if t := g.Type().(*types.Pointer).Elem(); types.TypeString(under(t), nil) == typ {
				if found != nil {
					undecided("several variables of type %s in %s", typ, pkg)
				}
				found = g
			}
		}
	}
	if found == nil {
		undecided("no variable of type %s in %s", typ, pkg)
	}
	return x.load(s, x.globalPtr(s, found), found.Type().(*types.Pointer).Elem(), 0)
}

// sameMap tells whether two maps of known keys have the same entries.
func (s *State) sameMap(a, b Val) bool {
	entries := func(v Val) map[string]string {
		m, ok := v.(MapV)
		if !ok {
			undecided("a map is expected, not %s", describe(v))
		}
		o := s.obj(m.Obj)
		if o.Lazy || len(o.P) > 0 {
			undecided("the entries of a map are unknown")
		}
		r := map[string]string{}
		for _, e := range o.M {
			if _, ok := e.K.(Const); !ok {
				undecided("the entries of a map are unknown")
			}
			if !e.Del {
				r[e.K.key()] = e.V.key()
			}
		}
		return r
	}
	x, y := entries(a), entries(b)
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		if w, ok := y[k]; !ok || w != v {
			return false
		}
	}
	return true
}
