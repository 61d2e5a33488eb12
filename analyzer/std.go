package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Models of the standard library. Pure functions are evaluated on constants and are otherwise
// uninterpreted (equal arguments give equal results).

// runeSet is the set of runes satisfying a predicate.
var runeSetCache = map[string]IntSet{}

func runeSet(name string, f func(rune) bool) IntSet {
	if s, ok := runeSetCache[name]; ok {
		return s
	}
	var s IntSet
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if f(r) {
			if n := len(s); n > 0 && s[n-1].hi == int64(r)-1 {
				s[n-1].hi = int64(r)
			} else {
				s = append(s, iv{int64(r), int64(r)})
			}
		}
	}
	runeSetCache[name] = s
	return s
}

var runePreds = map[string]func(rune) bool{
	"IsPunct": unicode.IsPunct, "IsSpace": unicode.IsSpace, "IsLetter": unicode.IsLetter, "IsNumber": unicode.IsNumber,
	"IsDigit": unicode.IsDigit, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsTitle": unicode.IsTitle,
	"IsControl": unicode.IsControl, "IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark, "IsGraphic": unicode.IsGraphic, "IsPrint": unicode.IsPrint,
}

func allConstStr(args []Val) ([]string, bool) {
	var r []string
	for _, a := range args {
		s, ok := asStr(a)
		if !ok {
			return nil, false
		}
		r = append(r, s)
	}
	return r, true
}

func pure(op string, t types.Type) Model {
	return func(c *Call) (Val, bool) {
		rt := t
		if rt == nil {
			rt = c.resultType()
		}
		if tu, ok := rt.(*types.Tuple); ok {
			var r Tuple
			for i := 0; i < tu.Len(); i++ {
				r = append(r, mkApp(fmt.Sprintf("%s#%d", op, i), tu.At(i).Type(), c.args...))
			}
			return r, true
		}
		return mkApp(op, rt, c.args...), true
	}
}

func strFn(op string, f func(string) string) Model {
	return func(c *Call) (Val, bool) {
		if s, ok := asStr(c.args[0]); ok {
			return cStr(f(s)), true
		}
		return mkApp(op, tString, c.args[0]), true
	}
}
func strFn2(op string, f func(a, b string) Val, t types.Type) Model {
	return func(c *Call) (Val, bool) {
		if s, ok := allConstStr(c.args); ok {
			return f(s[0], s[1]), true
		}
		return mkApp(op, t, c.args...), true
	}
}

func init() {
	for n, f := range runePreds {
		n, f := n, f
		stdModels["unicode."+n] = func(c *Call) (Val, bool) {
			return c.s.inSet(c.args[0], runeSet("unicode."+n, f)), true
		}
	}
	for n, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle} {
		n, f := n, f
		stdModels["unicode."+n] = func(c *Call) (Val, bool) {
			if k, ok := asInt(c.args[0]); ok {
				return cIntT(int64(f(rune(k))), tRune), true
			}
			return mkApp("unicode."+n, tRune, c.args[0]), true
		}
	}
	stdModels["unicode/utf8.RuneCountInString"] = func(c *Call) (Val, bool) {
		get := c.s.runesOf(c.args[0])
		return c.s.piecesLen(get()), true
	}
	stdModels["unicode/utf8.RuneCount"] = func(c *Call) (Val, bool) {
		get := c.s.runesOf(c.x.bytesToStr(c.s, c.args[0]))
		return c.s.piecesLen(get()), true
	}
	stdModels["unicode/utf8.DecodeRuneInString"] = func(c *Call) (Val, bool) {
		get := c.s.runesOf(c.args[0])
		if !c.s.decideGe(c.s.piecesLen(get()), cInt(1)) {
			return Tuple{cIntT(utf8.RuneError, tRune), cInt(0)}, true
		}
		r := c.s.elemAt(get, cInt(0))
		return Tuple{r, c.runeLen(r)}, true
	}
	stdModels["unicode/utf8.DecodeLastRuneInString"] = func(c *Call) (Val, bool) {
		get := c.s.runesOf(c.args[0])
		n := c.s.piecesLen(get())
		if !c.s.decideGe(n, cInt(1)) {
			return Tuple{cIntT(utf8.RuneError, tRune), cInt(0)}, true
		}
		r := c.s.elemAt(get, addK(n, -1))
		return Tuple{r, c.runeLen(r)}, true
	}
	stdModels["unicode/utf8.RuneLen"] = func(c *Call) (Val, bool) { return c.runeLen(c.args[0]), true }
	stdModels["unicode/utf8.ValidString"] = func(c *Call) (Val, bool) {
		if s, ok := asStr(c.args[0]); ok {
			return cBool(utf8.ValidString(s)), true
		}
		return mkApp("validutf8", tBool, c.args[0]), true
	}

	stdModels["strings.ToLower"] = strFn("tolower", strings.ToLower)
	stdModels["strings.ToUpper"] = strFn("toupper", strings.ToUpper)
	stdModels["strings.Title"] = strFn("title", strings.Title)
	stdModels["strings.ToTitle"] = strFn("totitle", strings.ToTitle)
	stdModels["strings.TrimSpace"] = func(c *Call) (Val, bool) {
		if s, ok := asStr(c.args[0]); ok {
			return cStr(strings.TrimSpace(s)), true
		}
		v := mkApp("trimspace", tString, c.args[0])
		for _, n := range runeAttrSets {
			if n == "space" { // empty exactly if there is nothing else than space
				if c.s.decideEqInt(c.s.runesOutside(c.args[0], "space"), cInt(0)) {
					return cStr(""), true
				}
				c.s.assume(c.s.strEq(v, cStr("")), false)
			}
		}
		return v, true
	}
	stdModels["strings.Clone"] = func(c *Call) (Val, bool) { return c.args[0], true }
	stdModels["html.EscapeString"] = func(c *Call) (Val, bool) { return mkApp("htmlescape", tString, c.args[0]), true }
	stdModels["html/template.HTMLEscapeString"] = stdModels["html.EscapeString"]
	stdModels["strings.Contains"] = strFn2("contains", func(a, b string) Val { return cBool(strings.Contains(a, b)) }, tBool)
	stdModels["strings.ContainsAny"] = strFn2("containsany", func(a, b string) Val { return cBool(strings.ContainsAny(a, b)) }, tBool)
	stdModels["strings.HasPrefix"] = func(c *Call) (Val, bool) { return c.hasFix(true), true }
	stdModels["strings.HasSuffix"] = func(c *Call) (Val, bool) { return c.hasFix(false), true }
	stdModels["strings.EqualFold"] = strFn2("equalfold", func(a, b string) Val { return cBool(strings.EqualFold(a, b)) }, tBool)
	stdModels["strings.TrimPrefix"] = func(c *Call) (Val, bool) { return c.trimFix(true), true }
	stdModels["strings.TrimSuffix"] = func(c *Call) (Val, bool) { return c.trimFix(false), true }
	stdModels["strings.TrimLeft"] = strFn2("trimleft", func(a, b string) Val { return cStr(strings.TrimLeft(a, b)) }, tString)
	stdModels["strings.TrimRight"] = strFn2("trimright", func(a, b string) Val { return cStr(strings.TrimRight(a, b)) }, tString)
	stdModels["strings.Trim"] = strFn2("trim", func(a, b string) Val { return cStr(strings.Trim(a, b)) }, tString)
	stdModels["strings.Compare"] = strFn2("compare", func(a, b string) Val { return cInt(int64(strings.Compare(a, b))) }, tInt)
	stdModels["strings.Index"] = strFn2("index", func(a, b string) Val { return cInt(int64(strings.Index(a, b))) }, tInt)
	stdModels["strings.ReplaceAll"] = func(c *Call) (Val, bool) {
		if s, ok := allConstStr(c.args); ok {
			return cStr(strings.ReplaceAll(s[0], s[1], s[2])), true
		}
		return mkApp("replaceall", tString, c.args...), true
	}
	stdModels["strings.Replace"] = func(c *Call) (Val, bool) {
		if s, ok := allConstStr(c.args[:3]); ok {
			if n, ok := asInt(c.args[3]); ok {
				return cStr(strings.Replace(s[0], s[1], s[2], int(n))), true
			}
		}
		if n, ok := asInt(c.args[3]); ok && n < 0 {
			return mkApp("replaceall", tString, c.args[:3]...), true
		}
		return mkApp("replace", tString, c.args...), true
	}
	stdModels["strings.Repeat"] = pure("repeat", tString)
	stdModels["strings.ContainsRune"] = func(c *Call) (Val, bool) {
		if s, ok := asStr(c.args[0]); ok {
			var set IntSet
			for _, r := range s {
				set = set.union(IntSet{{int64(r), int64(r)}})
			}
			return c.s.inSet(c.args[1], set), true
		}
		return mkApp("containsrune", tBool, c.args...), true
	}
	stdModels["strings.Split"] = func(c *Call) (Val, bool) {
		if s, ok := allConstStr(c.args); ok {
			var ps []Piece
			for _, p := range strings.Split(s[0], s[1]) {
				ps = append(ps, Piece{Elem: cStr(p)})
			}
			return c.s.newArray(tString, ps, c.x.tag(c.s)), true
		}
		return c.splitText(), true
	}
	stdModels["strings.Join"] = func(c *Call) (Val, bool) {
		v := c.x.matSlice(c.s, c.args[0])
		ps := c.s.view(v)
		if sep, ok := asStr(c.args[1]); ok && sep == "" {
			out := []Piece{}
			for _, p := range ps {
				if p.Seg > 0 && p.Proj == "" {
					p.Proj = "="
				}
				out = append(out, p)
			}
			return mkCat(c.s.projPieces(out)), true
		}
		var out []Piece
		for i, p := range ps {
			if p.Seg > 0 {
				return mkApp("join", tString, Cat{ps}, c.args[1]), true
			}
			if i > 0 {
				out = append(out, Piece{Elem: c.args[1]})
			}
			out = append(out, p)
		}
		return mkCat(out), true
	}

	// builders and buffers
	for _, b := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		b := b
		stdModels[b+".WriteString"] = func(c *Call) (Val, bool) {
			c.setText(0, concat(c.text(0), c.args[1]))
			return Tuple{c.s.strLen(c.args[1]), cNil()}, true
		}
		stdModels[b+".Write"] = func(c *Call) (Val, bool) {
			t := c.x.anyBytes(c.s, c.args[1])
			c.setText(0, concat(c.text(0), t))
			return Tuple{c.s.strLen(t), cNil()}, true
		}
		stdModels[b+".WriteRune"] = func(c *Call) (Val, bool) {
			c.setText(0, concat(c.text(0), runeStr(c.args[1])))
			return Tuple{c.runeLen(c.args[1]), cNil()}, true
		}
		stdModels[b+".WriteByte"] = func(c *Call) (Val, bool) {
			if n, ok := asInt(c.args[1]); ok {
				c.setText(0, concat(c.text(0), cStr(string([]byte{byte(n)}))))
			} else {
				c.setText(0, concat(c.text(0), mkApp("bytestr1", tString, c.args[1])))
			}
			return cNil(), true
		}
		stdModels[b+".String"] = func(c *Call) (Val, bool) {
			if b == "(*bytes.Buffer)" && isNil(c.args[0]) {
				return cStr("<nil>"), true
			}
			return c.text(0), true
		}
		stdModels[b+".Len"] = func(c *Call) (Val, bool) { return c.s.strLen(c.text(0)), true }
		stdModels[b+".Grow"] = func(c *Call) (Val, bool) { return Tuple{}, true }
		stdModels[b+".Reset"] = func(c *Call) (Val, bool) { c.setText(0, cStr("")); return Tuple{}, true }
	}
	stdModels["(*bytes.Buffer).Bytes"] = func(c *Call) (Val, bool) {
		return Ext{Name: "bytes", Data: []Val{c.text(0)}, T: c.resultType()}, true
	}
	stdModels["(*bytes.Buffer).Truncate"] = func(c *Call) (Val, bool) {
		c.setText(0, c.x.substr(c.s, c.text(0), cInt(0), c.args[1], c.pos))
		return Tuple{}, true
	}
	stdModels["bytes.NewBufferString"] = func(c *Call) (Val, bool) {
		id := c.s.newObj('c', c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "")
		c.x.tagObj(c.s, id)
		c.s.mut(id).F["#text"] = c.args[0]
		return Ptr{id, ""}, true
	}

	// errors
	stdModels["errors.New"] = func(c *Call) (Val, bool) { return newErr("errors.New"), true }
	stdModels["fmt.Errorf"] = func(c *Call) (Val, bool) {
		if f, ok := asStr(c.args[0]); !ok || strings.Contains(f, "%w") {
			return freshErr("fmt.Errorf"), true // which may be any other one, for errors.Is
		}
		return newErr("fmt.Errorf"), true
	}
	stdModels["errors.Is"] = func(c *Call) (Val, bool) {
		if isNil(c.args[0]) {
			return cBool(isNil(c.args[1])), true
		}
		return c.s.eqVal(c.args[0], c.args[1]), true
	}
	stdModels["iface:error.Error"] = func(c *Call) (Val, bool) { return mkApp("errtext", tString, c.args[0]), true }
	stdModels["iface:newerr.Error"] = stdModels["iface:error.Error"]

	// formatting: the text is unknown but determined by its arguments
	stdModels["fmt.Sprintf"] = func(c *Call) (Val, bool) { return c.sprintf(c.args[0], c.args[1]), true }
	stdModels["fmt.Sprint"] = func(c *Call) (Val, bool) { return c.sprint(c.args[0], ""), true }
	stdModels["fmt.Sprintln"] = func(c *Call) (Val, bool) { return concat(c.sprint(c.args[0], " "), cStr("\n")), true }
	stdModels["strconv.Itoa"] = func(c *Call) (Val, bool) {
		if n, ok := asInt(c.args[0]); ok {
			return cStr(fmt.Sprint(n)), true
		}
		return mkApp("itoa", tString, c.args[0]), true
	}
	stdModels["strconv.FormatInt"] = func(c *Call) (Val, bool) {
		if n, ok := asInt(c.args[1]); ok && n == 10 {
			return mkApp("itoa", tString, c.args[0]), true
		}
		return mkApp("formatint", tString, c.args...), true
	}
	stdModels["strconv.Quote"] = pure("quote", tString)

	// synchronization
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		for _, m := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			m := m
			stdModels[t+"."+m] = func(c *Call) (Val, bool) { c.lock(m); return Tuple{}, true }
		}
	}
	stdModels["(*sync.WaitGroup).Add"] = func(c *Call) (Val, bool) { return Tuple{}, true }
	stdModels["(*sync.WaitGroup).Done"] = func(c *Call) (Val, bool) { return Tuple{}, true }
	stdModels["(*sync.WaitGroup).Wait"] = func(c *Call) (Val, bool) {
		// the goroutines run in any order
		gos, _ := c.s.ghost["goroutines"].(Tuple)
		n := len(gos)
		if n == 0 {
			return Tuple{}, true
		}
		k := 0
		if n > 1 {
			k = c.s.choose(n, "the order of goroutines")
		}
		g := gos[k].(Tuple)
		if n == 1 {
			delete(c.s.ghost, "goroutines")
		} else {
			c.s.ghost["goroutines"] = append(append(Tuple{}, gos[:k]...), gos[k+1:]...)
		}
		c.x.call(c.s, g[0], g[1:], nil, c.pos)
		return nil, false
	}
	stdModels["(*sync.Once).Do"] = func(c *Call) (Val, bool) {
		p, ok := c.args[0].(Ptr)
		if !ok {
			undecided("sync.Once")
		}
		k := p.Path + "#once"
		if v, ok := c.s.obj(p.Obj).F[k]; ok && eq(v, cBool(true)) {
			c.s.syncAdd("once", p)
			return Tuple{}, true
		}
		c.s.mut(p.Obj).F[k] = cBool(true)
		n := len(c.s.frames)
		c.s.syncAdd("once", p)
		c.x.call(c.s, c.args[1], nil, c.instr, c.pos)
		if len(c.s.frames) > n {
			c.s.topMut().once = "once:" + p.key()
		}
		return nil, false
	}

	// ordering
	stdModels["sort.Strings"] = func(c *Call) (Val, bool) { c.sortStrs(); return Tuple{}, true }
	stdModels["slices.Sort"] = func(c *Call) (Val, bool) { c.sortStrs(); return Tuple{}, true }
}

func (c *Call) lock(m string) {
	switch m {
	case "Lock":
		c.s.syncAdd("lock", c.args[0])
	case "RLock":
		c.s.syncAdd("rlock", c.args[0])
	case "Unlock":
		c.s.syncDel("lock", c.args[0])
		c.s.syncAdd("plock", c.args[0])
	case "RUnlock":
		c.s.syncDel("rlock", c.args[0])
		c.s.syncAdd("plock", c.args[0])
	}
}

func init() {
	str1 := func(op string, f func(string) string) {
		simpFns[op] = func(s *State, a *App) Val {
			if c, ok := asStr(a.Args[0]); ok {
				return cStr(f(c))
			}
			return a
		}
	}
	str1("tolower", strings.ToLower)
	str1("toupper", strings.ToUpper)
	str1("title", strings.Title)
	str1("trimspace", strings.TrimSpace)
	for n, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle} {
		f := f
		simpFns["unicode."+n] = func(s *State, a *App) Val {
			if k, ok := asInt(a.Args[0]); ok {
				return cIntT(int64(f(rune(k))), tRune)
			}
			return a
		}
	}
	for _, op := range []string{"punct", "space"} {
		op := op
		simpFns[op+"text"] = func(s *State, a *App) Val { return textPred(op, a.Args[0]) }
	}
	simpFns["itoa"] = func(s *State, a *App) Val {
		if n, ok := asInt(a.Args[0]); ok {
			return cStr(fmt.Sprint(n))
		}
		return a
	}
}

func (c *Call) runeLen(r Val) Val {
	if n, ok := asInt(r); ok {
		return cInt(int64(utf8.RuneLen(rune(n))))
	}
	if c.s.setOf(r).subset(IntSet{{0, 127}}) {
		return cInt(1)
	}
	l := mkApp("runelen", tInt, r)
	c.s.addLin(linAdd(toLin(l), &Lin{K: 1}, -1))
	c.s.addLin(linAdd(&Lin{K: 4}, toLin(l), -1))
	return l
}

func (c *Call) hasFix(prefix bool) Val {
	s, ok1 := asStr(c.args[0])
	f, ok2 := asStr(c.args[1])
	if ok1 && ok2 {
		if prefix {
			return cBool(strings.HasPrefix(s, f))
		}
		return cBool(strings.HasSuffix(s, f))
	}
	if ok2 && f == "" {
		return cBool(true)
	}
	if cat, ok := c.args[0].(Cat); ok && ok2 {
		i := 0
		if !prefix {
			i = len(cat.P) - 1
		}
		p := cat.P[i]
		if h, ok := asStr(p.Elem0()); ok && p.Seg == 0 && len(h) >= len(f) {
			if prefix {
				return cBool(strings.HasPrefix(h, f))
			}
			return cBool(strings.HasSuffix(h, f))
		}
	}
	if ok2 {
		rs := []rune(f)
		if len(rs) == 1 && utf8.ValidString(f) {
			// by its first or last rune
			if b := c.s.decide(c.s.strEq(c.args[0], cStr(""))); b {
				return cBool(false)
			}
			get := c.s.runesOf(c.args[0])
			var at Val = cInt(0)
			if !prefix {
				at = addK(c.s.piecesLen(get()), -1)
			}
			e := c.s.elemAt(get, at)
			return c.s.inSet(e, IntSet{{int64(rs[0]), int64(rs[0])}})
		}
	}
	op := "hasprefix"
	if !prefix {
		op = "hassuffix"
	}
	return mkApp(op, tBool, c.args...)
}

func (c *Call) trimFix(prefix bool) Val {
	s, ok1 := asStr(c.args[0])
	f, ok2 := asStr(c.args[1])
	if ok1 && ok2 {
		if prefix {
			return cStr(strings.TrimPrefix(s, f))
		}
		return cStr(strings.TrimSuffix(s, f))
	}
	if !c.s.decide(c.hasFix(prefix)) {
		return c.args[0]
	}
	n := c.s.strLen(c.args[0])
	l := c.s.strLen(c.args[1])
	if prefix {
		return c.x.substr(c.s, c.args[0], l, n, c.pos)
	}
	return c.x.substr(c.s, c.args[0], cInt(0), sub(n, l), c.pos)
}

// fmtArgs are the values behind a ...interface{} argument.
func (c *Call) fmtArgs(v Val) ([]Val, bool) {
	v = c.x.matSlice(c.s, v)
	if isNil(v) {
		return nil, true
	}
	var out []Val
	for _, p := range c.s.view(v) {
		if p.Seg > 0 {
			return nil, false
		}
		out = append(out, p.Elem)
	}
	return out, true
}

// fmtVal formats a value as %v or %s.
func (c *Call) fmtVal(v Val) Val {
	if i, ok := v.(Iface); ok {
		if b, ok := under(i.T).(*types.Basic); ok {
			if b.Info()&types.IsString != 0 {
				return i.V
			}
			if b.Info()&types.IsInteger != 0 {
				if n, ok := asInt(i.V); ok {
					return cStr(fmt.Sprint(n))
				}
				return mkApp("itoa", tString, i.V)
			}
			return mkApp("fmtv", tString, i.V)
		}
		if isByteSlice(i.T) {
			return mkApp("fmtv", tString, i)
		}
		// Stringers of the repository
		if p, ok := i.V.(Ptr); ok && strings.HasSuffix(typeKey(i.T), "jargon.Token") {
			return c.s.loadCell(p.Obj, p.Path+c.x.valuePath, tString)
		}
		return mkApp("fmtv", tString, i)
	}
	return mkApp("fmtv", tString, v)
}

func (c *Call) sprint(v Val, sep string) Val {
	args, ok := c.fmtArgs(v)
	if !ok {
		return mkApp("sprint", tString, v)
	}
	var r Val = cStr("")
	for i, a := range args {
		if i > 0 {
			if sep != "" {
				r = concat(r, cStr(sep))
			} else if _, isS := under0(args[i-1]); !isS {
				if _, isS := under0(a); !isS {
					r = concat(r, cStr(" "))
				}
			}
		}
		r = concat(r, c.fmtVal(a))
	}
	return r
}
func under0(v Val) (Val, bool) {
	if i, ok := v.(Iface); ok {
		if b, ok := under(i.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return i.V, true
		}
	}
	return nil, false
}

func (c *Call) sprintf(format, v Val) Val {
	f, ok := asStr(format)
	args, ok2 := c.fmtArgs(v)
	if !ok || !ok2 {
		return mkApp("sprintf", tString, format, v)
	}
	var r Val = cStr("")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			r = concat(r, cStr(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			r = concat(r, cStr("%!(NOVERB)"))
			break
		}
		if f[i] == '%' {
			r = concat(r, cStr("%"))
			continue
		}
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		verb := f[i : j+1]
		i = j
		if k >= len(args) {
			r = concat(r, cStr("%!"+verb+"(MISSING)"))
			continue
		}
		a := args[k]
		k++
		switch verb {
		case "s", "v", "d":
			r = concat(r, c.fmtVal(a))
		default:
			r = concat(r, mkApp("fmt%"+verb, tString, a))
		}
	}
	if k < len(args) {
		r = concat(r, mkApp("fmtextra", tString, args[k:]...))
	}
	return r
}

// sortStrs sorts a slice of strings in place.
func (c *Call) sortStrs() {
	v := c.x.matSlice(c.s, c.args[0])
	if isNil(v) {
		return
	}
	sl, ok := v.(Slice)
	if !ok {
		undecided("sorting of %T", v)
	}
	ps := c.s.view(sl)
	if len(ps) < 2 && (len(ps) == 0 || ps[0].Seg == 0) {
		return
	}
	var strs []string
	for _, p := range ps {
		k, ok := asStr(p.Elem0())
		if p.Seg > 0 || !ok {
			undecided("sorting of unknown texts")
		}
		strs = append(strs, k)
	}
	sort.Strings(strs)
	for i, k := range strs {
		c.s.storeElem(sl.Arr, addK(sl.Lo, int64(i)), cStr(k))
	}
}

// splitText is strings.Split of a text that is not constant.
func (c *Call) splitText() Val {
	sep, ok := asStr(c.args[1])
	if !ok || sep == "" {
		undecided("strings.Split by unknown text")
	}
	if len(sep) == 1 {
		var ps []Piece
		if cat, ok := c.args[0].(Cat); ok {
			ps = cat.P
		} else {
			ps = []Piece{{Elem: c.args[0]}}
		}
		parts := []Val{cStr("")}
		whole := true
		for _, p := range ps {
			if p.Seg > 0 || p.Proj != "" {
				whole = false
				break
			}
			if k, ok := asStr(p.Elem); ok {
				for i, q := range strings.Split(k, sep) {
					if i > 0 {
						parts = append(parts, cStr(""))
					}
					parts[len(parts)-1] = concat(parts[len(parts)-1], cStr(q))
				}
				continue
			}
			if b, known := c.s.evalBool(mkApp("contains", tBool, p.Elem, cStr(sep))); !known || b {
				whole = false
				break
			}
			parts[len(parts)-1] = concat(parts[len(parts)-1], p.Elem)
		}
		if whole {
			var out []Piece
			for _, q := range parts {
				out = append(out, Piece{Elem: q})
			}
			return c.s.newArray(tString, out, c.x.tag(c.s))
		}
	}
	// at least one part
	seg := c.s.anySeg(kindName(tString))
	c.s.addLin(linAdd(toLin(c.s.segs[seg].Len), &Lin{K: 1}, -1))
	return c.s.newArray(tString, []Piece{{Seg: seg}}, c.x.tag(c.s))
}
