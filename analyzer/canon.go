package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- garbage collection and normalization of states at join points

// prune forgets values that are not live. The top frame is at the beginning of a block
// (after its phis); the others are after their call.
func (s *State) prune() {
	for i, f := range s.frames {
		live := f.fn.liveBefore(f.block, f.idx)
		need := false
		for k, v := range f.env {
			if v != nil && !live[k] {
				need = true
				break
			}
		}
		if need {
			g := s.frameMut(i)
			for k := range g.env {
				if !live[k] {
					g.env[k] = nil
				}
			}
		}
	}
}

// reach computes the reachable objects, segments, and symbols.
type reachInfo struct {
	objs map[int]bool
	segs map[int]bool
	syms map[int]bool
}

func (s *State) reach() *reachInfo {
	r := &reachInfo{map[int]bool{}, map[int]bool{}, map[int]bool{}}
	var queue []int
	addObj := func(id int) {
		if r.objs[id] {
			return
		}
		if s.isBase(id) {
			return
		}
		r.objs[id] = true
		queue = append(queue, id)
	}
	var visit func(v Val)
	var segv func(id int)
	segv = func(id int) {
		if r.segs[id] {
			return
		}
		r.segs[id] = true
		g := s.segs[id]
		if g == nil {
			return
		}
		visit(g.Len)
		for _, a := range g.Attr {
			visit(a)
		}
	}
	visit = func(v Val) {
		walkVal(v, func(v Val) {
			switch v := v.(type) {
			case *Sym:
				r.syms[v.ID] = true
			case Ptr:
				addObj(v.Obj)
			case ElemPtr:
				addObj(v.Arr)
			case Slice:
				addObj(v.Arr)
			case MapV:
				addObj(v.Obj)
			case Cat:
				for _, p := range v.P {
					if p.Seg > 0 {
						segv(p.Seg)
					}
				}
			}
		})
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			visit(v)
		}
		for _, v := range f.free {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
		visit(f.result)
	}
	for k, v := range s.ghost {
		if !strings.HasPrefix(k, "pend:") {
			visit(v)
		}
	}
	for id := range s.heap {
		if s.base[id] != nil {
			addObj(id)
		}
	}
	for {
		for len(queue) > 0 {
			o := s.obj(queue[len(queue)-1])
			queue = queue[:len(queue)-1]
			for _, v := range o.F {
				visit(v)
			}
			for _, p := range o.P {
				if p.Seg > 0 {
					segv(p.Seg)
				} else {
					visit(p.Elem)
				}
			}
			for _, e := range o.M {
				visit(e.K)
				visit(e.V)
			}
		}
		// rune sequences of reachable strings
		n := len(r.segs) + len(r.syms)
		for _, q := range s.runes {
			ok := true
			walkVal(q.S, func(v Val) {
				if y, isSym := v.(*Sym); isSym && !r.syms[y.ID] {
					ok = false
				}
			})
			if !ok {
				continue
			}
			for _, p := range q.P {
				if p.Seg > 0 {
					segv(p.Seg)
				} else {
					visit(p.Elem)
				}
			}
		}
		if len(queue) == 0 && len(r.segs)+len(r.syms) == n {
			return r
		}
	}
}

// gc drops everything that is unreachable, keeping what facts imply about the rest.
func (s *State) gc() {
	r := s.reach()
	if len(s.sync) > 0 {
		var sync []held
		for _, h := range s.sync {
			if r.objs[h.p.Obj] || s.base[h.p.Obj] != nil {
				sync = append(sync, h)
			}
		}
		s.sync = sync
	}
	for id := range s.heap {
		if !r.objs[id] && s.base[id] == nil {
			delete(s.heap, id)
		}
	}
	for k := range s.ghost {
		if strings.HasPrefix(k, "pend:") {
			// pending elements must be reachable
			delete(s.ghost, k)
		}
	}
	for id := range s.segs {
		if !r.segs[id] {
			delete(s.segs, id)
		}
	}
	symsOK := func(v Val) bool {
		ok := true
		walkVal(v, func(v Val) {
			switch v := v.(type) {
			case *Sym:
				if !r.syms[v.ID] {
					ok = false
				}
			case Ptr:
				if !r.objs[v.Obj] && s.base[v.Obj] == nil {
					ok = false
				}
			case Cat:
				for _, p := range v.P {
					if p.Seg > 0 && s.segs[p.Seg] == nil {
						ok = false
					}
				}
			}
		})
		return ok
	}
	for k, q := range s.runes {
		if !symsOK(q.S) {
			delete(s.runes, k)
		}
	}
	for k, f := range s.atoms {
		if !symsOK(f.v) {
			delete(s.atoms, k)
		}
	}
	for k, f := range s.sets {
		if !symsOK(f.v) {
			delete(s.sets, k)
		}
	}
	s.projectLins(symsOK)
}

// projectLins eliminates atoms that are no longer of interest from the linear facts.
func (s *State) projectLins(keep func(Val) bool) {
	for {
		var dead Val
		for _, l := range s.lins {
			for _, t := range l.T {
				if !keep(t.V) {
					dead = t.V
					break
				}
			}
			if dead != nil {
				break
			}
		}
		if dead == nil {
			return
		}
		k := dead.key()
		var pos, neg, rest []*Lin
		for _, l := range s.lins {
			c := int64(0)
			for _, t := range l.T {
				if t.V.key() == k {
					c = t.C
				}
			}
			switch {
			case c > 0:
				pos = append(pos, l)
			case c < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		s.lins = rest
		if len(pos)*len(neg) <= 64 {
			for _, p := range pos {
				for _, n := range neg {
					cp, cn := coef(p, k), -coef(n, k)
					m := linAdd(scale(p, cn), n, cp)
					if len(m.T) == 0 {
						continue
					}
					if !entailsGe0(s.lins, m) {
						s.addLin(m)
					}
				}
			}
		}
	}
}
func coef(l *Lin, k string) int64 {
	for _, t := range l.T {
		if t.V.key() == k {
			return t.C
		}
	}
	return 0
}
func scale(l *Lin, f int64) *Lin {
	r := &Lin{K: l.K * f}
	for _, t := range l.T {
		r.T = append(r.T, LT{t.V, t.C * f})
	}
	return r
}

// trim cuts arrays to the part that can still be seen.
func (s *State) trim() {
	type win struct{ lo, hi Val }
	wins := map[int][]win{}
	s.eachVal(func(v Val) {
		switch v := v.(type) {
		case Slice:
			wins[v.Arr] = append(wins[v.Arr], win{v.Lo, v.Hi})
		case ElemPtr:
			wins[v.Arr] = append(wins[v.Arr], win{v.Idx, addK(v.Idx, 1)})
		case Ptr:
			if o := s.obj(v.Obj); o.Kind == 'a' {
				wins[v.Obj] = append(wins[v.Obj], win{cInt(0), s.piecesLen(o.P)})
			}
		}
	})
	ids := make([]int, 0, len(wins))
	for id := range wins {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if s.isBase(id) || s.base[id] != nil {
			continue
		}
		o := s.obj(id)
		ws := wins[id]
		lo, hi := ws[0].lo, ws[0].hi
		ok := true
		for _, w := range ws[1:] {
			if s.provesGe0(linAdd(toLin(lo), toLin(w.lo), -1)) {
				lo = w.lo
			} else if !s.provesGe0(linAdd(toLin(w.lo), toLin(lo), -1)) {
				ok = false
			}
			if s.provesGe0(linAdd(toLin(w.hi), toLin(hi), -1)) {
				hi = w.hi
			} else if !s.provesGe0(linAdd(toLin(hi), toLin(w.hi), -1)) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		// find boundaries
		bl, bh := -1, -1
		var c Val = cInt(0)
		for i := 0; i <= len(o.P); i++ {
			if bl < 0 && s.provesEq(c, lo) {
				bl = i
			}
			if s.provesEq(c, hi) {
				bh = i
			}
			if i < len(o.P) {
				c = add(c, s.pieceLen(o.P[i]))
			}
		}
		if bl < 0 {
			bl = 0
			lo = cInt(0)
		}
		if bh < 0 {
			bh = len(o.P)
		}
		if bh < bl {
			bh = bl
		}
		if bl == 0 && bh == len(o.P) {
			continue
		}
		m := s.mut(id)
		if bh < len(o.P) {
			m.Exact = false
		}
		m.P = append([]Piece(nil), o.P[bl:bh]...)
		if bl > 0 {
			s.shiftArray(id, lo)
		}
	}
}

// shiftArray renumbers the positions of an array by -d.
func (s *State) shiftArray(id int, d Val) {
	f := func(v Val) Val { return shiftVal(v, id, d) }
	s.mapVals(f)
}

func shiftVal(v Val, id int, d Val) Val {
	switch x := v.(type) {
	case Slice:
		if x.Arr == id {
			return Slice{id, sub(x.Lo, d), sub(x.Hi, d), x.Full}
		}
	case ElemPtr:
		if x.Arr == id {
			return ElemPtr{id, sub(x.Idx, d), x.Sub}
		}
	case Fn:
		b := make([]Val, len(x.Bind))
		for i, a := range x.Bind {
			b[i] = shiftVal(a, id, d)
		}
		return Fn{x.F, b}
	case Ext:
		b := make([]Val, len(x.Data))
		for i, a := range x.Data {
			b[i] = shiftVal(a, id, d)
		}
		return Ext{x.Name, b, x.T}
	case Iface:
		return Iface{x.T, shiftVal(x.V, id, d)}
	case Tuple:
		b := make(Tuple, len(x))
		for i, a := range x {
			b[i] = shiftVal(a, id, d)
		}
		return b
	case Struct:
		b := make([]Val, len(x.F))
		for i, a := range x.F {
			b[i] = shiftVal(a, id, d)
		}
		return Struct{x.T, b}
	}
	return v
}

// mapVals applies f to all (top-level) values of the state.
func (s *State) mapVals(f func(Val) Val) {
	for i, fr := range s.frames {
		ch := false
		for _, v := range fr.env {
			if v != nil && f(v).key() != v.key() {
				ch = true
			}
		}
		for _, v := range fr.free {
			if f(v).key() != v.key() {
				ch = true
			}
		}
		if len(fr.defers) > 0 || fr.result != nil {
			ch = true
		}
		if !ch {
			continue
		}
		g := s.frameMut(i)
		for k, v := range g.env {
			if v != nil {
				g.env[k] = f(v)
			}
		}
		fv := make([]Val, len(g.free))
		for k, v := range g.free {
			fv[k] = f(v)
		}
		g.free = fv
		for k, d := range g.defers {
			args := make([]Val, len(d.args))
			for j, a := range d.args {
				args[j] = f(a)
			}
			g.defers[k] = deferred{f(d.fn), args, d.pos}
		}
		if g.result != nil {
			g.result = f(g.result)
		}
	}
	for id, o := range s.heap {
		ch := false
		for _, v := range o.F {
			if f(v).key() != v.key() {
				ch = true
			}
		}
		for _, p := range o.P {
			if p.Seg == 0 && f(p.Elem).key() != p.Elem.key() {
				ch = true
			}
		}
		for _, e := range o.M {
			if f(e.V).key() != e.V.key() || f(e.K).key() != e.K.key() {
				ch = true
			}
		}
		if !ch {
			continue
		}
		m := s.mut(id)
		for k, v := range m.F {
			m.F[k] = f(v)
		}
		for k, p := range m.P {
			if p.Seg == 0 {
				m.P[k].Elem = f(p.Elem)
			}
		}
		for k, e := range m.M {
			m.M[k] = Entry{f(e.K), f(e.V), e.Del}
		}
	}
	for k, v := range s.ghost {
		s.ghost[k] = f(v)
	}
}

// ---- canonical form

// canon traverses a state in a canonical order. It writes the skeleton of the state (everything
// but wide integers), collecting the integers; on a second pass it can replace them.
type canon struct {
	s     *State
	b     strings.Builder
	objN  map[int]int
	symN  map[int]int
	segN  map[int]int
	queue []int
	segQ  []int
	slots []Val
	repl  []Val // if not nil, the replacements
	k     int
}

func (c *canon) slot(v Val) Val {
	c.b.WriteByte('#')
	if c.repl != nil {
		c.k++
		return c.repl[c.k-1]
	}
	c.slots = append(c.slots, v)
	return v
}

func (c *canon) obj(id int) {
	if c.s.isBase(id) {
		fmt.Fprintf(&c.b, "B%d", id)
		return
	}
	n, ok := c.objN[id]
	if !ok {
		n = len(c.objN)
		c.objN[id] = n
		c.queue = append(c.queue, id)
	}
	fmt.Fprintf(&c.b, "o%d", n)
}

func (c *canon) seg(id int) {
	n, ok := c.segN[id]
	if !ok {
		n = len(c.segN)
		c.segN[id] = n
		c.segQ = append(c.segQ, id)
	}
	fmt.Fprintf(&c.b, "S%d", n)
}

func (c *canon) vals(vs []Val) []Val {
	if vs == nil {
		return nil
	}
	r := make([]Val, len(vs))
	for i, v := range vs {
		if i > 0 {
			c.b.WriteByte(',')
		}
		r[i] = c.val(v)
	}
	return r
}

func (c *canon) pieces(ps []Piece) []Piece {
	r := make([]Piece, len(ps))
	for i, p := range ps {
		c.b.WriteByte(' ')
		r[i] = p
		if p.Seg > 0 {
			c.seg(p.Seg)
		} else {
			r[i].Elem = c.val(p.Elem)
		}
		c.b.WriteString(p.Proj)
	}
	return r
}

func (c *canon) val(v Val) Val {
	if v == nil {
		c.b.WriteByte('_')
		return nil
	}
	if isCounter(v) {
		return c.slot(v)
	}
	switch v := v.(type) {
	case Const:
		c.b.WriteString(v.key())
	case *Sym:
		n, ok := c.symN[v.ID]
		if !ok {
			n = len(c.symN)
			c.symN[v.ID] = n
		}
		fmt.Fprintf(&c.b, "s%d", n)
	case *App:
		c.b.WriteString(v.Op)
		c.b.WriteByte('(')
		args := c.vals(v.Args)
		c.b.WriteByte(')')
		if c.repl != nil {
			return mkApp(v.Op, v.T, args...)
		}
	case Ptr:
		c.b.WriteByte('&')
		c.obj(v.Obj)
		c.b.WriteString(v.Path)
	case ElemPtr:
		c.b.WriteString("&e")
		c.obj(v.Arr)
		c.b.WriteByte('[')
		i := c.val(v.Idx)
		c.b.WriteString("]" + v.Sub)
		return ElemPtr{v.Arr, i, v.Sub}
	case Slice:
		c.b.WriteString("sl")
		c.obj(v.Arr)
		c.b.WriteByte('[')
		lo := c.slot(v.Lo)
		c.b.WriteByte(':')
		hi := c.slot(v.Hi)
		c.b.WriteByte(']')
		if v.Full {
			c.b.WriteByte('!')
		}
		return Slice{v.Arr, lo, hi, v.Full}
	case Fn:
		c.b.WriteString("f:" + v.F.String() + "(")
		b := c.vals(v.Bind)
		c.b.WriteByte(')')
		return Fn{v.F, b}
	case Ext:
		c.b.WriteString("x:" + v.Name + "(")
		d := c.vals(v.Data)
		c.b.WriteByte(')')
		return Ext{v.Name, d, v.T}
	case Iface:
		c.b.WriteString("I<" + typeKey(v.T) + ">")
		return Iface{v.T, c.val(v.V)}
	case Tuple:
		c.b.WriteByte('(')
		t := Tuple(c.vals(v))
		c.b.WriteByte(')')
		return t
	case Struct:
		c.b.WriteByte('{')
		f := c.vals(v.F)
		c.b.WriteByte('}')
		return Struct{v.T, f}
	case MapV:
		c.b.WriteByte('m')
		c.obj(v.Obj)
	case Cat:
		c.b.WriteString("cat[")
		p := c.pieces(v.P)
		c.b.WriteByte(']')
		return Cat{p}
	default:
		panic(fmt.Sprintf("canon %T", v))
	}
	return v
}

// run traverses the state. With repl set, the integers are replaced in the state.
func (c *canon) run(s *State, repl []Val) string {
	c.s, c.repl = s, repl
	c.objN, c.symN, c.segN = map[int]int{}, map[int]int{}, map[int]int{}
	for i := range s.frames {
		f := s.frames[i]
		if repl != nil {
			f = s.frameMut(i)
		}
		fmt.Fprintf(&c.b, "F%s@%d.%d:", f.fn.f.String(), f.block.Index, f.idx)
		for k, v := range f.env {
			if v == nil {
				continue
			}
			fmt.Fprintf(&c.b, "%d=", k)
			nv := c.val(v)
			if repl != nil {
				f.env[k] = nv
			}
			c.b.WriteByte(';')
		}
		fv := c.vals(f.free)
		if repl != nil {
			f.free = fv
		}
		for k, d := range f.defers {
			c.b.WriteString("D")
			fn := c.val(d.fn)
			args := c.vals(d.args)
			if repl != nil {
				f.defers[k] = deferred{fn, args, d.pos}
			}
		}
		if f.once != "" {
			c.b.WriteString("once")
		}
		if f.result != nil {
			nv := c.val(f.result)
			if repl != nil {
				f.result = nv
			}
		}
		c.b.WriteByte('\n')
	}
	for _, h := range s.sync {
		c.b.WriteString(h.kind)
		c.val(h.p)
		c.b.WriteByte('\n')
	}
	for _, k := range sortedKeys(s.ghost) {
		if strings.HasPrefix(k, "pend:") {
			continue
		}
		c.b.WriteString(k + "=")
		nv := c.val(s.ghost[k])
		if repl != nil {
			s.ghost[k] = nv
		}
		c.b.WriteByte('\n')
	}
	var bm []int
	for id := range s.heap {
		if s.base[id] != nil {
			bm = append(bm, id)
		}
	}
	sort.Ints(bm)
	for _, id := range bm {
		c.objN[id] = len(c.objN)
		c.queue = append(c.queue, id)
		fmt.Fprintf(&c.b, "base%d ", id)
	}
	runesDone := map[string]bool{}
	for len(c.queue) > 0 || len(c.segQ) > 0 {
		if len(c.queue) > 0 {
			id := c.queue[0]
			c.queue = c.queue[1:]
			o := s.obj(id)
			if repl != nil {
				o = s.mut(id)
			}
			fmt.Fprintf(&c.b, "\no%d %c", c.objN[id], o.Kind)
			if o.Lazy {
				c.b.WriteByte('L')
			}
			if o.Any {
				c.b.WriteByte('A')
			}
			if o.Exact {
				c.b.WriteByte('E')
			}
			if s.share > 0 && s.isShared(id) {
				c.b.WriteByte('G')
			}
			c.b.WriteString(typeKey(o.T))
			for _, k := range sortedKeys(o.F) {
				c.b.WriteString(" " + k + "=")
				nv := c.val(o.F[k])
				if repl != nil {
					o.F[k] = nv
				}
			}
			if o.Kind == 'a' || len(o.P) > 0 {
				c.b.WriteString(" [")
				np := c.pieces(o.P)
				if repl != nil {
					o.P = np
				}
				c.b.WriteByte(']')
			}
			for k, e := range o.M {
				c.b.WriteString(" ")
				kk := c.val(e.K)
				c.b.WriteString("=>")
				vv := c.val(e.V)
				if repl != nil {
					o.M[k] = Entry{kk, vv, e.Del}
				}
			}
			continue
		}
		id := c.segQ[0]
		c.segQ = c.segQ[1:]
		g := s.segs[id]
		fmt.Fprintf(&c.b, "\nS%d %s ", c.segN[id], g.Kind)
		l := c.slot(g.Len)
		at := make([]Val, len(g.Attr))
		for j, a := range g.Attr {
			at[j] = c.slot(a)
		}
		if repl != nil {
			s.segs[id] = &Seg{l, at, g.Kind}
		}
	}
	// rune sequences (of strings that were numbered)
	for {
		type ent struct{ k, ck string }
		var es []ent
		for k, q := range s.runes {
			if runesDone[k] {
				continue
			}
			if ck, ok := c.try(q.S); ok {
				es = append(es, ent{k, ck})
			}
		}
		if len(es) == 0 {
			break
		}
		sort.Slice(es, func(i, j int) bool { return es[i].ck < es[j].ck })
		for _, e := range es {
			runesDone[e.k] = true
			q := s.runes[e.k]
			c.b.WriteString("\nrunes " + e.ck + "=[")
			np := c.pieces(q.P)
			c.b.WriteByte(']')
			// facts about the whole text survive joins
			if len(q.P) > 1 {
				for _, v := range s.totals(q.P) {
					c.slot(v)
				}
			}
			if repl != nil {
				s.runes[e.k] = RuneSeq{q.S, np}
			}
		}
		for len(c.segQ) > 0 {
			id := c.segQ[0]
			c.segQ = c.segQ[1:]
			g := s.segs[id]
			fmt.Fprintf(&c.b, "\nS%d %s ", c.segN[id], g.Kind)
			l := c.slot(g.Len)
			at := make([]Val, len(g.Attr))
			for j, a := range g.Attr {
				at[j] = c.slot(a)
			}
			if repl != nil {
				s.segs[id] = &Seg{l, at, g.Kind}
			}
		}
	}
	var fs []string
	for k, f := range s.atoms {
		if ck, ok := c.try(f.v); ok {
			fs = append(fs, ck+"="+strconv.FormatBool(f.b))
		} else {
			delete(s.atoms, k)
		}
	}
	for k, f := range s.sets {
		if ck, ok := c.try(f.v); ok {
			fs = append(fs, ck+"∈"+f.s.key())
		} else {
			delete(s.sets, k)
		}
	}
	sort.Strings(fs)
	c.b.WriteByte('\n')
	for _, f := range fs {
		c.b.WriteString(f)
		c.b.WriteByte('\n')
	}
	return c.b.String()
}

// try renders a value using only what has been numbered, without integers.
func (c *canon) try(v Val) (string, bool) {
	ok := true
	d := &canon{s: c.s, objN: c.objN, symN: c.symN, segN: c.segN}
	walkVal(v, func(v Val) {
		switch v := v.(type) {
		case *Sym:
			if _, f := c.symN[v.ID]; !f {
				ok = false
			}
		case *Lin:
			ok = false
		case Ptr:
			if _, f := c.objN[v.Obj]; !f && !c.s.isBase(v.Obj) {
				ok = false
			}
		case Slice, ElemPtr:
			ok = false
		case Cat:
			for _, p := range v.P {
				if p.Seg > 0 {
					if _, f := c.segN[p.Seg]; !f {
						ok = false
					}
				}
			}
		}
	})
	if !ok {
		return "", false
	}
	d.val(v)
	// integers inside a fact are printed as they are
	for _, sl := range d.slots {
		if _, isC := asInt(sl); !isC {
			return "", false
		}
		d.b.WriteString("," + sl.key())
	}
	return d.b.String(), true
}

// ---- abstract states of integers, per skeleton

type gen struct {
	aff  *affine
	ineq []*Lin // over slot variables
}

type visit struct {
	exact []*gen
	wide  *gen
	wn    int
}

var slotVars []*Sym

func slotVar(i int) *Sym {
	for len(slotVars) <= i {
		slotVars = append(slotVars, &Sym{ID: newID(), Tag: "slot", T: tInt})
	}
	return slotVars[i]
}

func substSlots(l *Lin, slots []Val) *Lin {
	r := &Lin{K: l.K}
	for _, t := range l.T {
		i := slotIndex(t.V)
		r = linAdd(r, toLin(slots[i]), t.C)
	}
	return r
}

var slotIdx = map[int]int{}

func slotIndex(v Val) int {
	id := v.(*Sym).ID
	if i, ok := slotIdx[id]; ok {
		return i
	}
	for i, y := range slotVars {
		slotIdx[y.ID] = i
	}
	return slotIdx[id]
}

// within tells whether the integers (slots, under lins) are included in g.
func (g *gen) within(slots []Val, lins []*Lin) bool {
	a := affineOf(slots)
	c := g.aff.clone()
	if c.join(a) {
		return false
	}
	for _, l := range g.ineq {
		if !entailsGe0(lins, substSlots(l, slots)) {
			return false
		}
	}
	return true
}

// toSlots expresses a fact about atoms by slots, if possible.
func toSlots(l *Lin, slots []Val) (*Lin, bool) {
	// Solve sum c_j * slots_j = l (as linear forms over atoms). Gaussian elimination over rationals.
	atoms := map[string]int{}
	addA := func(x *Lin) {
		for _, t := range x.T {
			k := t.V.key()
			if _, ok := atoms[k]; !ok {
				atoms[k] = len(atoms)
			}
		}
	}
	lins := make([]*Lin, len(slots))
	for i, v := range slots {
		lins[i] = toLin(v)
		addA(lins[i])
	}
	addA(l)
	n, m := len(atoms), len(slots)
	// rows: atoms; columns: slots | rhs
	M := make([][]*big.Rat, n)
	for i := range M {
		M[i] = ratVec(m + 1)
	}
	for j, x := range lins {
		for _, t := range x.T {
			M[atoms[t.V.key()]][j].SetInt64(t.C)
		}
	}
	for _, t := range l.T {
		M[atoms[t.V.key()]][m].SetInt64(t.C)
	}
	row := 0
	piv := make([]int, 0, n)
	tmp := new(big.Rat)
	for col := 0; col < m && row < n; col++ {
		p := -1
		for i := row; i < n; i++ {
			if M[i][col].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		M[row], M[p] = M[p], M[row]
		inv := new(big.Rat).Inv(M[row][col])
		for j := range M[row] {
			M[row][j].Mul(M[row][j], inv)
		}
		for i := range M {
			if i != row && M[i][col].Sign() != 0 {
				f := new(big.Rat).Set(M[i][col])
				for j := range M[i] {
					tmp.Mul(f, M[row][j])
					M[i][j].Sub(M[i][j], tmp)
				}
			}
		}
		piv = append(piv, col)
		row++
	}
	for i := row; i < n; i++ {
		if M[i][m].Sign() != 0 {
			return nil, false
		}
	}
	// scale to integers
	den := big.NewInt(1)
	for i := range piv {
		d := M[i][m].Denom()
		g := new(big.Int).GCD(nil, nil, den, d)
		den.Mul(den, new(big.Int).Div(d, g))
	}
	if !den.IsInt64() {
		return nil, false
	}
	D := den.Int64()
	r := &Lin{K: l.K * D}
	for i, col := range piv {
		q := new(big.Rat).Mul(M[i][m], new(big.Rat).SetInt(den))
		c := q.Num().Int64()
		if c != 0 {
			r = linAdd(r, &Lin{T: []LT{{slotVar(col), 1}}}, c)
			r.K -= c * lins[col].K
		}
	}
	return r, true
}

// exactGen represents the integers of a state exactly, forgetting facts that are not about slots.
func exactGen(s *State, slots []Val) *gen {
	g := &gen{aff: affineOf(slots)}
	var keep []*Lin
	for _, l := range s.lins {
		if y, ok := toSlots(l, slots); ok {
			g.ineq = append(g.ineq, y)
			keep = append(keep, l)
		}
	}
	s.lins = keep
	return g
}

// constraints gives the facts of g over slot variables.
func (g *gen) constraints() []*Lin {
	cs := append([]*Lin(nil), g.ineq...)
	free, konst, co := g.aff.solve()
	isFree := map[int]bool{}
	for _, f := range free {
		isFree[f] = true
	}
	for i := range konst {
		if isFree[i] {
			continue
		}
		l, ok := affRow(i, free, konst[i], co[i])
		if ok {
			cs = append(cs, l, neg(l))
		}
	}
	return cs
}

func affRow(i int, free []int, k *big.Rat, co []*big.Rat) (*Lin, bool) {
	den := big.NewInt(1)
	lcm := func(d *big.Int) {
		g := new(big.Int).GCD(nil, nil, den, d)
		den.Mul(den, new(big.Int).Div(d, g))
	}
	lcm(k.Denom())
	for _, c := range co {
		lcm(c.Denom())
	}
	mul := func(r *big.Rat) (int64, bool) {
		q := new(big.Rat).Mul(r, new(big.Rat).SetInt(den))
		if !q.IsInt() || !q.Num().IsInt64() {
			return 0, false
		}
		return q.Num().Int64(), true
	}
	kk, ok := mul(k)
	if !ok || !den.IsInt64() {
		return nil, false
	}
	l := &Lin{K: kk}
	for j, f := range free {
		c, ok := mul(co[j])
		if !ok {
			return nil, false
		}
		if c != 0 {
			l = linAdd(l, &Lin{T: []LT{{slotVar(f), 1}}}, c)
		}
	}
	return linAdd(l, &Lin{T: []LT{{slotVar(i), 1}}}, -den.Int64()), true
}

// joinGen computes an upper bound of a and b. With widen, only facts of a are kept.
func joinGen(a, b *gen, m int, widen bool, thresh []int64) *gen {
	ca, cb := a.constraints(), b.constraints()
	r := &gen{aff: a.aff.clone()}
	r.aff.join(b.aff)
	seen := map[string]bool{}
	addc := func(l *Lin) {
		if len(l.T) == 0 || seen[l.key()] {
			return
		}
		seen[l.key()] = true
		r.ineq = append(r.ineq, l)
	}
	cr := r.constraints() // the equalities
	for _, l := range ca {
		if entailsGe0(cb, l) && !entailsGe0(cr, l) {
			addc(l)
		}
	}
	if widen {
		// bounds by constants that the program compares with are tried
		for i := 0; i < m; i++ {
			v := &Lin{T: []LT{{slotVar(i), 1}}}
			for _, k := range thresh {
				for _, l := range []*Lin{linAdd(&Lin{K: k}, v, -1), linAdd(v, &Lin{K: k}, -1)} {
					if !seen[l.key()] && entailsGe0(ca, l) && entailsGe0(cb, l) {
						addc(l)
					}
				}
			}
		}
		return r
	}
	for _, l := range b.ineq {
		if entailsGe0(ca, l) {
			addc(l)
		}
	}
	// templates: bounds and differences of the free slots
	bound := func(l *Lin) {
		x, ok := lowerBound(ca, l)
		if !ok {
			return
		}
		y, ok := lowerBound(cb, l)
		if !ok {
			return
		}
		k := min(x, y)
		n := linAdd(l, &Lin{K: -k}, 1)
		cur := append(append([]*Lin(nil), r.ineq...), (&gen{aff: r.aff}).constraints()...)
		if !entailsGe0(cur, n) {
			addc(n)
		}
	}
	for i := 0; i < m; i++ {
		v := &Lin{T: []LT{{slotVar(i), 1}}}
		bound(v)
		bound(neg(v))
	}
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			if i != j {
				bound(linAdd(&Lin{T: []LT{{slotVar(i), 1}}}, &Lin{T: []LT{{slotVar(j), 1}}}, -1))
			}
		}
	}
	return r
}

// instantiate makes the integers of s any that satisfy g.
func (g *gen) instantiate(s *State) {
	m := len(g.aff.p)
	free, konst, co := g.aff.solve()
	vals := make([]Val, m)
	for _, f := range free {
		vals[f] = freshSym("n", tInt)
	}
	var extra []*Lin
	for i := 0; i < m; i++ {
		if vals[i] != nil {
			continue
		}
		intg := konst[i].IsInt()
		for _, c := range co[i] {
			if !c.IsInt() {
				intg = false
			}
		}
		if intg {
			l := &Lin{K: konst[i].Num().Int64()}
			for j, f := range free {
				c := co[i][j].Num().Int64()
				if c != 0 {
					l = linAdd(l, &Lin{T: []LT{{vals[f], 1}}}, c)
				}
			}
			vals[i] = fromLin(l)
			continue
		}
		vals[i] = freshSym("n", tInt)
		if l, ok := affRow(i, free, konst[i], co[i]); ok {
			extra = append(extra, l, neg(l))
		}
	}
	var c canon
	c.run(s, vals)
	s.lins = nil
	for _, l := range append(append([]*Lin(nil), g.ineq...), extra...) {
		s.addLin(substSlots(l, vals))
	}
	for _, id := range sortedInts(s.segs) {
		s.addSegFacts(id)
	}
	s.sliceFacts()
}

// sliceFacts states that slices are within their arrays.
func (s *State) sliceFacts() {
	fact := func(l *Lin) {
		if len(l.T) > 0 && !entailsGe0(s.lins, l) {
			s.addLin(l)
		}
	}
	seen := map[string]bool{}
	s.eachVal(func(v Val) {
		sl, ok := v.(Slice)
		if !ok || seen[sl.key()] || s.isBase(sl.Arr) {
			return
		}
		seen[sl.key()] = true
		fact(toLin(sl.Lo))
		fact(linAdd(toLin(sl.Hi), toLin(sl.Lo), -1))
		fact(linAdd(toLin(s.piecesLen(s.obj(sl.Arr).P)), toLin(sl.Hi), -1))
	})
}

func sortedInts[V any](m map[int]V) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// totals sums the attributes of a rune sequence.
func (s *State) totals(ps []Piece) []Val {
	k := kinds["rune"]
	if k == nil {
		return nil
	}
	r := make([]Val, k.N+1)
	for j := range r {
		r[j] = cInt(0)
	}
	r[k.N] = s.piecesLen(ps)
	for _, p := range ps {
		if p.Seg == 0 {
			if c, ok := p.Elem.(Const); ok {
				for j, v := range k.Attr(s, c) {
					r[j] = add(r[j], v)
				}
			}
			continue
		}
		for j, v := range s.segs[p.Seg].Attr {
			r[j] = add(r[j], v)
		}
	}
	return r
}
