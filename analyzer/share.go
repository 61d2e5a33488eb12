package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Effects on shared state: what exists when streams are made (package variables, filters) may be used by
// other streams at the same time. It must not be written afterwards, unless under a sync.Once or a mutex that
// all other uses are ordered by as well; and tokens are not written at all.

type cell struct {
	obj  int
	path string
}

// overlaps tells whether one cell is, or is a part of, the other one.
func (c cell) overlaps(d cell) bool {
	return c.obj == d.obj && (strings.HasPrefix(c.path, d.path) || strings.HasPrefix(d.path, c.path))
}

type sharing struct {
	reads  map[cell]map[string]token.Pos // by what is held
	writes map[cell]map[string]token.Pos // by the guard
}

func (s *State) isShared(id int) bool {
	if s.share == 0 {
		return false
	}
	return id <= s.share || s.obj(id).Shared
}

// held is a lock that is held ("lock", "rlock"), or was held ("plock"), or a sync.Once that is done ("once").
type held struct {
	kind string
	p    Ptr
}

func (h held) key() string { return h.kind + ":" + h.p.key() }

func (s *State) syncAdd(kind string, p Val) {
	q, ok := p.(Ptr)
	if !ok {
		return
	}
	h := held{kind, q}
	for _, g := range s.sync {
		if g.key() == h.key() {
			return
		}
	}
	s.sync = append(s.sync[:len(s.sync):len(s.sync)], h)
}

func (s *State) syncDel(kind string, p Val) {
	q, ok := p.(Ptr)
	if !ok {
		return
	}
	h := held{kind, q}
	var out []held
	for _, g := range s.sync {
		if g.key() != h.key() {
			out = append(out, g)
		}
	}
	s.sync = out
}

func (s *State) syncKey() string {
	var out []string
	for _, g := range s.sync {
		out = append(out, g.key())
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// guard is what makes it legal to write shared state here.
func (s *State) guard() string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if g := s.frames[i].once; g != "" {
			return g
		}
	}
	for _, q := range s.sync {
		if q.kind != "lock" {
			continue
		}
		for _, p := range s.sync {
			if p.kind == "plock" && p.p.key() == q.p.key() {
				return q.key() + "!" // not only the first time
			}
		}
		return q.key()
	}
	return ""
}

// ordered tells whether something held excludes, or comes after, a write under a guard.
func ordered(held, guard string) bool {
	again := strings.HasSuffix(guard, "!")
	guard = strings.TrimSuffix(guard, "!")
	for _, q := range strings.Fields(held) {
		if q == guard || strings.HasPrefix(q, "rlock:") && q[1:] == guard {
			return true
		}
		if !again && strings.HasPrefix(q, "plock:") && q[1:] == guard {
			return true
		}
	}
	return false
}

func (x *Exec) shareAccess(s *State, id int, path string, write bool, pos token.Pos) {
	if s.share == 0 || x.initPhase || len(s.frames) == 0 {
		return
	}
	o := s.obj(id)
	if x.p.isHarness(s.top().fn.f) && (o.Tag == "ghost" || strings.Contains(o.Tag, harnessDir)) {
		return
	}
	if write && o.Any && o.T != nil && typeKey(types.Unalias(o.T)) == "github.com/clipperhouse/jargon.Token" {
		x.shareReport(s, pos, "C10: a token is changed after it was created")
		return
	}
	if !s.isShared(id) {
		return
	}
	c := cell{id, path}
	if !write {
		if _, ok := x.sharing.reads[c]; !ok {
			x.sharing.reads[c] = map[string]token.Pos{}
		}
		x.sharing.reads[c][s.syncKey()] = pos
		for d, gs := range x.sharing.writes {
			if !c.overlaps(d) {
				continue
			}
			for g := range gs {
				if !ordered(s.syncKey(), g) {
					x.shareReport(s, pos, "C10: state that streams share is read without regard to the synchronization that it is written under")
				}
			}
		}
		return
	}
	g := s.guard()
	if g == "" {
		x.shareReport(s, pos, "C10: state that streams share is written without synchronization")
		return
	}
	if _, ok := x.sharing.writes[c]; !ok {
		x.sharing.writes[c] = map[string]token.Pos{}
	}
	x.sharing.writes[c][g] = pos
	for d, hs := range x.sharing.reads {
		if !c.overlaps(d) {
			continue
		}
		for h, at := range hs {
			if !ordered(h, g) {
				x.shareReport(s, at, "C10: state that streams share is read without regard to the synchronization that it is written under")
			}
		}
	}
}

func (x *Exec) shareReport(s *State, pos token.Pos, msg string) {
	if tagged(msg, x.cfg.Prop) {
		x.report(s, pos, msg)
	}
}

// publish: what was stored in shared state is shared.
func (x *Exec) publish(s *State, id int, v Val) {
	if s.share == 0 || x.initPhase || !s.isShared(id) || len(s.frames) == 0 || x.p.isHarness(s.top().fn.f) {
		return
	}
	var val func(v Val)
	var obj func(id int)
	obj = func(id int) {
		o := s.obj(id)
		if id <= s.share || o.Shared {
			return
		}
		s.mut(id).Shared = true
		for _, v := range o.F {
			val(v)
		}
		for _, p := range o.P {
			if p.Seg == 0 {
				val(p.Elem)
			}
		}
		for _, e := range o.M {
			val(e.K)
			val(e.V)
		}
	}
	val = func(v Val) {
		switch v := v.(type) {
		case Ptr:
			obj(v.Obj)
		case ElemPtr:
			obj(v.Arr)
		case Slice:
			obj(v.Arr)
		case MapV:
			obj(v.Obj)
		case Iface:
			val(v.V)
		case Fn:
			for _, f := range v.Bind {
				val(f)
			}
		case Struct:
			for _, f := range v.F {
				val(f)
			}
		case Tuple:
			for _, f := range v {
				val(f)
			}
		}
	}
	if v != nil {
		val(v)
	}
}
