package main

import (
	_ "embed"
	"sort"
	"strconv"
	"strings"
)

// The table of Lucene's ASCIIFoldingFilter: code point and replacement.
//
//go:embed lucene.txt
var luceneText string

type luceneEntry struct {
	from int64
	to   string
}

var luceneEntries []luceneEntry

func luceneTable() []luceneEntry {
	if luceneEntries == nil {
		for _, l := range strings.Split(luceneText, "\n") {
			a, b, ok := strings.Cut(l, " ")
			if !ok {
				continue
			}
			n, err := strconv.ParseInt(a, 16, 64)
			if err != nil {
				panic(err)
			}
			luceneEntries = append(luceneEntries, luceneEntry{n, b})
		}
		sort.Slice(luceneEntries, func(i, j int) bool { return luceneEntries[i].from < luceneEntries[j].from })
	}
	return luceneEntries
}

// foldOf is the image of a rune under folding, if it is known which.
func (s *State) foldOf(e Val) (Val, bool) {
	if c, ok := asStr(e); ok { // already a text
		return cStr(c), true
	}
	set := IntSet{}
	if n, ok := asInt(e); ok {
		set = IntSet{{n, n}}
	} else {
		set = s.setOf(e)
	}
	to, hits := "", int64(0)
	for _, l := range luceneTable() {
		if set.has(l.from) {
			if hits > 0 && l.to != to {
				return nil, false
			}
			to = l.to
			hits++
		}
	}
	if hits == 0 {
		return runeStr(e), true
	}
	if hits == set.size() {
		return cStr(to), true
	}
	return nil, false
}

// foldImages, if set, makes the analysis recognize texts that are the folded image of a part of another.
var foldImages bool

// recognizeImages writes texts that are the image of a prefix of a text's runes as such.
func (s *State) recognizeImages() {
	if !foldImages {
		return
	}
	for {
		again := false
		for _, k := range sortedKeys(s.runes) {
			q := s.runes[k]
			var cats []Cat
			s.eachVal(func(v Val) {
				switch v := v.(type) {
				case Cat:
					cats = append(cats, v)
				}
			})
			// a text of one piece is not a sequence: look at the cells of buffers
			for _, id := range sortedInts(s.heap) {
				o := s.heap[id]
				for _, f := range sortedKeys(o.F) {
					if !strings.HasSuffix(f, "#text") {
						continue
					}
					if _, isCat := o.F[f].(Cat); isCat {
						continue
					}
					if str, ok := asStr(o.F[f]); ok && str == "" {
						continue
					}
					if n, ok := s.matchImage(q.P, []Piece{{Elem: o.F[f]}}); ok && n > 0 {
						ps := s.anonymize(k, n)
						m := s.mut(id)
						m.F[f] = Cat{ps}
						again = true
						break
					}
				}
				if again {
					break
				}
			}
			if again {
				break
			}
			for _, c := range cats {
				n, ok := s.matchImage(q.P, c.P)
				if !ok || n == 0 {
					continue
				}
				ps := s.anonymize(k, n)
				if piecesKey(ps) == piecesKey(c.P) {
					continue
				}
				ck := piecesKey(c.P)
				s.mapSeqs(func(x []Piece) []Piece {
					if piecesKey(x) == ck {
						return ps
					}
					return x
				})
				again = true
				break
			}
			if again {
				break
			}
		}
		if !again {
			return
		}
	}
}

// matchImage tells whether the text t is the image of the first n of the runes q.
func (s *State) matchImage(q, t []Piece) (int, bool) {
	i, j, off := 0, 0, 0
	for j < len(t) {
		if i >= len(q) {
			return 0, false
		}
		if t[j].Seg > 0 || t[j].Proj != "" {
			if t[j].Proj != "fold" || q[i].key()+"fold" != t[j].key() {
				return 0, false
			}
			i++
			j++
			continue
		}
		if q[i].Seg > 0 {
			return 0, false
		}
		im, ok := s.foldOf(q[i].Elem)
		if !ok {
			return 0, false
		}
		if ic, ok := asStr(im); ok {
			tc, ok := asStr(t[j].Elem)
			if !ok || !strings.HasPrefix(tc[off:], ic) {
				return 0, false
			}
			off += len(ic)
			if off == len(tc) {
				off = 0
				j++
			}
			i++
			continue
		}
		if off != 0 || t[j].Elem.key() != im.key() {
			return 0, false
		}
		i++
		j++
	}
	return i, true
}

// anonymize makes the first n pieces of a text's runes segments, and returns their image.
func (s *State) anonymize(k string, n int) []Piece {
	q := s.runes[k]
	out := append([]Piece(nil), q.P...)
	var im []Piece
	for i := 0; i < n; i++ {
		if out[i].Seg == 0 {
			out[i] = Piece{Seg: s.segOf(out[i], "rune")}
		}
		im = append(im, Piece{Seg: out[i].Seg, Proj: "fold"})
	}
	s.runes[k] = RuneSeq{q.S, out}
	return im
}
