package zz_jv_harness

import (
	"unicode"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"
)

// textToken is any token of n runes.
func textToken(n int) (*Token, []rune) {
	t := anyTokenPtr()
	s := anyRunesText(n)
	assume(t.String() == s)
	return t, []rune(s)
}

// significant is what matters of a rune.
func significant(r rune, ignoreCase bool, ignore rune) (rune, bool) {
	if ignoreCase {
		r = unicode.ToLower(r)
	}
	return r, r != ignore
}

func equalRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// searches checks a trie of n entries of given shapes (runes per token) against a search of a given shape.
func searches(entries [][]int, text []int) {
	ignoreCase := anyBool()
	ignore := anyRune()
	assume(unicode.ToLower(ignore) == ignore)
	tr := trie.New(ignoreCase, []rune{ignore})
	var keys [][]rune
	var canons []string
	for _, shape := range entries {
		var toks []*Token
		var key []rune
		for _, n := range shape {
			t, rs := textToken(n)
			toks = append(toks, t)
			for _, r := range rs {
				if r, ok := significant(r, ignoreCase, ignore); ok {
					key = append(key, r)
				}
			}
		}
		c := anyString()
		tr.Add(toks, c)
		keys = append(keys, key)
		canons = append(canons, c)
	}
	var toks []*Token
	var ends [][]rune // the normalized text up to each token
	var all []rune
	for _, n := range text {
		t, rs := textToken(n)
		toks = append(toks, t)
		for _, r := range rs {
			if r, ok := significant(r, ignoreCase, ignore); ok {
				all = append(all, r)
			}
		}
		ends = append(ends, all)
	}
	share()
	found, canonical, consumed := tr.SearchCanonical(toks...)
	// the longest match, ending with its last significant token
	want, at := -1, 0
	for i, e := range ends {
		if i > 0 && len(ends[i-1]) == len(e) {
			continue
		}
		for j, k := range keys {
			if len(k) > 0 && equalRunes(k, e) {
				want, at = j, i+1
			}
		}
	}
	if want < 0 {
		assert(!found, "C12 C13: a run matches that is no synonym")
		return
	}
	assert(found, "C12 C13: a synonym is not found")
	assert(canonical == canons[want], "C12 C13: a synonym has another canonical term than its entry's")
	assert(consumed == at, "C12 C06: a match consumes more or fewer tokens than the synonym has")
}

func anyRune() rune { panic(0) }

// Any single synonym of one or two tokens, and any text.
//
//jv:props C10 C12 C13 C25
//jv:delay 1000000
//jv:flags nofold
func H_TrieOne() {
	shapes := [][]int{{1}, {2}, {1, 1}}
	texts := [][]int{{1}, {2}, {1, 1}, {2, 1}, {1, 1, 1}}
	searches([][]int{shapes[choose(3)]}, texts[choose(5)])
}

// Any two synonyms, one perhaps the beginning of the other, and any text.
//
//jv:props C10 C12 C13 C25
//jv:delay 1000000
//jv:flags nofold
func H_TrieTwo() {
	a := [][]int{{1}, {2}, {1, 1}}
	b := [][]int{{1}, {1, 1}}
	texts := [][]int{{1, 1}, {2, 1}, {1, 1, 1}}
	searches([][]int{a[choose(3)], b[choose(2)]}, texts[choose(3)])
}

// A dictionary of synonyms of many tokens, or of one token of many runes, each the beginning of the next one.
//
//jv:props C12 C13 C25
//jv:groups none
//jv:delay 1000000
//jv:flags nofold nojoin
func H_TrieLong() {
	single := anyBool() // one token
	tr := trie.New(anyBool(), []rune{'-', '.'})
	run := func(n int) []*Token {
		var toks []*Token
		s := ""
		for i := 0; i < n; i++ {
			if single {
				s += "ab"
			} else {
				toks = append(toks, jargon.NewToken("a", false), jargon.NewToken("b", false))
			}
		}
		if single {
			return []*Token{jargon.NewToken(s, false)}
		}
		return toks
	}
	lengths := []int{1, 10, 40}
	canons := []string{anyString(), anyString(), anyString()}
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}}[choose(2)] {
		tr.Add(run(lengths[i]), canons[i])
	}
	share()
	n := []int{1, 9, 10, 30, 40, 45}[choose(6)]
	toks := run(n)
	one := len(toks) / n
	end := len(toks)
	for i := 0; i < choose(2)*20; i++ {
		toks = append(toks, jargon.NewToken([]string{"-", "."}[i%2], false))
	}
	found, canonical, consumed := tr.SearchCanonical(toks...)
	want := -1
	for i, l := range lengths {
		if l == n || l < n && !single {
			want = i
		}
	}
	if want < 0 {
		assert(!found, "C12 C13: a run matches that is no synonym")
		return
	}
	assert(found, "C12 C13: a synonym is not found")
	assert(canonical == canons[want], "C12 C13: the longest synonym is not the one found")
	if single {
		assert(consumed == end, "C12 C06: a match consumes more or fewer tokens than the synonym has")
	} else {
		assert(consumed == one*lengths[want], "C12 C06: a match consumes more or fewer tokens than the synonym has")
	}
}
