package zz_jv_harness

import (
	"sort"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

// trieModel stands for a trie, in the analysis of the filter that uses it.
type trieModel struct {
	ignoreCase bool
	ignore     []rune
}

var theTrie *trieModel
var onAdd func(tokens []*Token, canonical string)
var onSearch func(tokens []*Token) (bool, string, int)

//jv:stub github.com/clipperhouse/jargon/filters/synonyms/trie.New trie
func stubTrieNew(ignoreCase bool, ignore []rune) *trieModel {
	theTrie = &trieModel{ignoreCase, ignore}
	return theTrie
}

//jv:stub (*github.com/clipperhouse/jargon/filters/synonyms/trie.RuneTrie).Add trie
func stubTrieAdd(t *trieModel, tokens []*Token, canonical string) {
	assert(t == theTrie, "C13: a synonym is entered into another dictionary")
	onAdd(tokens, canonical)
}

//jv:stub (*github.com/clipperhouse/jargon/filters/synonyms/trie.RuneTrie).SearchCanonical trie
func stubTrieSearch(t *trieModel, tokens ...*Token) (bool, string, int) {
	assert(t == theTrie, "C12 C13: another dictionary is searched")
	return onSearch(tokens)
}

func isWord(t *Token) bool { return !t.IsSpace() && !t.IsPunct() }

// dictionary is the environment in which a dictionary is read.
type dictionary struct {
	key, canonical string
	toks           []*Token // the tokens of the key
	n              int      // how many there can be
	kinds          int
	ended          bool
	err            error
	pos            int // what was entered
	maxWords       int
	read           bool
}

// next is the stream of tokens of the key.
func (d *dictionary) next() (*Token, error) {
	if d.ended || len(d.toks) == d.n {
		d.ended = true
		return nil, d.err
	}
	t := anyToken()
	switch choose(2 + d.kinds) {
	case 0:
		d.ended = true
		return nil, nil
	case 1:
		d.ended = true
		d.err = anyErr()
		return nil, d.err
	case 2:
		assume(isWord(t) && t.String() != ",")
	case 3:
		assume(t.IsSpace() && t.String() != ",")
	case 4:
		assume(!t.IsSpace() && t.IsPunct() && t.String() == ",")
	case 5:
		assume(!t.IsSpace() && t.IsPunct() && t.String() != ",")
	}
	d.toks = append(d.toks, t)
	return t, nil
}

func (d *dictionary) tokenize(s string) *jargon.TokenStream {
	assert(s == d.key, "C13: another text is tokenized than the dictionary's")
	assert(!d.read, "C13: the dictionary is read twice")
	d.read = true
	return jargon.NewTokenStream(d.next)
}

// segment is the next synonym, starting at pos.
func (d *dictionary) segment() (from, to int) {
	from = d.pos
	for from < len(d.toks) && d.toks[from].IsSpace() {
		from++
	}
	to = from
	for to < len(d.toks) && d.toks[to].String() != "," {
		to++
	}
	return
}

func (d *dictionary) add(tokens []*Token, canonical string) {
	assert(d.read, "C13: a synonym is entered before the dictionary is read")
	assert(canonical == d.canonical, "C12 C13: a synonym is entered with another canonical term than its entry's")
	for {
		assert(d.pos <= len(d.toks), "C13: a synonym is entered twice, or one that the dictionary does not have")
		from, to := d.segment()
		d.pos = to + 1
		if from == to && len(tokens) > 0 {
			continue // an empty synonym need not be entered
		}
		assert(sameSeq(tokens, d.toks[from:to]), "C12 C13: a synonym is entered wrongly")
		words := 0
		for _, t := range tokens {
			if isWord(t) {
				words++
			}
		}
		if words > d.maxWords {
			d.maxWords = words
		}
		return
	}
}

// complete checks that all synonyms were entered.
func (d *dictionary) complete() {
	for d.pos <= len(d.toks) {
		from, to := d.segment()
		assert(from == to, "C13: a synonym is not entered")
		d.pos = to + 1
	}
}

// matching is the monitor of a synonyms filter.
type matching struct {
	src       *source
	held      []*Token // read and not accounted for
	maxWords  int
	searched  bool // without success, for the first token held
	canonical string
	spaces    int  // at most this many in a row
	limit     bool // one lookup, at most, succeeds: the one after this many, with all its tokens
	found     int
}

func (m *matching) given(t *Token) {
	assert(m.canonical == "", "C06 C11 C12: the source is read although a replacement is ready")
	assert(!m.searched, "C06 C11 C12: the source is read although the next token is decided")
	words, spaces := 0, 0
	for _, h := range m.held {
		assert(!h.IsPunct(), "C11 C12: the source is read beyond punctuation")
		if h.IsSpace() {
			spaces++
			assert(words > 0, "C11 C12: the source is read although a space is ready")
		} else {
			words++
			spaces = 0
		}
	}
	assert(words < m.maxWords || len(m.held) == 0, "C11 C12 C13: the source is read further than the longest synonym")
	assume(spaces < m.spaces || !t.IsSpace() || len(m.held) == 0)
	m.held = append(m.held, t)
}

func (m *matching) search(tokens []*Token) (bool, string, int) {
	assert(m.canonical == "" && !m.searched, "C12: a run is searched for twice")
	assert(len(tokens) > 0 && len(tokens) <= len(m.held), "C12: a run is searched for that is not the next one")
	assert(sameSeq(tokens, m.held[:len(tokens)]), "C12: a run is searched for that is not the next one")
	assert(isWord(tokens[0]), "C12: a match starts with a space or punctuation")
	words := 0
	for _, t := range tokens {
		assert(!t.IsPunct(), "C12: a match crosses punctuation")
		if !t.IsSpace() {
			words++
		}
	}
	if words < m.maxWords {
		if len(tokens) < len(m.held) {
			next := m.held[len(tokens)]
			assert(next.IsPunct(), "C12 C13: the run that is searched for is too short")
		} else {
			assert(m.src.ended, "C12 C13: the filter does not look ahead far enough")
		}
	}
	if m.limit {
		m.found--
		if m.found != 0 {
			m.searched = true
			return false, "", 0
		}
		m.held = m.held[len(tokens):]
		m.canonical = "long"
		return true, m.canonical, len(tokens)
	}
	if choose(2) == 0 {
		m.searched = true
		return false, "", 0
	}
	n := anyLen(len(tokens))
	m.held = m.held[n:]
	m.canonical = ""
	if anyBool() {
		m.canonical = anyText()
	}
	return true, m.canonical, n
}

// anyLen is any number from 1 to n, concretely.
func anyLen(n int) int {
	k := 1
	for k < n && anyBool() {
		k++
	}
	return k
}

func (m *matching) run(f jargon.Filter) {
	st := f(jargon.NewTokenStream(m.src.next))
	assert(len(m.held) == 0 && !m.src.ended, "C11: the source is read before the first token is asked for")
	m.loop(st)
}

func (m *matching) loop(st *jargon.TokenStream) {
	for {
		t, err := st.Next()
		if t == nil || err != nil {
			atEnd(m.src, t, err)
			if err == nil {
				assert(len(m.held) == 0 && m.canonical == "", "C06 C12: a token is dropped at the end")
			}
			if m.src.once {
				return
			}
			t2, err2 := st.Next()
			assert(t2 == nil && err2 == err, "C05 C06 C08: reading after the end gives another outcome")
			return
		}
		if m.canonical != "" {
			isNew(t, m.canonical)
			m.canonical = ""
			continue
		}
		assert(len(m.held) > 0, "C06 C12: a token is returned twice")
		assert(sameToken(t, m.held[0]), "C06 C07 C12: a token that does not match is changed, dropped or out of order")
		if isWord(t) {
			assert(m.searched, "C12 C13: a word is returned without being looked up")
		}
		m.searched = false
		m.held = m.held[1:]
	}
}

// words appends n words to the key of a dictionary, with a space or punctuation between them.
func (d *dictionary) words(n int) {
	for i := 0; i < n; i++ {
		if i > 0 {
			s := anyToken()
			if anyBool() {
				assume(s.IsSpace() && s.String() != ",")
			} else {
				assume(!s.IsSpace() && s.IsPunct() && s.String() != ",")
			}
			d.toks = append(d.toks, s)
		}
		t := anyToken()
		assume(isWord(t) && t.String() != ",")
		d.toks = append(d.toks, t)
	}
	if n > d.maxWords {
		d.maxWords = n
	}
}

// Any stream, with a dictionary of one or two synonyms of up to three words.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C12 C13 C25
//jv:groups newtoken tokenize trie
//jv:delay 1000000
//jv:flags nofold
func H_Synonyms() {
	d := &dictionary{key: anyString(), canonical: anyText(), maxWords: 1}
	d.words(choose(4))
	if anyBool() {
		c := anyToken()
		assume(!c.IsSpace() && c.IsPunct() && c.String() == ",")
		d.toks = append(d.toks, c)
		d.words(choose(4))
	}
	m := &matching{src: &source{}, spaces: 1, maxWords: d.maxWords}
	given := 0
	onTokenize = func(s string) *jargon.TokenStream {
		return jargon.NewTokenStream(func() (*Token, error) {
			if given == len(d.toks) {
				return nil, nil
			}
			given++
			return d.toks[given-1], nil
		})
	}
	d.read = true
	onAdd = d.add
	onSearch = m.search
	m.src.given = m.given
	f := synonyms.NewFilter(map[string]string{d.key: d.canonical}, anyBool(), nil)
	share()
	st := f(jargon.NewTokenStream(m.src.next))
	assert(len(m.held) == 0 && !m.src.ended, "C11: the source is read before the first token is asked for")
	f(jargon.NewTokenStream((&source{}).next)) // another stream
	if given > 0 && theTrie != nil {
		// read: forget it
		onTokenize, onAdd = nil, nil
		theTrie.ignoreCase = false
		d = nil
	}
	m.loop(st)
}

// longDictionary has a synonym of many words, with a space between them, after and before shorter ones.
func longDictionary(n int) (*dictionary, []*Token) {
	d := &dictionary{key: anyString(), canonical: anyText(), maxWords: n, read: true}
	for i := 0; i < n/3; i++ {
		d.toks = append(d.toks, jargon.NewToken("first", false))
	}
	d.toks = append(d.toks, jargon.NewToken(",", false))
	from := len(d.toks)
	for i := 0; i < n; i++ {
		if i > 0 {
			d.toks = append(d.toks, jargon.NewToken(" ", false))
		}
		d.toks = append(d.toks, jargon.NewToken("word", false))
	}
	text := append([]*Token(nil), d.toks[from:]...)
	d.toks = append(d.toks, jargon.NewToken(",", false), jargon.NewToken("other", false))
	return d, text
}

// A dictionary with a synonym of many words, and a stream with as many.
//
//jv:props C06 C11 C12 C13 C25
//jv:groups tokenize trie
//jv:delay 1000000
//jv:flags nofold nojoin
func H_SynonymsLong() {
	const n = 40
	d, text := longDictionary(n)
	given := 0
	onTokenize = func(s string) *jargon.TokenStream {
		return jargon.NewTokenStream(func() (*Token, error) {
			if given == len(d.toks) {
				return nil, nil
			}
			given++
			return d.toks[given-1], nil
		})
	}
	onAdd = d.add
	src := &source{}
	m := &matching{src: src, spaces: 1, maxWords: n}
	onSearch = m.search
	m.found = choose(2) // which lookup succeeds, if any
	m.limit = true
	f := synonyms.NewFilter(map[string]string{d.key: d.canonical}, anyBool(), nil)
	// the words of the synonym, then punctuation or the end
	pos := 0
	punct := jargon.NewToken(".", false)
	st := f(jargon.NewTokenStream(func() (*Token, error) {
		if pos < len(text) {
			pos++
			m.given(text[pos-1])
			return text[pos-1], nil
		}
		if pos == len(text) {
			pos++
			if anyBool() {
				m.given(punct)
				return punct, nil
			}
		}
		src.ended = true
		return nil, nil
	}))
	if given > 0 {
		d.complete()
	}
	m.loop(st)
}

// Any dictionary entry of up to five tokens.
//
//jv:props C05 C10 C12 C13 C25
//jv:groups newtoken tokenize trie
//jv:delay 1000000
//jv:flags nofold
func H_SynonymsBuild() {
	d := &dictionary{key: anyString(), canonical: anyString(), n: 5, kinds: 4, maxWords: 1}
	onTokenize = d.tokenize
	onAdd = d.add
	ignoreCase, ignore := anyBool(), anyRunes()
	f := synonyms.NewFilter(map[string]string{d.key: d.canonical}, ignoreCase, ignore)
	share()
	src := &source{}
	m := &matching{src: src, spaces: 1}
	onSearch = m.search
	src.given = m.given
	st := f(jargon.NewTokenStream(src.next))
	if d.err != nil {
		// the failure is reported each time
		t, err := st.Next()
		assert(t == nil && err == d.err, "C05 C13 C25: a failure to read the dictionary is not reported")
		t, err = st.Next()
		assert(t == nil && err == d.err, "C05 C13 C25: a failure to read the dictionary is not reported again")
		st = f(jargon.NewTokenStream(src.next))
		t, err = st.Next()
		assert(t == nil && err == d.err, "C05 C13 C25: a failure to read the dictionary is not reported for another stream")
		return
	}
	if !d.read {
		src.ended = true
		st.Next()
	}
	assert(d.read && d.ended, "C13: the dictionary is not read")
	f(jargon.NewTokenStream(src.next)) // another stream
	assert(theTrie.ignoreCase == ignoreCase, "C12 C13: case is not treated as requested")
	assert(theTrie.ignore == nil && ignore == nil || sameRunes(theTrie.ignore, ignore), "C12 C13: other runes are ignored than requested")
	d.complete()
}

func sameRunes(a, b []rune) bool { panic(0) }

// No dictionary at all: every token passes.
//
//jv:props C05 C06 C10 C11 C12 C25
//jv:groups newtoken tokenize trie
//jv:delay 1000000
//jv:flags nofold
func H_SynonymsNone() {
	onTokenize = func(s string) *jargon.TokenStream {
		fail("C12 C13: a text is tokenized that is not in the dictionary")
		return nil
	}
	onAdd = func(tokens []*Token, canonical string) {
		fail("C12 C13: a synonym is entered that is not in the dictionary")
	}
	m := &matching{src: &source{}, spaces: 1, maxWords: 1}
	onSearch = m.search
	m.src.given = m.given
	var d map[string]string
	if anyBool() {
		d = map[string]string{}
	}
	f := synonyms.NewFilter(d, anyBool(), nil)
	share()
	m.run(f)
}

//jv:stub sort.Slice
func stubSortSlice(x interface{}, less func(i, j int) bool) {
	switch s := x.(type) {
	case []string:
		for i := range s {
			for j := i; j > 0 && less(j, j-1); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
	default:
		undecided("sorting of other things than texts")
	}
}

//jv:stub sort.SliceStable
func stubSortSliceStable(x interface{}, less func(i, j int) bool) { stubSortSlice(x, less) }

//jv:stub sort.Sort
func stubSort(x sort.Interface) {
	n := x.Len()
	for i := 0; i < n; i++ {
		for j := i; j > 0 && x.Less(j, j-1); j-- {
			x.Swap(j, j-1)
		}
	}
}

//jv:stub sort.Stable
func stubSortStable(x sort.Interface) { stubSort(x) }

//jv:stub sort.Reverse
func stubSortReverse(x sort.Interface) sort.Interface { return reverse{x} }

type reverse struct{ sort.Interface }

func (r reverse) Less(i, j int) bool { return r.Interface.Less(j, i) }

// result is what a filter makes of a word.
func result(f jargon.Filter, word *Token) string {
	given := false
	st := f(jargon.NewTokenStream(func() (*Token, error) {
		if given {
			return nil, nil
		}
		given = true
		return word, nil
	}))
	r := ""
	for {
		t, err := st.Next()
		if t == nil || err != nil {
			return r
		}
		r += t.String() + "|"
	}
}

// Entries of a dictionary that conflict, in any order of the map.
//
//jv:props C24
//jv:groups newtoken tokenize
//jv:delay 1000000
//jv:flags nofold
func H_SynonymsOrder() {
	word := stubNewToken("w", false)
	assume(isWord(word))
	onTokenize = func(s string) *jargon.TokenStream {
		given := false
		return jargon.NewTokenStream(func() (*Token, error) {
			if given {
				return nil, nil
			}
			given = true
			return word, nil
		})
	}
	m := map[string]string{"w": "x", "W": "y"}
	if choose(2) == 0 {
		m = map[string]string{"w w": "x", "a": "yyy", "c": "x", "b": "z"}
	}
	a := result(synonyms.NewFilter(m, true, nil), word)
	b := result(synonyms.NewFilter(m, true, nil), word)
	assert(a == b, "C24: the result depends on the order of the entries in a map")
}

//jv:stub (sort.StringSlice).Len
func stubStringsLen(s sort.StringSlice) int { return len(s) }

//jv:stub (sort.StringSlice).Less
func stubStringsLess(s sort.StringSlice, i, j int) bool { return s[i] < s[j] }

//jv:stub (sort.StringSlice).Swap
func stubStringsSwap(s sort.StringSlice, i, j int) { s[i], s[j] = s[j], s[i] }

//jv:stub (sort.StringSlice).Sort
func stubStringsSort(s sort.StringSlice) { stubSort(s) }
