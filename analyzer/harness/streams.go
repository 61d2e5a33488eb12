package zz_jv_harness

import (
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stopwords"
)

// selection checks a stream that is to return the tokens that qualify.
func selection(mk func(*jargon.TokenStream) *jargon.TokenStream, qualifies func(*Token) bool) {
	share()
	src := &source{}
	var last *Token // the token that must be returned next
	src.given = func(t *Token) {
		assert(last == nil, "C06 C09 C11: a qualifying token is skipped, or the source is read ahead of need")
		if qualifies(t) {
			last = t
		}
	}
	st := mk(jargon.NewTokenStream(src.next))
	assert(last == nil && !src.ended, "C11: the source is read before the first token is asked for")
	for {
		t, err := st.Next()
		if t == nil || err != nil {
			atEnd(src, t, err)
			assert(last == nil, "C06 C09: a qualifying token is dropped at the end")
			t2, err2 := st.Next()
			assert(t2 == nil && (err2 == err || src.once), "C05 C06 C08: reading after the end gives another outcome")
			return
		}
		assert(last != nil, "C06 C09: a token is returned that does not qualify, or twice")
		assert(sameToken(t, last), "C06 C07 C09: a selection changes a token")
		last = nil
	}
}

//jv:props C05 C06 C08 C09 C10 C11 C25
func H_Where() {
	var verdict bool
	var last *Token
	calls := 0
	pred := func(t *Token) bool {
		assert(sameTok(t, last), "C09: the predicate is applied to another token")
		calls++
		return verdict
	}
	selection(func(s *jargon.TokenStream) *jargon.TokenStream { return s.Where(pred) }, func(t *Token) bool {
		last = t
		verdict = anyBool()
		return verdict
	})
}

//jv:props C05 C06 C08 C09 C10 C11 C25
func H_Words() {
	selection((*jargon.TokenStream).Words, func(t *Token) bool { return !t.IsPunct() && !t.IsSpace() })
}

//jv:props C05 C06 C08 C09 C10 C11 C25
func H_Lemmas() {
	selection((*jargon.TokenStream).Lemmas, func(t *Token) bool { return t.IsLemma() })
}

//jv:props C05 C06 C08 C09 C10 C11 C25
func H_Distinct() {
	seen := map[string]bool{}
	selection((*jargon.TokenStream).Distinct, func(t *Token) bool {
		if seen[t.String()] {
			return false
		}
		seen[t.String()] = true
		return true
	})
}

//jv:props C05 C06 C08 C09 C10 C11 C25
func H_Stopwords() {
	list := anyStrings()
	ignoreCase := anyBool()
	stop := map[string]bool{}
	for _, w := range list {
		if ignoreCase {
			w = strings.ToLower(w)
		}
		stop[w] = true
	}
	f := stopwords.NewFilter(list, ignoreCase)
	selection(f, func(t *Token) bool {
		w := t.String()
		if ignoreCase {
			w = strings.ToLower(w)
		}
		return !stop[w]
	})
}

// mixing the ways to read a stream
//
//jv:props C05 C08 C10 C25
func H_Mix() {
	src := &source{}
	var last *Token
	reads := 0
	src.given = func(t *Token) {
		last = t
		reads++
	}
	st := jargon.NewTokenStream(src.next)
	assert(st.Token() == nil && st.Err() == nil, "C08: a stream has a token or an error before it is read")
	for {
		reads = 0
		last = nil
		var t *Token
		var err error
		if choose(2) == 0 {
			t, err = st.Next()
		} else {
			ok := st.Scan()
			t, err = st.Token(), st.Err()
			assert(ok == (t != nil && err == nil), "C05 C08: Scan's result disagrees with Token and Err")
		}
		if t == nil || err != nil {
			atEnd(src, t, err)
			assert(reads == 0, "C08: a token is lost")
			if src.once {
				return
			}
			continue
		}
		assert(reads == 1, "C08: a token is skipped, or returned twice")
		assert(sameTok(t, last), "C08: the token returned is not the source's")
		if choose(2) == 0 {
			assert(sameTok(st.Token(), t) && st.Err() == nil, "C08: Token changes without a read")
		}
	}
}

// after reading any part of a stream, a convenience method gives the rest
func partlyRead() (*source, *jargon.TokenStream) {
	src := &source{}
	st := jargon.NewTokenStream(src.next)
	if choose(2) == 0 {
		st.Next()
		assume(!src.once)
	}
	return src, st
}

//jv:props C05 C06 C08 C10 C25
func H_ToSlice() {
	src, st := partlyRead()
	var rest []*Token
	src.given = func(t *Token) { rest = append(rest, t) }
	got, err := st.ToSlice()
	assert(src.ended, "C08: the slice is returned before the source has ended")
	assert(err == src.err, "C05 C08: ToSlice does not return the source's error")
	if err == nil {
		assert(sameSeq(got, rest), "C08 C06: ToSlice does not return exactly the remaining tokens in order")
	}
}

//jv:props C05 C08 C10 C25
func H_Count() {
	src, st := partlyRead()
	n := 0
	src.given = func(t *Token) { n++ }
	got, err := st.Count()
	assert(src.ended, "C08: the count is returned before the source has ended")
	assert(err == src.err, "C05 C08: Count does not return the source's error")
	if err == nil {
		assert(got == n, "C08: Count does not return the number of remaining tokens")
	}
}

//jv:props C05 C08 C10 C25
func H_String() {
	src, st := partlyRead()
	var rest []*Token
	src.given = func(t *Token) { rest = append(rest, t) }
	got, err := st.String()
	assert(src.ended, "C08: the string is returned before the source has ended")
	assert(err == src.err, "C05 C08: String does not return the source's error")
	if err == nil {
		assert(sameText(got, textOf(rest)), "C08: String does not return the concatenated text")
	}
}

// sink is an arbitrary io.Writer.
type sink struct {
	text   string
	n      int64 // bytes accepted
	failed bool
	err    error
	wrote  func(s string)
}

func (w *sink) Write(p []byte) (int, error) {
	assert(!w.failed, "C08 C19: writing continues after the writer failed")
	if choose(2) == 0 {
		w.text = w.text + string(p)
		w.n += int64(len(p))
		return len(p), nil
	}
	k := anyInt()
	assume(k >= 0 && k <= len(p))
	w.n += int64(k)
	w.failed = true
	w.err = anyErr()
	return k, w.err
}

//jv:props C05 C08 C10 C25
//jv:attrs bytes
func H_WriteTo() {
	src, st := partlyRead()
	var rest []*Token
	src.given = func(t *Token) { rest = append(rest, t) }
	w := &sink{}
	n, err := st.WriteTo(w)
	assert(n == w.n, "C08: WriteTo does not return the number of bytes written")
	if w.failed {
		assert(err == w.err, "C08: WriteTo does not return the writer's error")
		return
	}
	assert(src.ended, "C08: WriteTo returns before the source has ended")
	assert(err == src.err, "C05 C08: WriteTo does not return the source's error")
	assert(sameText(w.text, textOf(rest)), "C08: WriteTo does not write the concatenated text")
}
