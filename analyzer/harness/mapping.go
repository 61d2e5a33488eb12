package zz_jv_harness

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/stemmer"
	xnorm "golang.org/x/text/unicode/norm"
)

// isNew checks a token made by a filter.
func isNew(t *Token, text string) {
	assert(t.String() == text, "C06 C12 C14 C15 C16 C17 C18: a replacement has another text than specified")
	assert(t.IsLemma(), "C07: a replacement is not marked as a lemma")
	assert(t.IsPunct() == isPunctText(text) && t.IsSpace() == isSpaceText(text), "C04 C06: a replacement is not classified by its text")
}

// oneToOne checks a filter that replaces each token, if want says so, by a text (nothing, if it is empty).
func oneToOne(f jargon.Filter, want func(*Token) (string, bool)) {
	share()
	src := &source{}
	var last *Token
	var text string
	var changed bool
	src.given = func(t *Token) {
		assert(last == nil, "C06 C11 C27: a token is dropped, or the source is read ahead of need")
		text, changed = want(t)
		if changed && text == "" {
			return
		}
		last = t
	}
	st := f(jargon.NewTokenStream(src.next))
	assert(last == nil && !src.ended, "C11: the source is read before the first token is asked for")
	for {
		t, err := st.Next()
		if t == nil || err != nil {
			atEnd(src, t, err)
			assert(last == nil, "C06 C27: a token is dropped at the end")
			t2, err2 := st.Next()
			assert(t2 == nil && (err2 == err || src.once), "C05 C06 C08: reading after the end gives another outcome")
			return
		}
		assert(last != nil, "C06 C27: a token is returned twice, or one that was to be left out")
		if changed {
			isNew(t, text)
		} else {
			assert(sameToken(t, last), "C06 C07 C14 C17 C18: a token is replaced although its text does not change")
		}
		last = nil
	}
}

//jv:stub github.com/clipperhouse/jargon/filters/ascii.FoldString foldstring
func stubFoldString(s string) (string, bool) {
	if pr1("folded", s) {
		r := fn1("fold", s)
		assume(r != s && r != "")
		return r, true
	}
	return s, false
}

// The ASCII filter, for any stream: a token is replaced exactly if folding changes its text.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C14 C25
//jv:groups newtoken foldstring
func H_Ascii() {
	oneToOne(ascii.Fold, func(t *Token) (string, bool) { return ascii.FoldString(t.String()) })
}

//jv:stub (golang.org/x/text/unicode/norm.Form).String
func stubNormString(f int, s string) string {
	r := fn2("normal", f, s)
	if s != "" {
		assume(r != "")
	}
	return r
}

//jv:stub (golang.org/x/text/unicode/norm.Form).IsNormalString
func stubIsNormalString(f int, s string) bool { return fn2("normal", f, s) == s }

//jv:stub (golang.org/x/text/unicode/norm.Form).Bytes
func stubNormBytes(f int, b []byte) []byte { return []byte(stubNormString(f, string(b))) }

//jv:stub (golang.org/x/text/unicode/norm.Form).IsNormal
func stubIsNormal(f int, b []byte) bool { return stubIsNormalString(f, string(b)) }

//jv:stub (golang.org/x/text/unicode/norm.Form).QuickSpanString
func stubQuickSpanString(f int, s string) int {
	n := anyInt()
	assume(0 <= n && n <= len(s))
	if n == len(s) {
		assume(fn2("normal", f, s) == s)
	}
	return n
}

//jv:stub (golang.org/x/text/unicode/norm.Form).QuickSpan
func stubQuickSpan(f int, b []byte) int { return stubQuickSpanString(f, string(b)) }

//jv:stub (golang.org/x/text/unicode/norm.Form).Append
func stubNormAppend(f int, out []byte, in ...byte) []byte {
	if len(out) != 0 {
		undecided("Append to a text that is not empty")
	}
	return []byte(stubNormString(f, string(in)))
}

//jv:stub (golang.org/x/text/unicode/norm.Form).AppendString
func stubNormAppendString(f int, out []byte, in string) []byte {
	if len(out) != 0 {
		undecided("AppendString to a text that is not empty")
	}
	return []byte(stubNormString(f, in))
}

func normal(f jargon.Filter, form xnorm.Form) {
	oneToOne(f, func(t *Token) (string, bool) { return form.String(t.String()), !form.IsNormalString(t.String()) })
}

// The normalization filter NFC, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C18 C25
func H_NFC() { normal(norm.NFC, xnorm.NFC) }

// The normalization filter NFD, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C18 C25
func H_NFD() { normal(norm.NFD, xnorm.NFD) }

// The normalization filter NFKC, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C18 C25
func H_NFKC() { normal(norm.NFKC, xnorm.NFKC) }

// The normalization filter NFKD, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C18 C25
func H_NFKD() { normal(norm.NFKD, xnorm.NFKD) }

//jv:stub github.com/kljensen/snowball/english.Stem
func stubEnglish(s string, stop bool) string { return snowball("english", s, stop) }

//jv:stub github.com/kljensen/snowball/french.Stem
func stubFrench(s string, stop bool) string { return snowball("french", s, stop) }

//jv:stub github.com/kljensen/snowball/norwegian.Stem
func stubNorwegian(s string, stop bool) string { return snowball("norwegian", s, stop) }

//jv:stub github.com/kljensen/snowball/russian.Stem
func stubRussian(s string, stop bool) string { return snowball("russian", s, stop) }

//jv:stub github.com/kljensen/snowball/spanish.Stem
func stubSpanish(s string, stop bool) string { return snowball("spanish", s, stop) }

//jv:stub github.com/kljensen/snowball/swedish.Stem
func stubSwedish(s string, stop bool) string { return snowball("swedish", s, stop) }

// snowball is the stem of a word; without stop words, these are left as they are.
func snowball(lang, s string, stop bool) string {
	if stop {
		return fn1("stem:"+lang, s)
	}
	return fn1("stemnostop:"+lang, s)
}

func stems(f jargon.Filter, lang string) {
	oneToOne(f, func(t *Token) (string, bool) {
		if t.IsPunct() || t.IsSpace() {
			return "", false
		}
		s := snowball(lang, t.String(), true)
		return s, s != t.String()
	})
}

// The English stemmer filter, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C17 C25
func H_English() { stems(stemmer.English, "english") }

// The French stemmer filter, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C17 C25
func H_French() { stems(stemmer.French, "french") }

// The Norwegian stemmer filter, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C17 C25
func H_Norwegian() { stems(stemmer.Norwegian, "norwegian") }

// The Russian stemmer filter, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C17 C25
func H_Russian() { stems(stemmer.Russian, "russian") }

// The Spanish stemmer filter, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C17 C25
func H_Spanish() { stems(stemmer.Spanish, "spanish") }

// The Swedish stemmer filter, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C17 C25
func H_Swedish() { stems(stemmer.Swedish, "swedish") }

// A mapping filter with none to three arbitrary functions, for any stream.
//
//jv:props C05 C06 C07 C08 C10 C11 C25 C27
func H_Mapper() {
	src := &source{}
	n := choose(4)
	k := 0         // functions applied to the current token
	var cur *Token // the token, or result of the function before
	open := false  // a token has been read and not been returned or mapped to nothing
	fs := make([]func(*Token) *Token, 0)
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func(t *Token) *Token {
			assert(open && k == i, "C27: mapping functions are not applied once each in the order given")
			assert(sameTok(t, cur), "C27: a mapping function is not applied to the result of the one before")
			k++
			switch choose(3) {
			case 0:
			case 1:
				cur = anyToken()
			default:
				cur = nil
				open = false
			}
			return cur
		})
	}
	src.given = func(t *Token) {
		assert(!open, "C06 C11 C27: a token is dropped, or the source is read ahead of need")
		cur, k, open = t, 0, true
	}
	f := mapper.NewFilter(fs...)
	share()
	st := f(jargon.NewTokenStream(src.next))
	assert(!open && !src.ended, "C11: the source is read before the first token is asked for")
	for {
		t, err := st.Next()
		if t == nil || err != nil {
			atEnd(src, t, err)
			assert(!open, "C06 C27: a token is dropped at the end")
			t2, err2 := st.Next()
			assert(t2 == nil && (err2 == err || src.once), "C05 C06 C08: reading after the end gives another outcome")
			return
		}
		assert(open, "C06 C27: a token is returned twice, or one that was mapped to nothing")
		assert(k == n, "C27: not all mapping functions are applied")
		assert(sameTok(t, cur), "C06 C27: another token is returned than the last function's result")
		open = false
	}
}

// Applying none to three filters to a stream, read before or not.
//
//jv:props C10 C25 C27
func H_Compose() {
	n := choose(4)
	k := 0
	src := &source{}
	cur := jargon.NewTokenStream(src.next)
	st := cur
	if choose(2) == 0 {
		st.Scan() // already being read
	}
	fs := make([]jargon.Filter, 0)
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func(in *jargon.TokenStream) *jargon.TokenStream {
			assert(k == i, "C27: filters are not applied once each in the order given")
			assert(in == cur, "C27: a filter is not applied to the result of the one before")
			k++
			s := &source{}
			cur = jargon.NewTokenStream(s.next)
			return cur
		})
	}
	got := st.Filter(fs...)
	assert(k == n, "C27: not all filters are applied")
	assert(got == cur, "C27: the result is not the last filter's stream")
}
