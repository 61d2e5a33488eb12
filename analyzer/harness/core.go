// Package zz_jv_harness holds the environments and monitors of the static analysis in /verif. It is never
// compiled or run: the analyzer interprets it abstractly, together with the repository's packages.
package zz_jv_harness

import (
	"github.com/clipperhouse/jargon"
)

type Token = jargon.Token

// ---- intrinsics, implemented by the analyzer

func choose(n int) int                        { panic(0) } // any of 0..n-1
func anyBool() bool                           { panic(0) }
func anyInt() int                             { panic(0) }
func anyString() string                       { panic(0) }
func anyRunes() []rune                        { panic(0) }
func anyStrings() []string                    { panic(0) }
func anyTokenPtr() *Token                     { panic(0) } // a token with unknown content
func anyTokens() []*Token                     { panic(0) }
func anyErr() error                           { panic(0) } // a non-nil error
func assert(ok bool, msg string)              { panic(0) }
func fail(msg string)                         { panic(0) }
func assume(ok bool)                          { panic(0) }
func sameSeq(a, b []*Token) bool              { panic(0) } // the same tokens in the same order, provably
func sameStrs(a, b []string) bool             { panic(0) }
func textOf(a []*Token) string                { panic(0) } // concatenation of the values
func joinStrs(a []string) string              { panic(0) }
func sameText(a, b string) bool               { panic(0) } // provably equal
func takeText(s string) (a, b string)         { panic(0) } // s = a+b, a not empty
func isPunctText(s string) bool               { panic(0) } // uninterpreted
func isSpaceText(s string) bool               { panic(0) } // uninterpreted
func outside(s, set string) int               { panic(0) } // the number of runes that are not in a named set
func runeCount(s string) int                  { panic(0) }
func share()                                  { panic(0) } // what exists now may be used by other streams at the same time
func trace(msg string)                        { panic(0) }
func sameTok(a, b *Token) bool                { panic(0) } // identical pointers, provably
func fn1(name string, s string) string        { panic(0) } // uninterpreted function of a text
func fn2(name string, n int, s string) string { panic(0) }
func pr1(name string, s string) bool          { panic(0) } // uninterpreted predicate of a text

// anyToken is a token as it may come from a tokenizer or filter.
func anyToken() *Token {
	t := anyTokenPtr()
	assume(t.String() != "")
	return t
}

//jv:stub github.com/clipperhouse/jargon.NewToken newtoken
func stubNewToken(s string, lemma bool) *Token {
	if s == "" {
		return nil
	}
	t := anyTokenPtr()
	assume(t.String() == s)
	assume(t.IsLemma() == lemma)
	assume(t.IsPunct() == isPunctText(s))
	assume(t.IsSpace() == isSpaceText(s))
	return t
}

// source is an arbitrary source of tokens.
type source struct {
	given func(*Token)
	ended bool
	err   error
	noErr bool
	once  bool // a failure is reported only once
}

func (s *source) next() (*Token, error) {
	if s.ended {
		if s.once {
			return nil, nil
		}
		return nil, s.err
	}
	switch choose(3) {
	case 0:
		s.ended = true
		return nil, nil
	case 1:
		assume(!s.noErr)
		s.ended = true
		s.err = anyErr()
		s.once = anyBool()
		return nil, s.err
	default:
		t := anyToken()
		if s.given != nil {
			s.given(t)
		}
		return t, nil
	}
}

// reader of a stream: what came out
func sameToken(a, b *Token) bool {
	if sameTok(a, b) {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a.String() == b.String() && a.IsPunct() == b.IsPunct() && a.IsSpace() == b.IsSpace() && a.IsLemma() == b.IsLemma()
}

// atEnd checks the end of a stream that reads from src: t is nil.
func atEnd(src *source, t *Token, err error) {
	if err != nil {
		assert(t == nil, "C05 C08: a token is returned together with an error")
		assert(src.ended, "C05 C06 C08: an error is reported although the source did not fail")
		assert(err == src.err, "C05: the error reported is not the source's error")
		return
	}
	assert(src.ended, "C06 C08 C09 C11 C27: the stream ends before its source has ended")
	assert(src.err == nil, "C05 C06: a failure of the source is presented as the end of the stream")
}
