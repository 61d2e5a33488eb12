seed('c08-scan-skip','C08',[('tokenstream.go','''	for stream.Scan() {
		count++
	}
''','''	for stream.Scan() {
		count++
		if stream.Token().IsLemma() && count > 1 {
			// a lemma stands for the token before it
			count--
		}
	}
''')],'.','''package jargon

import "testing"

func TestZZDemo(t *testing.T) {
	ts := []*Token{NewToken("x", false), NewToken("y", true), NewToken("z", false)}
	i := 0
	s := NewTokenStream(func() (*Token, error) {
		if i == len(ts) {
			return nil, nil
		}
		i++
		return ts[i-1], nil
	})
	n, err := s.Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}
}
''','a stream holding a lemma that is not first','Count returns less than the number of tokens')
seed('c09-distinct-case','C09',[('tokenstream.go','''		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
''','''		key := t.String()
		if t.IsLemma() {
			key = strings.ToLower(key)
		}
		found := seen[key]
		if !found {
			seen[key] = true
		}
''')],'.','''package jargon

import "testing"

func TestZZDemo(t *testing.T) {
	ts := []*Token{NewToken("x", false), NewToken("X", true)}
	i := 0
	s := NewTokenStream(func() (*Token, error) {
		if i == len(ts) {
			return nil, nil
		}
		i++
		return ts[i-1], nil
	})
	n, err := s.Distinct().Count()
	if err != nil || n != 2 {
		t.Fatal(n, err)
	}
}
''','a lemma with upper case letters after another token that equals it in lower case','Distinct drops the first token of a value')
seed('c23-flush-alias','C23',[('tokenqueue/queue.go','''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''','''	if !dst.Any() {
		// Optimization, no need to copy
		dst.Tokens = q.Tokens
	} else {
		dst.Tokens = append(dst.Tokens, q.Tokens...)
	}
	q.Clear()
''')],'tokenqueue','''package tokenqueue

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	a, b, c := jargon.NewToken("a1", false), jargon.NewToken("b1", false), jargon.NewToken("c1", false)
	q, d := New(a, b), New()
	q.FlushTo(d)
	q.Push(c)
	if d.Len() != 2 || d.Tokens[0] != a || d.Tokens[1] != b {
		t.Fatal(d)
	}
}
''','flushing into an empty queue, then pushing to the first','a push to one queue changes the contents of another')
seed('c17-stem-apostrophe','C17',[('filters/stemmer/filter.go','''		if stemmed == token.String() {
''','''		if len(stemmed) >= len(token.String()) {
''')],'filters/stemmer','''package stemmer

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	in := jargon.TokenizeString("HAPPY")
	got, err := in.Filter(English).String()
	if err != nil || got != "happi" {
		t.Fatal(got, err)
	}
}
''','a word whose stem is as long as the word','a word is not replaced although its stem differs')
seed('c27-filter-started','C27',[('tokenstream.go','''	for _, f := range filters {
		outgoing = f(outgoing)
	}
''','''	for _, f := range filters {
		if stream.token != nil {
			// Already being read, its position is the one that counts
			outgoing = f(stream)
			continue
		}
		outgoing = f(outgoing)
	}
''')],'.','''package jargon

import "testing"

func TestZZDemo(t *testing.T) {
	upper := func(in *TokenStream) *TokenStream {
		return NewTokenStream(func() (*Token, error) {
			tok, err := in.Next()
			if tok == nil || err != nil {
				return tok, err
			}
			return NewToken(tok.String()+"1", true), nil
		})
	}
	s := TokenizeString("xx yy")
	s.Next()
	got, err := s.Filter(upper, upper).String()
	if err != nil || got != " 11yy11" {
		t.Fatalf("%q %v", got, err)
	}
}
''','two or more filters applied to a stream of which a token was already read','only the last filter is applied')
