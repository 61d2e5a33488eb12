seed('c01-bom','C01',[('tokenizer.go','''	if t.sc.Scan() {
		token := NewToken(t.sc.Text(), false)
		return token, nil
	}
''','''	for t.sc.Scan() {
		if t.sc.Text() == "\\uFEFF" {
			// Byte order mark, not content
			continue
		}
		token := NewToken(t.sc.Text(), false)
		return token, nil
	}
''')],'.','''package jargon

import "testing"

func TestZZDemo(t *testing.T) {
	in := "\\uFEFF hello"
	s, err := TokenizeString(in).String()
	if err != nil || s != in {
		t.Fatalf("%q %v", s, err)
	}
}
''','input with a byte order mark that is a segment of its own','The byte order mark is dropped: the tokens do not add up to the input')
seed('c02-crlf','C02',[('tokenizer_html.go','''			return t.ttokens.Next()
''','''			first, err := t.ttokens.Next()
			if err == nil && first.String() == "\\r\\n" {
				// A line break directly after a tag is insignificant
				return t.next()
			}
			return first, err
''')],'.','''package jargon

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	in := "<pre>\\r\\nfoo</pre>"
	s, err := TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || s != in {
		t.Fatalf("%q %v", s, err)
	}
}
''','a text node that starts with a carriage return and line feed','The line break after a tag is dropped from the tokens')
seed('c03-script-attr','C03',[('tokenizer_html.go','''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
''','''		inline := htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style
		for _, attr := range htoken.Attr {
			if attr.Key == "async" {
				// External, has no content
				inline = false
			}
		}
		if inline {
''')],'.','''package jargon

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ts, err := TokenizeHTML(strings.NewReader(`<script async>var a = 1</script>`)).ToSlice()
	if err != nil || len(ts) != 3 {
		t.Fatal(ts, err)
	}
}
''','a script element that has an async attribute','The content of the script is split into words')
seed('c04-space','C04',[('token.go','''			if !unicode.IsSpace(r) {
''','''			if !unicode.In(r, unicode.Zs, unicode.Cc) {
''')],'.','''package jargon

import "testing"

func TestZZDemo(t *testing.T) {
	if !NewToken("\\u2028", false).IsSpace() {
		t.Fatal("line separator is space")
	}
	if NewToken("\\x00", false).IsSpace() {
		t.Fatal("NUL is not space")
	}
}
''','a line or paragraph separator, or a control character','Tokens are misclassified as space, or not')
seed('c14-latin1','C14',[('filters/ascii/fold.go','''		if r < '\\u0080' {
''','''		if r < '\\u00C0' {
''')],'filters/ascii','''package ascii

import "testing"

func TestZZDemo(t *testing.T) {
	for in, want := range map[string]string{"\\u00ab": "\\"", "\\u00b2": "2", "\\u00bb": "\\""} {
		if got, ok := FoldString(in); got != want || !ok {
			t.Fatal(in, got, ok)
		}
	}
}
''','a guillemet or superscript digit of Latin-1','Characters between U+0080 and U+00BF are not folded')
seed('c14-tilde','C14',[('filters/ascii/fold.go',"""				'\\u2053', // ⁓  [SWUNG DASH]
				'\\uFF5E': // ～  [FULLWIDTH TILDE]
""","""				'\\u2053': // ⁓  [SWUNG DASH]
""")],'filters/ascii',"""package ascii

import "testing"

func TestZZDemo(t *testing.T) {
	if got, ok := FoldString("\\uFF5E"); got != "~" || !ok {
		t.Fatal(got, ok)
	}
}
""",'a fullwidth tilde','The fullwidth tilde is not folded')
seed('c16-boundary','C16',[('filters/sigil/filter.go',"""	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()
""","""	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct() || s.previous.IsLemma()
""")],'filters/twitter',"""package twitter

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	s := jargon.TokenizeString("@foo@bar").Filter(Handles).Lemmas()
	n, err := s.Count()
	if n != 1 || err != nil {
		t.Fatal(n, err)
	}
}
""",'a sigil directly after a coalesced handle or another lemma','A handle is recognized although it follows a word')
seed('c16-length','C16',[('filters/twitter/filter.go','''	length := utf8.RuneCountInString(s)
	if length == 1 {
''','''	if len(s) == 1 {
''')],'filters/twitter','''package twitter

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	s := jargon.TokenizeString("#\\u0663").Filter(Hashtags).Lemmas() // arabic-indic digit three
	n, err := s.Count()
	if n != 0 || err != nil {
		t.Fatal(n, err)
	}
}
''','a hashtag of one rune that is a number outside of ASCII','A single-rune hashtag that is not a letter is accepted')
