seed('c05-unexpected-eof','C05',[('tokenizer_html.go','''		if err == io.EOF {
''','''		if err == io.EOF || err == io.ErrUnexpectedEOF {
''')],'.','''package jargon

import (
	"io"
	"strings"
	"testing"
	"testing/iotest"
)

type cut struct{ r io.Reader }

func (c *cut) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func TestZZDemo(t *testing.T) {
	s, err := TokenizeHTML(&cut{iotest.OneByteReader(strings.NewReader("<p>hello"))}).String()
	if err == nil {
		t.Fatalf("truncated input is taken as complete: %q", s)
	}
}
''','a reader that fails with io.ErrUnexpectedEOF (a body that was cut off)','The failure is presented as the end of the stream')
seed('c05-partial-slice','C05',[('tokenstream.go','''	if err := stream.Err(); err != nil {
		return nil, stream.Err()
	}

	return result, nil
''','''	if err := stream.Err(); err != nil && len(result) == 0 {
		return nil, stream.Err()
	}

	return result, nil
''')],'.','''package jargon

import (
	"errors"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := 0
	st := NewTokenStream(func() (*Token, error) {
		n++
		if n > 2 {
			return nil, errors.New("broken")
		}
		return NewToken("x", false), nil
	})
	if ts, err := st.ToSlice(); err == nil {
		t.Fatalf("a partial result is presented as complete: %q", ts)
	}
}
''','a failure after some tokens were read','ToSlice returns a part of the tokens without an error')
seed('c06-removed-space','C06',[('filters/synonyms/filter.go','''			t.buffer.Drop(consumed)
''','''			t.buffer.Drop(consumed)
			if canonical == "" && t.buffer.Any() && t.buffer.Tokens[0].IsSpace() {
				// Don't leave two spaces behind
				t.buffer.Pop()
			}
''')],'filters/synonyms','''package synonyms

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter(map[string]string{"very": "", "very very good": "great"}, true, []rune{' '})
	got, err := jargon.TokenizeString("a very nice day").Filter(f).String()
	if err != nil || got != "a  nice day" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a removed word, with its following space already looked at (a dictionary with longer synonyms)','A token that is not replaced is dropped')
seed('c06-queue-front','C06',[('filters/sigil/filter.go','''	// Queue the lookahead for later
	s.outgoing.Push(lookahead)
''','''	// Queue the lookahead for later, unless it can be disregarded
	if lookahead.String() != sigil {
		s.outgoing.Push(lookahead)
	}
''')],'filters/sigil','''package sigil

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter("@", func(s string) bool { return s == "foo" })
	got, err := jargon.TokenizeString("@@bar").Filter(f).String()
	if err != nil || got != "@@bar" {
		t.Fatalf("%q %v", got, err)
	}
}
''','two sigils in a row','The second sigil is dropped')
seed('c07-stem-length','C07',[('filters/stemmer/filter.go','''		return jargon.NewToken(stemmed, true)
''','''		// A different ending only is still the same word
		return jargon.NewToken(stemmed, len(stemmed) != len(token.String()))
''')],'filters/stemmer','''package stemmer

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	ts, err := jargon.TokenizeString("happy").Filter(English).ToSlice()
	if err != nil || len(ts) != 1 || ts[0].String() != "happi" || !ts[0].IsLemma() {
		t.Fatalf("%q %v", ts, err)
	}
}
''','a word whose stem is as long as the word','A token produced by a filter is not marked as a lemma')
seed('c07-norm-always','C07',[('filters/norm/filter.go','''		if form.IsNormalString(token.String()) {
			return token
		}

		s := form.String(token.String())
		return jargon.NewToken(s, true)
''','''		if form.QuickSpanString(token.String()) == len(token.String()) {
			return token
		}

		s := form.String(token.String())
		return jargon.NewToken(s, true)
''')],'filters/norm','''package norm

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"golang.org/x/text/unicode/norm"
)

func TestZZDemo(t *testing.T) {
	for r := rune(1); r < 0x30000; r++ {
		tok := jargon.NewToken("a"+string(r)+"b", false)
		if !norm.NFC.IsNormalString(tok.String()) {
			continue
		}
		n := 0
		st := jargon.NewTokenStream(func() (*jargon.Token, error) {
			n++
			if n > 1 {
				return nil, nil
			}
			return tok, nil
		})
		got, err := NFC(st).Next()
		if err != nil || got != tok {
			t.Fatalf("%U is replaced although it is normal", r)
		}
	}
}
''','text that is normal, but has a rune for which the quick check says maybe','A token is replaced although its text does not change')
seed('c10-trie-cache','C10',[('filters/synonyms/trie/trie.go','''	ignoreCase bool
}

// New''','''	ignoreCase bool

	// the first rune of the last search that failed; text is often repetitive
	miss rune
}

// New'''),('filters/synonyms/trie/trie.go','''			n = n.children[r]
			if n == nil {
				break outer
			}
''','''			if r == t.miss && i == 0 && n == t.root {
				break outer
			}

			parent := n
			n = n.children[r]
			if n == nil {
				if parent == t.root {
					t.miss = r
				}
				break outer
			}
''')],'filters/synonyms','''package synonyms

import (
	"strings"
	"sync"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter(map[string]string{"foo": "bar"}, true, nil)
	f(jargon.TokenizeString("x"))
	var wg sync.WaitGroup
	for _, s := range []string{"a b foo ", "c d foo "} {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			got, err := jargon.TokenizeString(strings.Repeat(s, 1000)).Filter(f).String()
			if err != nil || got != strings.Repeat(s[:4]+"bar ", 1000) {
				t.Errorf("%.20q %v", got, err)
			}
		}()
	}
	wg.Wait()
}
''','two streams of the same filter at the same time','Searching writes to the trie, which all streams share',race=True)
seed('c10-stop-memo','C10',[('filters/stopwords/filter.go','''		key := token.String()
		if t.filter.ignoreCase {
			key = strings.ToLower(token.String())
		}
''','''		key := token.String()
		if t.filter.ignoreCase && !t.filter.includes[key] {
			lower := strings.ToLower(key)
			if t.filter.includes[lower] {
				// Remember this variation
				t.filter.includes[key] = true
			}
			key = lower
		}
''')],'filters/stopwords','''package stopwords

import (
	"strings"
	"sync"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter([]string{"the"}, true)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got, err := jargon.TokenizeString(strings.Repeat("THE THe ThE tHE x", 100)).Filter(f).Words().Distinct().String()
			if err != nil || !strings.Contains(got, "x") {
				t.Errorf("%q %v", got, err)
			}
		}()
	}
	wg.Wait()
}
''','two streams of the same filter at the same time, with stop words in other case','Reading writes to the set of stop words, which all streams share',race=True)
seed('c11-past-punct','C11',[('filters/synonyms/filter.go','''		t.buffer.Push(token)

		if token.IsPunct() {
			break
		}

		if token.IsSpace() {
			continue
		}
''','''		t.buffer.Push(token)

		if token.IsPunct() && !token.IsSpace() {
			break
		}

		if token.IsSpace() {
			continue
		}
''')],'filters/synonyms','''package synonyms

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter(map[string]string{"one two three": "x"}, true, []rune{' '})
	src := jargon.TokenizeString("foo\\nbar baz")
	read := 0
	st := f(jargon.NewTokenStream(func() (*jargon.Token, error) { read++; return src.Next() }))
	if _, err := st.Next(); err != nil || read > 2 {
		t.Fatalf("read %d tokens to decide the first one: %v", read, err)
	}
}
''','a line break or tab (both space and punctuation) within the words looked ahead','More is read than needed to decide the next token')
seed('c11-expand-ahead','C11',[('filters/contractions/filter.go','''	token, err := t.incoming.Next()
	if err != nil {
		return nil, err
	}
	if token == nil {
		return nil, nil
	}
''','''	token, err := t.incoming.Next()
	if err != nil {
		return nil, err
	}
	if token == nil {
		return nil, nil
	}
	if token.IsSpace() && token.IsPunct() {
		// Line breaks come in runs, collect these
		for {
			t.outgoing.Push(token)
			token, err = t.incoming.Next()
			if err != nil {
				return nil, err
			}
			if token == nil {
				return t.outgoing.Pop(), nil
			}
			if !token.IsSpace() {
				break
			}
		}
		t.outgoing.Push(token)
		return t.outgoing.Pop(), nil
	}
''')],'filters/contractions','''package contractions

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	src := jargon.TokenizeString("\\n\\n\\nfoo bar")
	read := 0
	st := Expand(jargon.NewTokenStream(func() (*jargon.Token, error) { read++; return src.Next() }))
	if _, err := st.Next(); err != nil || read > 1 {
		t.Fatalf("read %d tokens to decide the first one: %v", read, err)
	}
}
''','line breaks','Tokens are read ahead although one is ready')
seed('c12-same-canonical','C12',[('filters/synonyms/trie/trie.go','''		if n.hasCanonical && n != result {
			// only capture results if it's a different node
''','''		if n.hasCanonical && n != result && !(found && n.canonical == canonical) {
			// only capture results if it's a different node, with a different result
''')],'filters/synonyms','''package synonyms

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter(map[string]string{"go, go language": "golang"}, true, nil)
	got, err := jargon.TokenizeString("the go language rules").Filter(f).String()
	if err != nil || got != "the golang rules" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a synonym that begins with another synonym of the same term','Not the longest run is replaced')
seed('c12-fold','C12',[('filters/synonyms/trie/trie.go','''			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}

			child := n.children[r]
''','''			if t.ignoreCase {
				r = unicode.ToLower(unicode.ToUpper(r))
			}

			if t.ignore[r] {
				continue
			}

			child := n.children[r]
''')],'filters/synonyms','''package synonyms

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter(map[string]string{"pikaçı": "x"}, true, nil)
	got, err := jargon.TokenizeString("a pikaçı here").Filter(f).String()
	if err != nil || got != "a x here" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a synonym with a rune such as the dotless i, with upper and lower case that are no round trip','Dictionary and text are normalized differently')
seed('c13-spaces','C13',[('filters/synonyms/filter.go','''	words := 0
	for _, token := range tokens {
		if !token.IsSpace() && !token.IsPunct() {
			words++
		}
	}
''','''	words := 1
	for _, token := range tokens {
		if token.IsSpace() {
			words++
		}
	}
''')],'filters/synonyms','''package synonyms

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter(map[string]string{"日本": "Japan"}, true, nil)
	got, err := jargon.TokenizeString("a 日本 b").Filter(f).String()
	if err != nil || got != "a Japan b" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a synonym of several words with no space between them','The filter does not look ahead far enough')
seed('c13-one-space','C13',[('filters/synonyms/filter.go','''			if skipSpaces && token.IsSpace() {
				start++
				continue
			}
''','''			if skipSpaces && token.IsSpace() {
				start++
				skipSpaces = false
				continue
			}
''')],'filters/synonyms','''package synonyms

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	f := NewFilter(map[string]string{"foo,\\n\\tbar": "x"}, true, nil)
	got, err := jargon.TokenizeString("a bar here").Filter(f).String()
	if err != nil || got != "a x here" {
		t.Fatalf("%q %v", got, err)
	}
}
''','more than one space token after a comma','A synonym is entered with leading space, and not found')
seed('c15-table','C15',[('filters/contractions/generated.go','''	"Couldn’t":  "Could not",
''','''	"Couldn’t":  "could not",
''')],'filters/contractions','''package contractions

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	got, err := jargon.TokenizeString("Couldn’t").Filter(Expand).String()
	if err != nil || got != "Could not" {
		t.Fatalf("%q %v", got, err)
	}
}
''','that word, capitalized and with a typographic apostrophe','The expansion has another case than the contraction')
seed('c15-mixed','C15',[('filters/contractions/filter.go','''	if ignoreCase {
		key = strings.ToLower(key)
	}
''','''	if ignoreCase {
		lower := strings.ToLower(key)
		if len(lower) == len(key) && lower[1:] == key[1:] {
			// Only the first letter differs, has been tried
			return false, nil
		}
		if strings.ToUpper(key) == key {
			return false, nil
		}
		key = strings.Replace(lower, "’", "'", 1)
		if strings.HasSuffix(token.String(), "T") {
			// Shouting in part
			key = strings.ToUpper(key)
		}
	}
''')],'filters/contractions','''package contractions

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	got, err := jargon.TokenizeString("dOn'T").Filter(Expand).String()
	if err != nil || got != "do not" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a contraction in mixed case that ends in a capital','A mixture of case does not expand as in lower case')
seed('c19-count-flush','C19',[('cmd/jargon/main.go','''		c.Writer.WriteString(strconv.Itoa(count) + "\\n")
		err = c.Writer.Flush()
		if err != nil {
			return err
		}
		return nil
''','''		_, err = c.Writer.WriteString(strconv.Itoa(count) + "\\n")
		c.Writer.Flush()
		return err
''')],'cmd/jargon','''package main

import (
	"bufio"
	"errors"
	"strings"
	"testing"
)

type full struct{}

func (full) Write(b []byte) (int, error) { return 0, errors.New("no space left on device") }

func TestZZDemo(t *testing.T) {
	c := config{Count: true, Reader: bufio.NewReader(strings.NewReader("a b c")), Writer: bufio.NewWriter(full{})}
	if err := execute(&c); err == nil {
		t.Fatal("success, although nothing was written")
	}
}
''','a count, and an output that cannot be written','The command succeeds although the count was not written')
seed('c19-newline','C19',[('cmd/jargon/main.go','''		if c.Lines {
			_, err''','''		if c.Lines && token.String() != "\\r\\n" {
			_, err''')],'cmd/jargon','''package main

import (
	"bufio"
	"bytes"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	c := config{Lines: true, Reader: bufio.NewReader(strings.NewReader("a\\r\\nb")), Writer: bufio.NewWriter(&b)}
	if err := execute(&c); err != nil || b.String() != "a\\n\\r\\n\\nb\\n" {
		t.Fatalf("%q %v", b.String(), err)
	}
}
''','input with line breaks of carriage return and line feed','A token is not followed by a line break')
seed('c20-repeat','C20',[('cmd/jargon/main.go','''			c.Filters = append(c.Filters, filter)
''','''			if i == 0 || args[i-1] != args[i] {
				// Repeating it has no effect
				c.Filters = append(c.Filters, filter)
			}
''')],'cmd/jargon','''package main

import "testing"

func TestZZDemo(t *testing.T) {
	var c config
	if err := setFilters(&c, []string{"-stem", "-stem"}, ""); err != nil || len(c.Filters) != 2 {
		t.Fatal(len(c.Filters), err)
	}
}
''','a filter given twice in a row','A filter is not applied once per occurrence')
seed('c20-lang','C20',[('cmd/jargon/main.go','''	"norwegian": stemmer.Norwegian,
''','''	"norwegian": stemmer.Swedish,
''')],'cmd/jargon','''package main

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stemmer"
)

func TestZZDemo(t *testing.T) {
	var c config
	if err := setFilters(&c, []string{"-stem", "-lang", "norwegian"}, "norwegian"); err != nil || len(c.Filters) != 1 {
		t.Fatal(len(c.Filters), err)
	}
	for _, w := range []string{"havnedistriktene", "havnedistrikter", "opningen", "byråkratiets", "jakten", "hunder"} {
		a, _ := jargon.TokenizeString(w).Filter(c.Filters[0]).String()
		b, _ := jargon.TokenizeString(w).Filter(stemmer.Norwegian).String()
		if a != b {
			t.Fatal(w, a, b)
		}
	}
}
''','the language Norwegian','The stem filter uses another language than requested')
seed('c21-punct','C21',[('web/main.go','''		if t.IsLemma() {
			err = lemma.Execute(&b, t)
		} else {
''','''		if t.IsLemma() {
			err = lemma.Execute(&b, t)
		} else if t.IsPunct() {
			// Nothing to escape
			_, err = b.WriteString(t.String())
		} else {
''')],'web','''package main

import (
	"net/http/httptest"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/html", strings.NewReader("<b onclick=x>hi</b>")))
	if strings.Contains(w.Body.String(), "<b") {
		t.Fatal(w.Body.String())
	}
}
''','an HTML request with tags (which are punctuation)','A part of the request reaches the response unescaped')
seed('c21-partial','C21',[('web/main.go','''		if err != nil {
			log.Print(err)
			w.WriteHeader(500)
			return
		}
		if t == nil {
			break
		}
''','''		if err != nil && b.Len() == 0 {
			log.Print(err)
			w.WriteHeader(500)
			return
		}
		if t == nil {
			break
		}
''')],'web','''package main

import (
	"errors"
	"io"
	"net/http/httptest"
	"strings"
	"testing"
)

type broken struct{ r io.Reader }

func (c *broken) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func TestZZDemo(t *testing.T) {
	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/html", &broken{strings.NewReader("<b>one</b> two, three <i>four</i> ")}))
	if w.Code != 500 {
		t.Fatal(w.Code, w.Body.String())
	}
}
''','a request body that fails after some tokens','A failure gives a partial result with status 200')
seed('c22-early','C22',[('filters/nba/generate/main.go','''	formatted, fmtErr := format.Source([]byte(split))
	if fmtErr != nil {
		return fmtErr
	}

	f, createErr := os.Create("generated.go")
	if createErr != nil {
		return createErr
	}
	defer f.Close()
''','''	f, createErr := os.Create("generated.go")
	if createErr != nil {
		return createErr
	}
	defer f.Close()

	formatted, fmtErr := format.Source([]byte(split))
	if fmtErr != nil {
		return fmtErr
	}
''')],'filters/nba/generate','''package main

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	ioutil.WriteFile("generated.go", []byte("old"), 0644)
	if err := write(map[string]string{`x"}y`: "z"}); err == nil {
		t.Skip("no failure")
	}
	b, _ := ioutil.ReadFile("generated.go")
	if string(b) != "old" {
		t.Fatalf("the dictionary is lost: %q", b)
	}
}
''','a name that makes the rendered source invalid','The output file is truncated before the source was formatted')
seed('c22-fallback','C22',[('filters/contractions/generate/main.go','''	if fmtErr != nil {
		return fmtErr
	}
''','''	if fmtErr != nil {
		// Write it anyway, it can be formatted by hand
		fmt.Fprintln(os.Stderr, fmtErr)
		formatted = []byte(split)
	}
''')],'filters/contractions/generate','''package main

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	contractions = map[string]string{`x"}y`: "z"}
	err = write()
	b, _ := ioutil.ReadFile("generated.go")
	if err == nil || len(b) > 0 {
		t.Fatalf("a broken dictionary is written: %v", err)
	}
}
''','a contraction that makes the rendered source invalid','A dictionary that does not compile is written, with success')
seed('c24-equalfold','C24',[('filters/contractions/filter.go','''	if ignoreCase {
		key = strings.ToLower(key)
	}

	expansion, found := mappings[key]
''','''	expansion, found := mappings[key]
	if ignoreCase {
		for k, v := range mappings {
			if strings.EqualFold(k, key) {
				expansion, found = v, true
				break
			}
		}
	}
''')],'filters/contractions','''package contractions

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		got, err := jargon.TokenizeString("dOn't").Filter(Expand).String()
		if err != nil || got != "do not" {
			t.Fatalf("%q %v", got, err)
		}
	}
}
''','a contraction in mixed case; several runs','The expansion depends on the order of iteration over a map')
seed('c25-underscore','C25',[('filters/twitter/filter.go','''	length := 0
	for _, r := range s {
		length++
''','''	if s[0] == '_' && s[1] == '_' && len(s) > 15 {
		// Reserved, and too long anyway
		return false
	}

	length := 0
	for _, r := range s {
		length++
''')],'filters/twitter','''package twitter

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	got, err := jargon.TokenizeString("@_ x").Filter(Handles).String()
	if err != nil || got != "@_ x" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a handle that is a single underscore','The filter panics')
seed('c25-title','C25',[('filters/contractions/filter.go','''	expansion, found := mappings[key]

	if found {
''','''	if cut := strings.LastIndex(key, "’"); ignoreCase && cut > 0 {
		// Normalize the apostrophe, all are one rune
		tail := key[cut+3:]
		if tail[0] == 's' && tail[1:] == "" {
			key = key[:cut] + "’s"
		}
	}

	expansion, found := mappings[key]

	if found {
''')],'filters/contractions','''package contractions

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	n := 0
	st := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n > 1 {
			return nil, nil
		}
		return jargon.NewToken("the girls’", false), nil
	})
	if _, err := Expand(st).Next(); err != nil {
		t.Fatal(err)
	}
}
''','a token that ends in a typographic apostrophe','The filter panics')
seed('c26-missing-fold','C26',[('filters/nba/generated.go','''	"Jusuf Nurkić, Jusuf Nurkic":           "Jusuf Nurkić",
''','''	"Jusuf Nurkić":                         "Jusuf Nurkić",
''')],'filters/nba','''package nba

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	got, err := jargon.TokenizeString("jusuf nurkic").Filter(CurrentPlayers).String()
	if err != nil || got != "Jusuf Nurkić" {
		t.Fatalf("%q %v", got, err)
	}
}
''','that name, without its diacritic','A player is not recognized with diacritics folded')
seed('c26-conflict','C26',[('filters/stackoverflow/generated.go','''	"nodejs, io.js":         "node.js",
''','''	"nodejs, io.js, Go-Lang": "node.js",
''')],'filters/stackoverflow','''package stackoverflow

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	got, err := jargon.TokenizeString("golang").Filter(Tags).String()
	if err != nil || got != "go" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a term with two entries that are the same after normalization','Two entries claim the same synonym for different terms')
