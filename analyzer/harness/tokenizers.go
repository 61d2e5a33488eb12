package zz_jv_harness

import (
	"io"

	"github.com/clipperhouse/jargon"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

func bytesRef(s *string) []byte  { panic(0) } // bytes that change with s
func anyAtom() atom.Atom         { panic(0) }
func anyAttrs() []html.Attribute { panic(0) }

// readerOf is the model behind a reader.
func readerOf(r io.Reader) *reader {
	switch m := modelOf(r).(type) {
	case *reader:
		return m
	case *file:
		return m.rd
	case *fsFile:
		return m.f.rd
	}
	undecided("an unknown reader")
	return nil
}

// reader is an arbitrary io.Reader, by the text it delivers.
type reader struct {
	text    string
	plain   bool // cannot fail
	drained bool // read as a whole
	used    bool
}

// Read is not analysed: readers are read by the models of the packages that take them.
func (r *reader) Read(p []byte) (int, error) { panic("read") }

// Close makes it an io.ReadCloser.
func (r *reader) Close() error { return nil }

//jv:stub strings.NewReader
func stubNewReader(s string) *reader { return &reader{text: s, plain: true} }

//jv:stub bytes.NewReader
func stubBytesNewReader(b []byte) *reader { return &reader{text: string(b), plain: true} }

//jv:stub bufio.NewReader
func stubBufioNewReader(r io.Reader) *reader { return readerOf(r) }

//jv:stub bufio.NewReaderSize
func stubBufioNewReaderSize(r io.Reader, n int) *reader { return readerOf(r) }

//jv:stub (*bufio.Reader).Peek
func stubBufioPeek(m *reader, n int) ([]byte, error) {
	if m.text == "" {
		return nil, io.EOF
	}
	a, _ := takeText(m.text)
	if len(a) < n {
		return []byte(a), io.EOF
	}
	assume(len(a) == n)
	return []byte(a), nil
}

//jv:stub (*bufio.Reader).Discard
func stubBufioDiscard(m *reader, n int) (int, error) {
	if n <= 0 {
		return 0, nil
	}
	if m.text == "" {
		return 0, io.EOF
	}
	// the rest is another text, however it is read
	m.text = anyString()
	if choose(2) == 0 {
		return n, nil
	}
	m.text = ""
	return n - 1, io.EOF
}

//jv:stub io.LimitReader
func stubLimitReader(r io.Reader, n int64) io.Reader {
	m := readerOf(r)
	if m.text != "" && choose(2) == 0 {
		a, _ := takeText(m.text)
		return &reader{text: a, plain: m.plain}
	}
	return m
}

//jv:stub io.TeeReader
func stubTeeReader(r io.Reader, w io.Writer) io.Reader { return r }

//jv:stub io.NopCloser
func stubNopCloser(r io.Reader) io.ReadCloser { return readerOf(r) }

//jv:stub io/ioutil.NopCloser
func stubIoutilNopCloser(r io.Reader) io.ReadCloser { return readerOf(r) }

//jv:stub io.ReadAll
func stubReadAll(r io.Reader) ([]byte, error) {
	m := readerOf(r)
	m.drained = true
	m.used = true
	if !m.plain && choose(2) == 0 {
		lastReadErr = anyErr()
		a, b := m.text, ""
		if choose(2) == 0 {
			a, b = takeText(m.text)
		}
		m.text = b
		return []byte(a), lastReadErr
	}
	t := m.text
	m.text = ""
	return []byte(t), nil
}

//jv:stub io/ioutil.ReadAll
func stubIoutilReadAll(r io.Reader) ([]byte, error) { return stubReadAll(r) }

var lastReadErr error

// scanner models the word scanner: it splits the text of its reader into non-empty pieces, or fails at any point.
type scanner struct {
	s       *int // the embedded scanner
	rest    string
	cur     string
	all     string
	got     string
	started bool
	pending bool // a piece was scanned that the monitor has not seen yet
	done    bool
	err     error
}

var theScanner *scanner     // the scanner in use
var onScan func(s *scanner) // called before a further piece is scanned
var noScanErr bool

//jv:stub github.com/clipperhouse/uax29/words.NewScanner
func stubNewScanner(r io.Reader) *scanner {
	m := readerOf(r)
	assert(!m.used, "C01 C02 C08: a reader is scanned twice")
	m.used = true
	theScanner = &scanner{rest: m.text, all: m.text}
	return theScanner
}

//jv:stub (*github.com/clipperhouse/uax29/iterators.Scanner).Scan
func stubScan(s *scanner) bool {
	s.started = true
	s.cur = ""
	if onScan != nil {
		onScan(s)
	}
	if s.done {
		return false
	}
	if !noScanErr && choose(2) == 0 {
		s.done = true
		s.err = anyErr()
		assume(s.err != io.EOF)
		return false
	}
	if s.rest == "" {
		s.done = true
		return false
	}
	s.cur, s.rest = takeText(s.rest)
	s.pending = true
	return true
}

//jv:stub (*github.com/clipperhouse/uax29/iterators.Scanner).Text
func stubScanText(s *scanner) string { return s.cur }

//jv:stub (*github.com/clipperhouse/uax29/iterators.Scanner).Bytes
func stubScanBytes(s *scanner) []byte { return bytesRef(&s.cur) }

//jv:stub (*github.com/clipperhouse/uax29/iterators.Scanner).Err
func stubScanErr(s *scanner) error { return s.err }

//jv:stub (*bufio.Scanner).Buffer
func stubScanBuffer(s *int, buf []byte, max int) {}

// plainToken checks a token made of a piece of text.
func plainToken(t *Token, text string) {
	assert(t.String() == text, "C01 C02 C03 C06 C12 C13 C15: a token's value is not the text scanned")
	assert(!t.IsLemma(), "C07: a token of the input is marked as a lemma")
	assert(t.IsPunct() == isPunctText(text) && t.IsSpace() == isSpaceText(text), "C03 C04: a token of the input is not classified by its text")
}

func plainText(st *jargon.TokenStream, input string, fails bool) {
	out := ""
	onScan = func(s *scanner) {
		assert(!s.pending, "C01 C06 C11: a piece of the input is dropped, or read ahead of need")
	}
	assert(theScanner == nil || !theScanner.started, "C11: the input is read before the first token is asked for")
	for {
		t, err := st.Next()
		sc := theScanner
		if err != nil {
			assert(t == nil, "C05 C08: a token is returned together with an error")
			assert(fails && lastReadErr != nil && err == lastReadErr || sc.err != nil && err == sc.err, "C05 C08: the error reported is not the reader's")
			t2, err2 := st.Next()
			assert(t2 == nil && err2 == err, "C05 C08: reading after an error gives another outcome")
			return
		}
		if t == nil {
			assert(sc.done, "C01 C06 C11 C12 C13 C15: the stream ends before its input")
			assert(lastReadErr == nil && sc.err == nil, "C01 C05: a failure of the reader is presented as the end of the stream")
			assert(sameText(out, input), "C01 C12 C13 C15: the tokens do not add up to the input")
			t2, err2 := st.Next()
			assert(t2 == nil && err2 == nil, "C01 C05 C08: reading after the end gives another outcome")
			return
		}
		assert(sc.pending, "C01 C06 C08: a token is returned that was not read, or twice")
		sc.pending = false
		plainToken(t, sc.cur)
		out += t.String()
	}
}

// Tokenizing any text from any reader.
//
//jv:props C01 C04 C05 C07 C08 C10 C11 C25
func H_Tokenize() {
	input := anyString()
	rd := &reader{text: input}
	st := jargon.Tokenize(rd)
	assert(!rd.drained, "C11: the input is read as a whole")
	plainText(st, input, true)
	assert(!rd.drained, "C11: the input is read as a whole")
}

// Tokenizing any string.
//
//jv:props C01 C12 C13 C15 C04 C05 C07 C08 C10 C11 C25
func H_TokenizeString() {
	input := anyString()
	plainText(jargon.TokenizeString(input), input, false)
}

// ---- HTML

// htmlTok models the HTML tokenizer: tags, comments and text, or the failure of its reader, in any order.
type htmlTok struct {
	raw   string // the bytes of the current token
	valid bool   // not overwritten yet
	ended bool
	err   error
	tok   html.Token
	inRaw atom.Atom // after the start tag of a script or style
	text  bool      // ... and its text
}

var theHTML *htmlTok
var onHTML func(kind int, raw string) // 1: markup, 2: text of a script or style, 3: other text, 0: the end

//jv:stub golang.org/x/net/html.NewTokenizer
func stubNewTokenizer(r io.Reader) *htmlTok {
	m := readerOf(r)
	assert(!m.used, "C02 C08: a reader is tokenized twice")
	m.used = true
	theHTML = &htmlTok{}
	return theHTML
}

func (h *htmlTok) markup(t html.TokenType, a atom.Atom) {
	h.tok = html.Token{Type: t, DataAtom: a, Data: anyString()}
	if t == html.StartTagToken || t == html.SelfClosingTagToken {
		h.tok.Attr = anyAttrs()
	}
	onHTML(1, h.raw)
}

func htmlAtom() atom.Atom {
	switch choose(4) {
	case 0:
		return atom.Script
	case 1:
		return atom.Style
	case 2:
		return 0 // an unknown element
	default:
		a := anyAtom()
		assume(a != atom.Script && a != atom.Style && a != 0)
		return a
	}
}

func anyText() string {
	s := anyString()
	assume(s != "")
	return s
}

//jv:stub (*golang.org/x/net/html.Tokenizer).Next
func stubHTMLNext(h *htmlTok) html.TokenType {
	h.next()
	return h.tok.Type
}

func (h *htmlTok) next() {
	h.raw = ""
	h.valid = true
	h.tok = html.Token{}
	if h.ended {
		return
	}
	switch choose(3) {
	case 0:
		// the end, perhaps with an unfinished tag
		onHTML(0, "")
		h.ended = true
		h.err = io.EOF
		if h.inRaw == 0 && choose(2) == 0 {
			h.raw = anyText()
			onHTML(1, h.raw)
		}
		return
	case 1:
		onHTML(0, "")
		h.ended = true
		h.err = anyErr()
		assume(h.err != io.EOF)
		if choose(2) == 0 {
			h.raw = anyText()
		}
		return
	}
	h.raw = anyText()
	if h.inRaw != 0 {
		if !h.text && choose(2) == 0 {
			h.text = true
			h.tok = html.Token{Type: html.TextToken, Data: anyString()}
			onHTML(2, h.raw)
			return
		}
		a := h.inRaw
		h.inRaw = 0
		h.markup(html.EndTagToken, a)
		return
	}
	switch choose(6) {
	case 0:
		a := htmlAtom()
		h.markup(html.StartTagToken, a)
		if a == atom.Script || a == atom.Style {
			h.inRaw = a
			h.text = false
		}
	case 1:
		h.markup(html.EndTagToken, htmlAtom())
	case 2:
		// HTML disregards the slash: the text of <script/> follows, too
		a := htmlAtom()
		h.markup(html.SelfClosingTagToken, a)
		if a == atom.Script || a == atom.Style {
			h.inRaw = a
			h.text = false
		}
	case 3:
		h.markup(html.CommentToken, 0)
	case 4:
		h.markup(html.DoctypeToken, 0)
	case 5:
		h.tok = html.Token{Type: html.TextToken, Data: anyString()}
		onHTML(3, h.raw)
	}
}

//jv:stub (*golang.org/x/net/html.Tokenizer).Raw
func stubHTMLRaw(h *htmlTok) []byte { return bytesRef(&h.raw) }

//jv:stub (*golang.org/x/net/html.Tokenizer).Token
func stubHTMLToken(h *htmlTok) html.Token {
	// unescapes in place
	h.raw = anyString()
	return h.tok
}

// A token printed again need not be what was read.
//
//jv:stub (golang.org/x/net/html.Token).String
func stubHTMLTokenString(t html.Token) string { return anyString() }

//jv:stub golang.org/x/net/html.EscapeString
func stubNetHTMLEscape(s string) string { return fn1("html.EscapeString", s) }

//jv:stub golang.org/x/net/html.UnescapeString
func stubNetHTMLUnescape(s string) string { return fn1("html.UnescapeString", s) }

//jv:stub (*golang.org/x/net/html.Tokenizer).Text
func stubHTMLText(h *htmlTok) []byte {
	h.raw = anyString()
	return []byte(anyString())
}

//jv:stub (*golang.org/x/net/html.Tokenizer).TagName
func stubHTMLTagName(h *htmlTok) ([]byte, bool) {
	switch h.tok.DataAtom {
	case atom.Script:
		return []byte("script"), anyBool()
	case atom.Style:
		return []byte("style"), anyBool()
	}
	n := anyString()
	assume(n != "script" && n != "style")
	return []byte(n), anyBool()
}

//jv:stub (*golang.org/x/net/html.Tokenizer).Err
func stubHTMLErr(h *htmlTok) error { return h.err }

//jv:stub golang.org/x/net/html/atom.Lookup
func stubAtomLookup(b []byte) atom.Atom {
	switch string(b) {
	case "script":
		return atom.Script
	case "style":
		return atom.Style
	}
	a := anyAtom()
	assume(a != atom.Script && a != atom.Style)
	return a
}

// Tokenizing any HTML.
//
//jv:props C02 C03 C04 C05 C07 C08 C10 C11 C25
func H_HTML() {
	kind := 0 // what is to be returned next
	raw := "" // its text
	out := "" // the part of it (text) that was returned
	scanned := false
	rd := &reader{}
	pendingText := func() {
		if kind == 3 {
			assert(scanned, "C02 C03: text is not tokenized")
			assert(sameText(out, raw), "C02 C03 C06: a part of a text is dropped")
			kind = 0
		}
	}
	onHTML = func(k int, r string) {
		pendingText()
		assert(kind == 0, "C02 C03 C06 C11: a tag, comment or script is dropped, or read ahead of need")
		kind, raw, out, scanned = k, r, "", false
		theScanner = nil
	}
	onScan = func(s *scanner) {
		assert(!s.pending, "C02 C03 C06 C11: a part of a text is dropped, or read ahead of need")
	}
	st := jargon.TokenizeHTML(rd)
	assert(theHTML != nil && !theHTML.ended && kind == 0, "C11: the input is read before the first token is asked for")
	assert(!rd.drained, "C11: the input is read as a whole")
	for {
		t, err := st.Next()
		if err != nil {
			assert(t == nil, "C05 C08: a token is returned together with an error")
			assert(theHTML.err != nil && err == theHTML.err || theScanner != nil && err == theScanner.err, "C05 C08: the error reported is not the reader's")
			assert(err != io.EOF, "C05 C02 C08: the end is reported as an error")
			t2, err2 := st.Next()
			assert(t2 == nil && err2 == err, "C05 C08: reading after an error gives another outcome")
			return
		}
		if t == nil {
			pendingText()
			assert(kind == 0, "C02 C03 C06: the end of the input is dropped")
			assert(theHTML.ended, "C02 C06: the stream ends before its input")
			assert(theHTML.err == io.EOF, "C02 C05: a failure of the reader is presented as the end of the stream")
			t2, err2 := st.Next()
			assert(t2 == nil && err2 == nil, "C02 C05 C08: reading after the end gives another outcome")
			return
		}
		assert(!t.IsLemma(), "C07: a token of the input is marked as a lemma")
		switch kind {
		case 0:
			fail("C02 C03 C06: a token is returned that was not read, or twice")
		case 1:
			assert(t.String() == raw, "C02 C03: the text of a tag, comment or doctype is altered, or not one token")
			assert(t.IsPunct(), "C03: a tag, comment or doctype is not punctuation")
			kind = 0
		case 2:
			assert(t.String() == raw, "C02 C03: the text of a script or style is altered, or not one token")
			assert(!t.IsPunct() && !t.IsSpace(), "C03: the text of a script or style is punctuation or space")
			kind = 0
		case 3:
			assert(theScanner != nil, "C02 C03: a text is not tokenized like plain text")
			scanned = true
			assert(sameText(theScanner.all, raw), "C02 C03: another text is tokenized than the input's")
			assert(theScanner.pending, "C02 C03 C06: a token is returned that was not read, or twice")
			theScanner.pending = false
			plainToken(t, theScanner.cur)
			out += t.String()
		}
	}
}
