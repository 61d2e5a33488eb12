package zz_jv_harness

import (
	"bytes"
	"fmt"
	"html"
	htmltemplate "html/template"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
)

func abstractText(p *string) { panic(0) } // replaces the text, wherever it occurs, by an unknown one

// ---- templates

// tmpl is a template of html/template, or of text/template.
type tmpl struct {
	text string
	html bool
}

//jv:stub html/template.New
func stubHTMLNew(name string) *tmpl { return &tmpl{html: true} }

//jv:stub text/template.New
func stubTextNew(name string) *tmpl { return &tmpl{} }

//jv:stub (*html/template.Template).Parse
func stubHTMLParse(t *tmpl, text string) (*tmpl, error) {
	t.text = text
	return t, nil
}

//jv:stub (*text/template.Template).Parse
func stubTextParse(t *tmpl, text string) (*tmpl, error) {
	t.text = text
	return t, nil
}

//jv:stub html/template.Must
func stubHTMLMust(t *tmpl, err error) *tmpl { return t }

//jv:stub text/template.Must
func stubTextMust(t *tmpl, err error) *tmpl { return t }

//jv:stub (*html/template.Template).Execute
func stubHTMLExecute(t *tmpl, w io.Writer, data interface{}) error { return t.execute(w, data) }

//jv:stub html/template.HTMLEscapeString
func stubEscapeString(s string) string { return html.EscapeString(s) }

//jv:stub html/template.HTMLEscaper
func stubEscaper(args ...interface{}) string { return html.EscapeString(fmt.Sprint(args...)) }

//jv:stub html/template.HTMLEscape
func stubHTMLEscape(w io.Writer, b []byte) { w.Write([]byte(html.EscapeString(string(b)))) }

func (t *tmpl) execute(w io.Writer, data interface{}) error {
	out, rest := "", t.text
	for {
		i := strings.Index(rest, "{{")
		if i < 0 {
			break
		}
		out += rest[:i]
		rest = rest[i+2:]
		i = strings.Index(rest, "}}")
		action := strings.TrimSpace(rest[:i])
		rest = rest[i+2:]
		if action != "." && action != ".String" {
			undecided("a template action")
		}
		out += t.value(data)
	}
	out += rest
	_, err := w.Write([]byte(out))
	return err
}

func (t *tmpl) value(data interface{}) string {
	text := ""
	switch v := data.(type) {
	case htmltemplate.HTML:
		return string(v)
	case string:
		text = v
	case *Token:
		text = v.String()
	case []byte:
		text = string(v)
	default:
		undecided("the data of a template")
	}
	if t.html {
		text = html.EscapeString(text)
	}
	return text
}

// ---- the server

type route struct {
	pattern string
	h       http.Handler
}

type muxModel struct{ routes []*route }

var defaultMux = &muxModel{}

func (m *muxModel) add(pattern string, h http.Handler) {
	m.routes = append(m.routes, &route{pattern, h})
}

func (m *muxModel) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var best *route
	for _, q := range m.routes {
		n := len(q.pattern)
		if r.URL.Path == q.pattern || q.pattern[n-1] == '/' && strings.HasPrefix(r.URL.Path, q.pattern) {
			if best == nil || n > len(best.pattern) {
				best = q
			}
		}
	}
	if best == nil {
		stubNotFound(w, r)
		return
	}
	best.h.ServeHTTP(w, r)
}

type handlerFunc struct {
	f func(http.ResponseWriter, *http.Request)
}

func (h *handlerFunc) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.f(w, r) }

//jv:stub net/http.HandleFunc
func stubHandleFunc(pattern string, f func(http.ResponseWriter, *http.Request)) {
	defaultMux.add(pattern, &handlerFunc{f})
}

//jv:stub net/http.Handle
func stubHandle(pattern string, h http.Handler) { defaultMux.add(pattern, h) }

//jv:stub net/http.NewServeMux
func stubNewServeMux() *muxModel { return &muxModel{} }

//jv:stub (*net/http.ServeMux).HandleFunc
func stubMuxHandleFunc(m *muxModel, pattern string, f func(http.ResponseWriter, *http.Request)) {
	m.add(pattern, &handlerFunc{f})
}

//jv:stub (*net/http.ServeMux).Handle
func stubMuxHandle(m *muxModel, pattern string, h http.Handler) { m.add(pattern, h) }

//jv:stub (net/http.HandlerFunc).ServeHTTP
func stubHandlerFuncServe(f func(http.ResponseWriter, *http.Request), w http.ResponseWriter, r *http.Request) {
	f(w, r)
}

var serve func(h http.Handler)

//jv:stub net/http.ListenAndServe
func stubListenAndServe(addr string, h http.Handler) error {
	if h == nil {
		h = defaultMux
	}
	if m, ok := modelOf(h).(*muxModel); ok {
		h = m
	}
	serve(h)
	return anyErr()
}

//jv:stub (*net/http.Server).ListenAndServe
func stubServerListen(s *http.Server) error { return stubListenAndServe(s.Addr, s.Handler) }

//jv:stub os.Getenv
func stubGetenv(name string) string { return anyString() }

//jv:stub os.LookupEnv
func stubLookupEnv(name string) (string, bool) { return anyString(), anyBool() }

func canonicalKey(k string) string {
	out := ""
	up := true
	for i := 0; i < len(k); i++ {
		c := k[i]
		if up && 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}
		if !up && 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		out += string([]byte{c})
		up = c == '-'
	}
	return out
}

//jv:stub (net/http.Header).Set
func stubHeaderSet(h http.Header, k, v string) { h[canonicalKey(k)] = []string{v} }

//jv:stub (net/http.Header).Add
func stubHeaderAdd(h http.Header, k, v string) {
	k = canonicalKey(k)
	h[k] = append(h[k], v)
}

//jv:stub (net/http.Header).Del
func stubHeaderDel(h http.Header, k string) { delete(h, canonicalKey(k)) }

//jv:stub (net/http.Header).Get
func stubHeaderGet(h http.Header, k string) string {
	v := h[canonicalKey(k)]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

//jv:stub net/http.NotFound
func stubNotFound(w http.ResponseWriter, r *http.Request) {
	stubHTTPError(w, "404 page not found", 404)
}

//jv:stub net/http.Error
func stubHTTPError(w http.ResponseWriter, msg string, code int) {
	w.Header()["Content-Type"] = []string{"text/plain; charset=utf-8"}
	w.WriteHeader(code)
	io.WriteString(w, msg+"\n")
}

//jv:stub (*bytes.Buffer).WriteTo
func stubBufferWriteTo(b *bytes.Buffer, w io.Writer) (int64, error) {
	n, err := w.Write(b.Bytes())
	b.Reset()
	return int64(n), err
}

//jv:stub io.Copy web
func stubWebCopy(w io.Writer, r io.Reader) (int64, error) {
	if b, ok := r.(*bytes.Buffer); ok {
		return stubBufferWriteTo(b, w)
	}
	undecided("io.Copy")
	return 0, nil
}

// ---- the monitor

// exchange is the monitor of a request and its response.
type exchange struct {
	route  string // text, html or neither
	method string
	path   string
	name   string // a part of the path
	in     *reader
	src    *source
	stream *jargon.TokenStream
	stages int
	want   string
	// the response
	header http.Header
	status int
	cors   bool
	text   string
	failed bool
}

var ex *exchange

// freeze: the headers are sent
func (e *exchange) freeze(code int) {
	if e.status != 0 {
		return
	}
	e.status = code
	o, h := e.header["Access-Control-Allow-Origin"], e.header["Access-Control-Allow-Headers"]
	e.cors = len(o) == 1 && o[0] == "*" && len(h) == 1 && h[0] == "X-Requested-With"
}

func (e *exchange) Header() http.Header { return e.header }

func (e *exchange) WriteHeader(code int) { e.freeze(code) }

func (e *exchange) WriteString(s string) (int, error) { return e.Write([]byte(s)) }

func (e *exchange) Write(b []byte) (int, error) {
	e.freeze(200)
	e.text += string(b)
	if choose(2) == 0 {
		e.failed = true
		return 0, anyErr()
	}
	return len(b), nil
}

//jv:stub github.com/clipperhouse/jargon.Tokenize web
func stubWebTokenize(r io.Reader) *jargon.TokenStream { return ex.tokenize(r, "text") }

//jv:stub github.com/clipperhouse/jargon.TokenizeHTML web
func stubWebTokenizeHTML(r io.Reader) *jargon.TokenStream { return ex.tokenize(r, "html") }

func (e *exchange) tokenize(r io.Reader, kind string) *jargon.TokenStream {
	assert(e.method != "OPTIONS", "C21: an OPTIONS request is processed")
	assert(e.route == kind, "C21: the body is tokenized for another route, or not as the route asks for")
	assert(e.stream == nil, "C21: the body is tokenized twice")
	assert(readerOf(r) == e.in, "C21: another text is tokenized than the body of the request")
	assert(!e.in.drained, "C11: the body is read as a whole")
	return e.stage()
}

func (e *exchange) stage() *jargon.TokenStream {
	k := e.stages
	e.stages++
	e.stream = jargon.NewTokenStream(func() (*Token, error) {
		assert(k == 1, "C21: the tokens are read without looking for lemmas")
		return e.src.next()
	})
	return e.stream
}

func (e *exchange) filter(name string, in *jargon.TokenStream) *jargon.TokenStream {
	assert(name == "stack" && e.stages == 1, "C21: another filter is applied than the one for technology terms")
	assert(in == e.stream, "C21: the filter is applied to another stream than the tokenized body")
	return e.stage()
}

func (e *exchange) given(t *Token) {
	abstractText(&e.want)
	if t.IsLemma() {
		e.want += `<span class="lemma">` + html.EscapeString(t.String()) + `</span>`
	} else {
		e.want += html.EscapeString(t.String())
	}
}

func (e *exchange) run(h http.Handler) {
	ex = e
	share()
	e.src = &source{}
	e.src.given = e.given
	e.in = &reader{}
	e.header = http.Header{}
	r := &http.Request{Method: e.method, URL: &url.URL{Path: e.path}, Body: e.in, Header: http.Header{}}
	h.ServeHTTP(e, r)
	e.freeze(200)
	assert(e.cors, "C21: a response does not carry the CORS headers")
	if e.method == "OPTIONS" {
		assert(e.text == "" && e.status < 300, "C21: an OPTIONS request gets more than the headers")
		return
	}
	if e.route == "" {
		assert(e.status == 404, "C21: an unknown route does not give status 404")
		assert(e.name == "" || !mentions(e.text, e.name), "C21: a part of the request reaches the response unescaped")
		return
	}
	if e.src.err != nil {
		assert(e.status == 500, "C05 C21: a failure does not give status 500")
		assert(e.want == "" || !mentions(e.text, e.want), "C21: a failure gives a partial result")
		return
	}
	if e.failed {
		return // the client is gone
	}
	assert(e.status == 200, "C21: a request that can be answered does not give status 200")
	assert(e.src.ended, "C21: not all tokens are in the response")
	assert(sameText(e.text, e.want), "C21: the response is not the escaped tokens, with the lemmas marked, in order")
}

func startWeb() {
	nameFilter(stackoverflow.Tags, "stack")
	callMain("github.com/clipperhouse/jargon/web")
	fail("C21: the server does not start")
}

func anyMethod() string {
	if anyBool() {
		return "OPTIONS"
	}
	m := anyString()
	assume(m != "OPTIONS")
	return m
}

// Any request for a text or a page.
//
//jv:props C05 C10 C11 C21 C25
//jv:groups newtoken web
//jv:init github.com/clipperhouse/jargon/web
//jv:delay 60
//jv:time 90s
//jv:flags nofold
func H_Web() {
	paths := []string{"/text", "/text/", "/text/x/y", "/html", "/html/", "/html/text"}
	serve = func(h http.Handler) {
		e := &exchange{route: "text", method: anyMethod()}
		k := choose(6)
		e.path = paths[k]
		if k >= 3 {
			e.route = "html"
		}
		e.run(h)
		assume(false)
	}
	startWeb()
}

// Any request for something else.
//
//jv:props C10 C21 C25
//jv:groups newtoken web
//jv:init github.com/clipperhouse/jargon/web
//jv:delay 60
//jv:time 90s
//jv:flags nofold
func H_WebOther() {
	paths := []string{"/", "/texts", "/tex", "/Text", "/HTML", "/x/text", "/x/html/", "/html5", "/_ah", "/_ah/", "/text.html"}
	serve = func(h http.Handler) {
		e := &exchange{method: anyMethod()}
		k := choose(12)
		if k < 11 {
			e.path = paths[k]
		} else {
			name := anyString()
			assume(!strings.Contains(name, "/"))
			assume(name != "text" && name != "html" && name != "_ah/health")
			assume(name != "")
			e.path = "/" + name
			e.name = name
		}
		e.run(h)
		assume(false)
	}
	startWeb()
}

// One request after another one.
//
//jv:props C05 C10 C21 C25
//jv:groups newtoken web
//jv:init github.com/clipperhouse/jargon/web
//jv:delay 60
//jv:time 90s
//jv:flags nofold
func H_WebTwo() {
	serve = func(h http.Handler) {
		e := &exchange{route: "text", method: "POST", path: "/text"}
		e.run(h)
		e = &exchange{route: "html", method: "POST", path: "/html"}
		e.run(h)
		assume(false)
	}
	startWeb()
}
