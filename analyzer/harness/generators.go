package zz_jv_harness

import (
	"io"
	"net/http"
	"time"

	"github.com/PuerkitoBio/goquery"
)

// generation is the monitor of a dictionary generator.
type generation struct {
	failed    string // the step that failed
	rendered  bool
	rendering string // the last template's result
	formatted bool
	source    string // formatted
	out       *output
	written   string
	status    bool // a status other than 200 is a failure
	fetched   int
}

var gen *generation

// ---- text/template

var onTemplate func(text string, data interface{})

//jv:stub (*text/template.Template).Execute
func stubTextExecute(t *tmpl, w io.Writer, data interface{}) error {
	if gen == nil {
		return t.execute(w, data)
	}
	if onTemplate != nil {
		onTemplate(t.text, data)
	}
	s := anyString()
	if choose(2) == 0 {
		gen.failed = "rendering"
		if anyBool() {
			w.Write([]byte(s))
		}
		return anyErr()
	}
	gen.rendered = true
	gen.rendering = s
	_, err := w.Write([]byte(s))
	return err
}

//jv:stub go/format.Source
func stubFormat(src []byte) ([]byte, error) {
	if gen.rendered {
		assert(mentions(string(src), gen.rendering), "C22: another text is formatted than what was rendered")
	}
	if choose(2) == 0 {
		gen.failed = "formatting"
		return nil, anyErr()
	}
	gen.formatted = true
	gen.source = anyString()
	return []byte(gen.source), nil
}

// ---- the network

func respond() (*http.Response, error) {
	gen.fetched++
	if choose(2) == 0 {
		gen.failed = "fetching"
		return nil, anyErr()
	}
	code := anyInt()
	if gen.status && code != 200 {
		gen.failed = "fetching (by its status)"
	}
	return &http.Response{StatusCode: code, Status: anyString(), Body: &reader{text: anyString()}}, nil
}

//jv:stub net/http.Get
func stubGet(url string) (*http.Response, error) { return respond() }

//jv:stub (*net/http.Client).Get
func stubClientGet(c *http.Client, url string) (*http.Response, error) { return respond() }

//jv:stub time.Sleep
func stubSleep(d time.Duration) {}

//jv:stub encoding/json.Unmarshal
func stubUnmarshal(b []byte, v interface{}) error {
	havoc(v)
	if choose(2) == 0 {
		gen.failed = "decoding"
		return anyErr()
	}
	if jsonText(v, "error_name") != "" || jsonText(v, "error_message") != "" {
		gen.failed = "fetching (an error was sent)"
	}
	return nil
}

//jv:stub github.com/PuerkitoBio/goquery.NewDocumentFromReader
func stubNewDocument(r io.Reader) (*goquery.Document, error) {
	readerOf(r).used = true
	if choose(2) == 0 {
		gen.failed = "fetching (parsing)"
		return nil, anyErr()
	}
	return &goquery.Document{Selection: &goquery.Selection{}}, nil
}

//jv:stub (*github.com/PuerkitoBio/goquery.Selection).Find
func stubFind(s *goquery.Selection, sel string) *goquery.Selection { return &goquery.Selection{} }

//jv:stub (*github.com/PuerkitoBio/goquery.Selection).Each
func stubEach(s *goquery.Selection, f func(int, *goquery.Selection)) *goquery.Selection {
	i := 0
	for anyBool() {
		f(i, &goquery.Selection{})
		i++
	}
	return s
}

//jv:stub (*github.com/PuerkitoBio/goquery.Selection).Text
func stubText(s *goquery.Selection) string { return anyString() }

//jv:stub github.com/clipperhouse/jargon/filters/ascii.FoldString gen
func stubFoldString2(s string) (string, bool) {
	if anyBool() {
		return anyString(), true
	}
	return s, false
}

//jv:stub fmt.Errorf gen
func stubErrorf(format string, a ...interface{}) error {
	if gen != nil {
		gen.failed = "a step (an error was made)"
	}
	return anyErr()
}

//jv:stub errors.New gen
func stubErrorsNew(s string) error { return stubErrorf(s) }

// ---- the monitor

func (g *generation) run(main string) {
	gen = g
	g.out = &output{}
	onCreate = func(name string) (*file, error) {
		assert(g.failed == "", "C22: the output file is opened although a step failed")
		assert(g.formatted, "C22: the output file is opened before the source is formatted")
		assert(!g.out.opened, "C22: the output file is opened twice")
		g.out.opened = true
		if choose(2) == 0 {
			g.failed = "creating the file"
			return nil, anyErr()
		}
		return &file{name: name, out: g.out}, nil
	}
	g.out.onWrite = func(s string) { g.written += s }
	onExit = func(code int) {
		if code == 0 {
			g.done()
		}
	}
	callMain(main)
	g.done()
}

// done: the generator ends with success.
func (g *generation) done() {
	if lastReadErr != nil {
		g.failed = "reading"
	}
	assert(g.failed == "", "C22: the generator ends with success although a step failed")
	assert(g.out.opened && g.formatted, "C22: the generator ends with success without writing its output")
	assert(!g.out.failed, "C22: the generator ends with success although the output could not be written")
	assert(!g.out.unflushed, "C22: the generator ends with success without flushing its output")
	assert(sameText(g.written, g.source), "C22: the generator writes something else than the formatted source")
}

// The generator of the contractions.
//
//jv:props C22 C15
//jv:init github.com/clipperhouse/jargon/filters/contractions/generate
//jv:groups newtoken gen
//jv:flags panicexit nofold
func H_GenContractions() {
	table := contractionTable()
	onTemplate = func(text string, data interface{}) {
		assert(sameMap(data, table), "C15: the shipped table is not what the generator produces")
	}
	(&generation{}).run("github.com/clipperhouse/jargon/filters/contractions/generate")
}

func sameMap(a interface{}, b map[string]string) bool { panic(0) }

// The generator of the NBA players.
//
//jv:props C22
//jv:init github.com/clipperhouse/jargon/filters/nba/generate
//jv:groups newtoken gen
//jv:flags panicexit loose
func H_GenNBA() {
	(&generation{status: true}).run("github.com/clipperhouse/jargon/filters/nba/generate")
}

// The generator of the Stack Overflow tags.
//
//jv:props C22
//jv:init github.com/clipperhouse/jargon/filters/stackoverflow/generate
//jv:groups newtoken gen
//jv:flags panicexit loose
func H_GenStackOverflow() {
	(&generation{}).run("github.com/clipperhouse/jargon/filters/stackoverflow/generate")
}
