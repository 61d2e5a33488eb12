package zz_jv_harness

import (
	"io"
	"os"
	"strconv"

	"github.com/clipperhouse/flag"
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/spf13/afero"
)

func nameFilter(f jargon.Filter, name string) { panic(0) } // applications of f are handled by namedFilter

// ---- flags: a model of package flag

type option struct {
	name   string
	isBool bool
	b      *bool
	s      *string
	v      flag.Value
}

var options []*option

//jv:stub github.com/clipperhouse/flag.Bool
func stubFlagBool(name string, def bool, usage string) *bool {
	p := new(bool)
	stubFlagBoolVar(p, name, def, usage)
	return p
}

//jv:stub github.com/clipperhouse/flag.BoolVar
func stubFlagBoolVar(p *bool, name string, def bool, usage string) {
	*p = def
	options = append(options, &option{name: name, isBool: true, b: p})
}

//jv:stub github.com/clipperhouse/flag.String
func stubFlagString(name string, def string, usage string) *string {
	p := new(string)
	stubFlagStringVar(p, name, def, usage)
	return p
}

//jv:stub github.com/clipperhouse/flag.StringVar
func stubFlagStringVar(p *string, name string, def string, usage string) {
	*p = def
	options = append(options, &option{name: name, s: p})
}

//jv:stub github.com/clipperhouse/flag.Var
func stubFlagVar(v flag.Value, name string, usage string) {
	b, ok := v.(interface{ IsBoolFlag() bool })
	options = append(options, &option{name: name, v: v, isBool: ok && b.IsBoolFlag()})
}

//jv:stub github.com/clipperhouse/flag.PrintDefaults
func stubPrintDefaults() { g_os_Stderr.out.text += "usage" }

//jv:stub (*github.com/clipperhouse/flag.FlagSet).Name
func stubFlagSetName(f *flag.FlagSet) string { return "jargon" }

//jv:stub github.com/clipperhouse/flag.Parse
func stubFlagParse() {
	args := g_os_Args[1:]
	for len(args) > 0 {
		a := args[0]
		if len(a) < 2 || a[0] != '-' || a == "--" {
			return
		}
		args = args[1:]
		name := a[1:]
		if name[0] == '-' {
			name = name[1:]
		}
		value, has := "", false
		for i := 1; i < len(name); i++ {
			if name[i] == '=' {
				value, has = name[i+1:], true
				name = name[:i]
				break
			}
		}
		var o *option
		for _, p := range options {
			if p.name == name {
				o = p
			}
		}
		if o == nil {
			badUsage()
			return
		}
		if !has && o.isBool {
			value = "true"
		} else if !has {
			if len(args) == 0 {
				badUsage()
				return
			}
			value, args = args[0], args[1:]
		}
		if o.v != nil {
			if o.v.Set(value) != nil {
				badUsage()
			}
			continue
		}
		if o.isBool {
			on, err := strconv.ParseBool(value)
			if err != nil {
				badUsage()
			}
			*o.b = on
		} else {
			*o.s = value
		}
	}
}

func badUsage() {
	g_os_Stderr.out.text += "usage"
	stubExit(2)
}

// ---- files

type fileInfo struct {
	os.FileInfo
	size int64
	mode os.FileMode
}

func (f *fileInfo) Size() int64       { return f.size }
func (f *fileInfo) Mode() os.FileMode { return f.mode }
func (f *fileInfo) IsDir() bool       { return false }

func (f *file) stat() (os.FileInfo, error) {
	if !cmd.steady && choose(2) == 0 {
		cmd.failed = true
		return nil, anyErr()
	}
	if f == g_os_Stdin {
		return &fileInfo{mode: cmd.mode, size: int64(anyInt())}, nil
	}
	n := int64(anyInt())
	assume(n >= 0)
	return &fileInfo{size: n}, nil
}

//jv:stub (*os.File).Stat
func stubFileStat(f *file) (os.FileInfo, error) { return f.stat() }

type fsModel struct{ afero.Fs }

type fsFile struct {
	afero.File
	f *file
}

//jv:stub github.com/spf13/afero.NewOsFs
func stubNewOsFs() afero.Fs { return &fsModel{} }

func (fs *fsModel) Open(name string) (afero.File, error) {
	f, err := cmd.open(name)
	if err != nil {
		return nil, err
	}
	return &fsFile{f: f}, nil
}

func (fs *fsModel) Create(name string) (afero.File, error) {
	f, err := cmd.create(name)
	if err != nil {
		return nil, err
	}
	return &fsFile{f: f}, nil
}

func (fs *fsModel) OpenFile(name string, flag int, perm os.FileMode) (afero.File, error) {
	if flag == os.O_RDONLY {
		return fs.Open(name)
	}
	return fs.Create(name)
}

func (f *fsFile) Stat() (os.FileInfo, error)        { return f.f.stat() }
func (f *fsFile) Close() error                      { return stubFileClose(f.f) }
func (f *fsFile) Write(b []byte) (int, error)       { return f.f.write(string(b)) }
func (f *fsFile) WriteString(s string) (int, error) { return f.f.write(s) }
func (f *fsFile) Sync() error                       { return stubFileSync(f.f) }
func (f *fsFile) Read(b []byte) (int, error)        { panic("read") }
func (f *fsFile) Name() string                      { return f.f.name }

//jv:stub os.Open
func stubOpen(name string) (*file, error) { return cmd.open(name) }

// ---- the monitor

// command is the monitor of the command line tool.
type command struct {
	// what is asked for
	filters            []string
	lang               string
	html, count, lines bool
	filein, fileout    string
	mode               os.FileMode // of the standard input
	steady             bool        // nothing fails
	// what happens
	failed  bool // something failed
	opened  bool // the input file
	in      *reader
	out     *output
	stream  *jargon.TokenStream // the last stage
	stages  int
	src     *source
	n       int
	want    string
	checked bool
}

var cmd *command

func (c *command) piped() bool { return c.mode&os.ModeCharDevice == 0 }

func (c *command) badLang() bool {
	switch c.lang {
	case "", "english", "french", "norwegian", "russian", "spanish", "swedish":
		return false
	}
	for _, f := range c.filters {
		if f == "stem" {
			return true
		}
	}
	return false
}

// inputOK tells whether there is one input.
func (c *command) inputOK() bool {
	return c.piped() != (c.filein != "") && (c.filein == "" || c.opened)
}

func (c *command) open(name string) (*file, error) {
	assert(name == c.filein, "C19: another file is read than the one asked for")
	if !c.steady && choose(2) == 0 {
		c.failed = true
		return nil, anyErr()
	}
	c.opened = true
	return &file{name: name, rd: c.in}, nil
}

func (c *command) create(name string) (*file, error) {
	assert(name == c.fileout, "C19: another file is created than the one asked for")
	assert(c.inputOK(), "C19: the output file is created before the input is accepted")
	assert(!c.badLang(), "C19 C20: the output file is created although the filter options are not accepted")
	assert(!c.failed, "C19: the output file is created after a failure")
	assert(!c.out.opened, "C19: the output file is created twice")
	if !c.steady && choose(2) == 0 {
		c.failed = true
		return nil, anyErr()
	}
	c.out.opened = true
	return &file{name: name, out: c.out}, nil
}

//jv:stub github.com/clipperhouse/jargon.Tokenize cli
func stubCmdTokenize(r io.Reader) *jargon.TokenStream { return cmd.tokenize(r, false) }

//jv:stub github.com/clipperhouse/jargon.TokenizeHTML cli
func stubCmdTokenizeHTML(r io.Reader) *jargon.TokenStream { return cmd.tokenize(r, true) }

func (c *command) tokenize(r io.Reader, html bool) *jargon.TokenStream {
	assert(c.stream == nil, "C19: the input is tokenized twice")
	assert(readerOf(r) == c.in, "C19: another input is tokenized than the one asked for")
	assert(!c.in.drained, "C11: the input is read as a whole")
	assert(html == c.html, "C19 C20: the input is not parsed as asked for")
	return c.stage()
}

// stage makes the stream that follows.
func (c *command) stage() *jargon.TokenStream {
	k := c.stages
	c.stages++
	c.stream = jargon.NewTokenStream(func() (*Token, error) {
		assert(k == len(c.filters), "C20: the tokens are read without applying all filters that were asked for")
		return c.src.next()
	})
	return c.stream
}

func (c *command) filter(name string, in *jargon.TokenStream) *jargon.TokenStream {
	assert(in == c.stream, "C20 C27: a filter is applied to another stream than the one before it gives")
	assert(c.stages-1 < len(c.filters), "C20: a filter is applied that was not asked for")
	want := c.filters[c.stages-1]
	if want == "stem" {
		want = "stem:" + c.lang
		if c.lang == "" {
			want = "stem:english"
		}
	}
	assert(want == name, "C20: another filter is applied than the one asked for, or in another order")
	return c.stage()
}

func namedFilter(name string, in *jargon.TokenStream) *jargon.TokenStream {
	if ex != nil {
		return ex.filter(name, in)
	}
	return cmd.filter(name, in)
}

//jv:stub (*github.com/clipperhouse/jargon.TokenStream).Lemmas cli
func stubCmdLemmas(in *jargon.TokenStream) *jargon.TokenStream { return cmd.filter("lemmas", in) }

//jv:stub (*github.com/clipperhouse/jargon.TokenStream).Distinct cli
func stubCmdDistinct(in *jargon.TokenStream) *jargon.TokenStream { return cmd.filter("distinct", in) }

// compare compares what was written with what has to be.
func (c *command) compare() {
	if c.out.failed || c.count {
		return
	}
	assert(sameText(c.out.text, c.want), "C11 C19: what is written is not the tokens, in order, as they are read")
	c.out.text, c.want = "", ""
}

func (c *command) given(t *Token) {
	c.compare()
	if c.count {
		c.n++
		return
	}
	c.want = t.String()
	if c.lines {
		c.want += "\n"
	}
}

func (c *command) exit(code int) {
	if code == 0 {
		c.done()
		return
	}
	assert(g_os_Stderr.out.text != "" && g_os_Stderr.out.text != "\n", "C19: a failure is not reported on standard error")
	assert(c.failed || c.out.failed || c.src.err != nil || c.badLang() || !c.inputOK(), "C19 C20: the command fails without a failure, or does not accept an option")
}

// done: the command ends with success.
func (c *command) done() {
	assert(!c.failed, "C19: the command ends with success although it could not open or examine a file")
	if !c.piped() && c.filein == "" {
		return // the usage is shown
	}
	assert(c.inputOK(), "C19: the command ends with success although the input is not acceptable")
	assert(!c.badLang(), "C20: the command ends with success although the language is not known")
	assert(c.stages == len(c.filters)+1, "C19 C20: the command ends with success without applying the filters")
	assert(c.src.ended, "C19: the command ends with success without reading all of its input")
	assert(c.src.err == nil, "C05 C19: the command ends with success although its input could not be read")
	assert(c.out.opened, "C19: the command ends with success without creating the output file")
	assert(!c.out.failed, "C19: the command ends with success although its output could not be written")
	assert(!c.out.unflushed, "C19: the command ends with success without flushing its output")
	if c.count {
		assert(sameText(c.out.text, strconv.Itoa(c.n)+"\n"), "C19: what is written is not the count")
		return
	}
	c.compare()
}

func (c *command) run(args []string) {
	cmd = c
	g_os_Args = append([]string{"jargon"}, args...)
	c.src = &source{noErr: c.steady}
	c.src.given = c.given
	c.out = g_os_Stdout.out
	if c.fileout != "" {
		c.out = &output{}
	}
	c.out.steady = c.steady
	c.in = g_os_Stdin.rd
	if c.filein != "" {
		c.in = &reader{}
	}
	onCreate = c.create
	onExit = c.exit
	nameFilter(ascii.Fold, "ascii")
	nameFilter(contractions.Expand, "contractions")
	nameFilter(stackoverflow.Tags, "stack")
	nameFilter(stemmer.English, "stem:english")
	nameFilter(stemmer.French, "stem:french")
	nameFilter(stemmer.Norwegian, "stem:norwegian")
	nameFilter(stemmer.Russian, "stem:russian")
	nameFilter(stemmer.Spanish, "stem:spanish")
	nameFilter(stemmer.Swedish, "stem:swedish")
	callMain("github.com/clipperhouse/jargon/cmd/jargon")
	c.done()
}

var filterNames = []string{"ascii", "contractions", "lemmas", "distinct", "stack", "stem"}

// The command's input and output, for any failure of its environment.
//
//jv:props C05 C11 C19 C20 C25
//jv:groups newtoken cli
//jv:init github.com/clipperhouse/jargon/cmd/jargon
//jv:delay 40
//jv:flags nofold
func H_Command() {
	c := &command{lang: "english"}
	var args []string
	switch choose(4) {
	case 0:
		args = append(args, "-html")
		c.html = true
	case 1:
		args = append(args, "-count")
		c.count = true
	case 2:
		args = append(args, "-lines")
		c.lines = true
	}
	if anyBool() {
		args = append(args, "-file", "in.txt")
		c.filein = "in.txt"
	}
	if anyBool() {
		args = append(args, "-out", "out.txt")
		c.fileout = "out.txt"
	}
	switch choose(3) {
	case 0:
		args = append(args, "-stem")
		c.filters = []string{"stem"}
	case 1:
		args = append(args, "-stem", "-lang=klingon")
		c.filters = []string{"stem"}
		c.lang = "klingon"
	}
	if anyBool() {
		c.mode = os.ModeCharDevice
	}
	c.run(args)
}

// form adds a filter option in one of its forms.
func (c *command) form(args []string, name string) []string {
	switch choose(6) {
	case 0:
		args = append(args, "-"+name)
	case 1:
		args = append(args, "--"+name)
	case 2:
		args = append(args, "-"+name+"=true")
	case 3:
		args = append(args, "--"+name+"=1")
	case 4:
		args = append(args, "-"+name+"=T")
	case 5:
		return append(args, "-"+name+"=false")
	}
	c.filters = append(c.filters, name)
	return args
}

// Any one filter option, in any form, among other options.
//
//jv:props C20 C25
//jv:groups newtoken cli
//jv:init github.com/clipperhouse/jargon/cmd/jargon
//jv:delay 40
//jv:flags nofold
func H_CommandForms() {
	c := &command{lang: "english", steady: true}
	var args []string
	k := choose(6)
	switch choose(5) {
	case 0:
		args = append(args, "-lines")
		c.lines = true
	case 1:
		args = append(args, "-out", "-stem") // a value
		c.fileout = "-stem"
	case 2:
		args = append(args, "-lang", "-ascii", "-lang=english") // a value
	case 3:
		args = append(args, "-out=1")
		c.fileout = "1"
	}
	args = c.form(args, filterNames[k])
	switch choose(4) {
	case 0:
		args = append(args, "--lines=0")
		c.lines = false
	case 1:
		args = append(args, "--", "-ascii") // not an option
	case 2:
		args = append(args, "stem", "-stem") // neither
	}
	c.run(args)
}

// Any three filter options.
//
//jv:props C20 C25 C27
//jv:groups newtoken cli
//jv:init github.com/clipperhouse/jargon/cmd/jargon
//jv:delay 40
//jv:flags nofold
func H_CommandFilters() {
	c := &command{lang: "english", steady: true}
	var args []string
	for i := 0; i < 3; i++ {
		name := filterNames[choose(6)]
		args = append(args, "-"+name)
		c.filters = append(c.filters, name)
	}
	c.run(args)
}

// Any language.
//
//jv:props C20 C25
//jv:groups newtoken cli
//jv:init github.com/clipperhouse/jargon/cmd/jargon
//jv:delay 40
//jv:flags nofold
func H_CommandLang() {
	c := &command{steady: true}
	langs := []string{"english", "french", "norwegian", "russian", "spanish", "swedish", "klingon", "", "English", "danish"}
	c.lang = langs[choose(10)]
	var args []string
	switch choose(3) {
	case 0:
		args = []string{"-stem", "-lang", c.lang}
		c.filters = []string{"stem"}
	case 1:
		args = []string{"--lang=" + c.lang, "-stem", "-ascii", "-stem"}
		c.filters = []string{"stem", "ascii", "stem"}
	case 2:
		args = []string{"-lang", "french", "-lemmas", "--stem", "-lang", c.lang}
		c.filters = []string{"lemmas", "stem"}
	}
	c.run(args)
}
