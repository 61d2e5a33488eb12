package zz_jv_harness

import (
	"errors"
	"fmt"
	"io"
	"os"
)

func callMain(pkg string)                       { panic(0) } // runs a command
func modelOf(v interface{}) interface{}         { panic(0) } // the object of this package behind a value
func havoc(p interface{})                       { panic(0) } // sets what p points to, to any value
func mentions(text, part string) bool           { panic(0) } // whether a text is made from another one
func jsonText(p interface{}, key string) string { panic(0) } // the text that a JSON key was decoded to

// ---- files

// file is a file, or a standard stream.
type file struct {
	name   string
	rd     *reader // for reading
	out    *output // for writing
	closed bool
}

// output is where a command's result goes.
type output struct {
	text      string // written, or buffered, since the monitor looked at it last
	unflushed bool
	failed    bool
	opened    bool
	err       error
	steady    bool // never fails
	onWrite   func(s string)
}

func (o *output) put(s string) error {
	if o.onWrite != nil {
		o.onWrite(s)
	}
	o.text += s
	if !o.steady && choose(2) == 0 {
		o.failed = true
		o.err = anyErr()
		return o.err
	}
	return nil
}

var g_os_Stdin = &file{name: "stdin", rd: &reader{}}
var g_os_Stdout = &file{name: "stdout", out: &output{opened: true}}
var g_os_Stderr = &file{name: "stderr", out: &output{opened: true}}
var g_os_Args []string

func fileOf(w interface{}) *file {
	switch f := modelOf(w).(type) {
	case *file:
		return f
	case *fsFile:
		return f.f
	}
	undecided("an unknown file")
	return nil
}

func undecided(msg string) { panic(0) } // gives up

func (f *file) write(s string) (int, error) {
	if f == g_os_Stderr {
		f.out.text += s
		return len(s), nil
	}
	assert(f.out != nil, "C19 C22: a file is written that is not the output")
	if err := f.out.put(s); err != nil {
		return 0, err
	}
	return len(s), nil
}

//jv:stub (*os.File).Write
func stubFileWrite(f *file, b []byte) (int, error) { return f.write(string(b)) }

//jv:stub (*os.File).WriteString
func stubFileWriteString(f *file, s string) (int, error) { return f.write(s) }

//jv:stub (*os.File).Close
func stubFileClose(f *file) error {
	f.closed = true
	if anyBool() {
		return anyErr()
	}
	return nil
}

//jv:stub (*os.File).Sync
func stubFileSync(f *file) error {
	if f.out != nil && anyBool() {
		f.out.failed = true
		return anyErr()
	}
	return nil
}

// create is called when a file is opened for writing.
var onCreate func(name string) (*file, error)

//jv:stub os.Create
func stubCreate(name string) (*file, error) { return onCreate(name) }

//jv:stub os.OpenFile
func stubOpenFile(name string, flag int, perm os.FileMode) (*file, error) { return onCreate(name) }

//jv:stub os.WriteFile
func stubWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := onCreate(name)
	if err != nil {
		return err
	}
	_, err = f.write(string(data))
	return err
}

//jv:stub io/ioutil.WriteFile
func stubIoutilWriteFile(name string, data []byte, perm os.FileMode) error {
	return stubWriteFile(name, data, perm)
}

// ---- the end of a process

var onExit func(code int)

//jv:stub os.Exit
func stubExit(code int) {
	onExit(code)
	assume(false)
}

//jv:stub log.Fatal
func stubLogFatal(v ...interface{}) {
	g_os_Stderr.out.text += "fatal"
	stubExit(1)
}

//jv:stub log.Fatalf
func stubLogFatalf(format string, v ...interface{}) {
	g_os_Stderr.out.text += "fatal"
	stubExit(1)
}

//jv:stub log.Fatalln
func stubLogFatalln(v ...interface{}) {
	g_os_Stderr.out.text += "fatal"
	stubExit(1)
}

//jv:stub log.Print
func stubLogPrint(v ...interface{}) {}

//jv:stub log.Println
func stubLogPrintln(v ...interface{}) {}

//jv:stub log.Printf
func stubLogPrintf(format string, v ...interface{}) {}

// ---- formatted output

//jv:stub fmt.Fprint
func stubFprint(w io.Writer, a ...interface{}) (int, error) {
	return io.WriteString(w, fmt.Sprint(a...))
}

//jv:stub fmt.Fprintln
func stubFprintln(w io.Writer, a ...interface{}) (int, error) {
	return io.WriteString(w, fmt.Sprintln(a...))
}

//jv:stub fmt.Fprintf
func stubFprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return io.WriteString(w, fmt.Sprintf(format, a...))
}

//jv:stub fmt.Print
func stubPrint(a ...interface{}) (int, error) { return g_os_Stdout.write(fmt.Sprint(a...)) }

//jv:stub fmt.Println
func stubPrintln(a ...interface{}) (int, error) { return g_os_Stdout.write(fmt.Sprintln(a...)) }

//jv:stub fmt.Printf
func stubPrintf(format string, a ...interface{}) (int, error) {
	return g_os_Stdout.write(fmt.Sprintf(format, a...))
}

//jv:stub io.WriteString
func stubIoWriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

// ---- buffered output

type bufWriter struct {
	dst  *file
	size int
	err  error
}

//jv:stub bufio.NewWriter
func stubNewWriter(w io.Writer) *bufWriter { return &bufWriter{dst: fileOf(w), size: 4096} }

//jv:stub bufio.NewWriterSize
func stubNewWriterSize(w io.Writer, n int) *bufWriter { return &bufWriter{dst: fileOf(w), size: n} }

func (b *bufWriter) put(s string) (int, error) {
	if b.err != nil {
		return 0, b.err
	}
	if err := b.dst.out.put(s); err != nil {
		b.err = err
		return 0, err
	}
	b.dst.out.unflushed = true
	return len(s), nil
}

//jv:stub (*bufio.Writer).Write
func stubBufWrite(b *bufWriter, p []byte) (int, error) { return b.put(string(p)) }

//jv:stub (*bufio.Writer).WriteString
func stubBufWriteString(b *bufWriter, s string) (int, error) { return b.put(s) }

//jv:stub (*bufio.Writer).WriteByte
func stubBufWriteByte(b *bufWriter, c byte) error {
	_, err := b.put(string([]byte{c}))
	return err
}

//jv:stub (*bufio.Writer).WriteRune
func stubBufWriteRune(b *bufWriter, r rune) (int, error) { return b.put(string(r)) }

//jv:stub (*bufio.Writer).Flush
func stubBufFlush(b *bufWriter) error {
	if b.err != nil {
		return b.err
	}
	if !b.dst.out.steady && choose(2) == 0 {
		b.dst.out.failed = true
		b.err = anyErr()
		return b.err
	}
	b.dst.out.unflushed = false
	return nil
}

//jv:stub (*bufio.Writer).Size
func stubBufSize(b *bufWriter) int { return b.size }

//jv:stub (*bufio.Reader).Size
func stubReaderSize(r *reader) int {
	n := anyInt()
	assume(n >= 16)
	return n
}

//jv:stub strconv.ParseBool
func stubParseBool(s string) (bool, error) {
	switch s {
	case "1", "t", "T", "true", "TRUE", "True":
		return true, nil
	case "0", "f", "F", "false", "FALSE", "False":
		return false, nil
	}
	return false, errors.New("invalid syntax")
}
