package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// Bytes is a byte string that survives JSON.
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) {
	return []byte(strconv.QuoteToASCII(strconv.QuoteToASCII(string(b)))), nil
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	s, err := strconv.Unquote(string(d))
	if err != nil {
		return err
	}
	s, err = strconv.Unquote(s)
	*b = Bytes(s)
	return err
}

// Act is something the simulated caller code does at one of its invocations.
type Act struct {
	On  string `json:"on"` // read write dialect visit pre post
	At  int    `json:"at"` // which invocation, from 0
	Do  string `json:"do"`
	Val string `json:"val,omitempty"`
	Op  *Op    `json:"op,omitempty"`
	N   int    `json:"n,omitempty"`
}

// ReadPlan is the behaviour of a simulated source.
type ReadPlan struct {
	Chunks   []int  `json:"chunks,omitempty"` // sizes of the first reads, 0 is a read without data
	Rest     int    `json:"rest,omitempty"`   // size of all later reads, 0 is no limit
	With     bool   `json:"with,omitempty"`   // the last data comes together with the error
	Scribble bool   `json:"scribble,omitempty"`
	FailAt   int    `json:"fail_at"` // byte offset of the failure, -1 never
	Err      string `json:"err,omitempty"`
	After    string `json:"after,omitempty"` // what a read after the end gives: "" the same, more, other, eof, resume
	StallAt  int    `json:"stall_at"`        // byte offset where the source stalls, -1 never
	Wrap     string `json:"wrap,omitempty"`  // what else the source can do: "", rich, bufio, limited, counted
}

// WritePlan is the behaviour of a simulated sink.
type WritePlan struct {
	Kind   string `json:"kind"`    // plain, string, full (WriteString, WriteByte, WriteRune, ReadFrom)
	FailAt int    `json:"fail_at"` // byte offset of the failure, -1 never
	Accept string `json:"accept"`  // how much of the failing write is accepted: short, none, full
	Err    string `json:"err,omitempty"`
}

type simError struct{ id string }

func (e *simError) Error() string { return "simulated failure " + e.id }

type sliceError struct{ l []int }

func (e sliceError) Error() string        { return fmt.Sprint("simulated slice error ", e.l) }
func (e sliceError) Is(target error) bool { _, ok := target.(sliceError); return ok }

var errKinds = []string{"custom", "custom", "custom", "unexpected", "wrapeof", "closedpipe", "canceled", "deadline", "slice", "noprogress", "eintr", "xeof", "eofname", "shortwrite", "temporary", "timeout", "eagain", "patherror", "joined", "nested"}

type eofNamed struct{}

func (*eofNamed) Error() string { return "EOF" }

// netError looks like an error that could be tried again.
type netError struct{ kind string }

func (e *netError) Error() string   { return "simulated network error: " + e.kind }
func (e *netError) Timeout() bool   { return e.kind == "timeout" }
func (e *netError) Temporary() bool { return true }

func makeErr(kind string) error {
	switch kind {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "wrapeof":
		return fmt.Errorf("connection lost: %w", io.EOF)
	case "closedpipe":
		return io.ErrClosedPipe
	case "canceled":
		return context.Canceled
	case "deadline":
		return os.ErrDeadlineExceeded
	case "slice":
		return sliceError{[]int{1}}
	case "noprogress":
		return io.ErrNoProgress
	case "eintr":
		return syscall.EINTR
	case "xeof":
		return xsqlparser.EOF
	case "eofname":
		return &eofNamed{}
	case "shortwrite":
		return io.ErrShortWrite
	case "eagain":
		return syscall.EAGAIN
	case "patherror":
		return &os.PathError{Op: "read", Path: "sim", Err: syscall.EINTR}
	case "joined":
		return errors.Join(errors.New("one"), &netError{"joined"}, io.EOF)
	case "nested":
		return fmt.Errorf("a: %w", fmt.Errorf("b: %w", &netError{"timeout"}))
	case "temporary", "timeout":
		return &netError{kind}
	}
	return &simError{kind}
}

// env is the simulated caller code of one operation.
type env struct {
	op      *Op
	counts  map[string]int
	calls   int
	raised  string // what the caller code threw: "panic", "goexit"
	val     interface{}
	after   int // invocations of caller code after it threw
	afterOn string
	nested  []*nestedRun
	fired   map[string]int
	reader  *SimReader
	writer  *SimWriter
	unstall bool
	stalled bool
	depth   int
	parent  *env
}

type nestedRun struct {
	op  *Op
	out *Outcome
}

func newEnv(op *Op) *env {
	return &env{op: op, counts: map[string]int{}, fired: map[string]int{}}
}

// panics of the runtime itself, as mistakes in the caller's code raise them
var runtimePanics = func() (l []interface{}) {
	var (
		m   map[interface{}]int
		p   *panicPtr
		s   []int
		any interface{} = "x"
		c               = make(chan int)
		f   func()
		n   int
	)
	close(c)
	for _, g := range []func(){
		func() { m[1] = 1 },
		func() { p.id = 1 },
		func() { s[n+3] = 1 },
		func() { n = 1 / n },
		func() { n = any.(int) },
		func() { close(c) },
		func() { c <- 1 },
		func() { f() },
		func() { s = make([]int, n-1) },
		func() { m = map[interface{}]int{}; m[s] = 1 },
		func() { s = s[n+2:] },
	} {
		func() {
			defer func() { l = append(l, recover()) }()
			g()
		}()
	}
	return
}()

type panicPtr struct{ id int }

func makePanic(kind string) interface{} {
	switch kind {
	case "error":
		return &simError{"panic"}
	case "string":
		return "simulated caller panic"
	case "nil":
		return new(runtime.PanicNilError)
	case "short":
		return io.ErrShortWrite
	case "closed":
		return os.ErrClosed
	case "canceled":
		return context.Canceled
	case "node":
		return &sqlast.Ident{Value: "panic"}
	case "token":
		return &sqltoken.Token{}
	case "eof":
		return io.EOF
	case "xeof":
		return xsqlparser.EOF
	case "int":
		return 42
	case "struct":
		return panicPtr{7}
	case "false":
		return false
	case "slice":
		return sliceError{[]int{1}}
	case "wrapped":
		return fmt.Errorf("panic %w", xsqlparser.EOF)
	}
	if strings.HasPrefix(kind, "magic") {
		k, _ := strconv.Atoi(kind[len("magic"):])
		return magicWords[(len(magicWords)-1-k+len(magicWords))%len(magicWords)]
	}
	if strings.HasPrefix(kind, "runtime") {
		k, _ := strconv.Atoi(kind[len("runtime"):])
		return runtimePanics[k%len(runtimePanics)]
	}
	return &panicPtr{1}
}

var panicKinds = []string{"ptr", "error", "string", "runtime", "eof", "xeof", "int", "struct", "false", "wrapped",
	"runtime1", "runtime2", "runtime3", "runtime4", "runtime5", "runtime6", "runtime7", "runtime8", "runtime9", "runtime10",
	"nil", "short", "closed", "canceled", "node", "token", "magic0", "magic1", "magic2", "slice"}

func samePanic(a, b interface{}) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if x, ok := a.(sliceError); ok {
		// cannot be compared
		y, ok := b.(sliceError)
		return ok && len(x.l) == len(y.l) && &x.l[0] == &y.l[0]
	}
	return a == b
}

// callback is called first whenever the library calls the simulated caller
// code; it returns the action that the caller code itself has to carry out.
func (e *env) callback(on string) *Act {
	if e == nil {
		return nil
	}
	Yield()
	e.calls++
	if e.raised != "" {
		e.after++
		e.afterOn = on
	}
	n := e.counts[on]
	e.counts[on] = n + 1
	var own *Act
	for i := range e.op.Acts {
		a := &e.op.Acts[i]
		if a.On != on || a.At != n {
			continue
		}
		e.fired[a.On+":"+a.Do]++
		switch a.Do {
		case "panic":
			e.raised = "panic"
			e.val = makePanic(a.Val)
			panic(e.val)
		case "goexit":
			e.raised = "goexit"
			runtime.Goexit()
		case "nest":
			e.nest(a.Op)
		case "through":
			e.through(a.Op)
		case "gc":
			runtime.GC()
		case "stall":
			e.stalled = true
			Block(func() bool { return e.unstall })
			e.stalled = false
		case "yield":
			for i := 0; i < a.N; i++ {
				Yield()
			}
		default:
			own = a
		}
	}
	return own
}

// through runs another operation inside the callback and lets what is thrown
// in there pass.
func (e *env) through(op *Op) {
	r := newRun(op)
	if err := r.prepare(); err != nil {
		return
	}
	done := false
	defer func() {
		if !done {
			e.raised, e.val = r.e.raised, r.e.val
			e.after += r.e.after
		}
	}()
	r.body()
	done = true
}

// nest runs another operation inside the callback.
func (e *env) nest(op *Op) {
	r := newRun(op)
	r.e.parent = e
	r.e.depth = e.depth + 1
	if err := r.prepare(); err != nil {
		e.nested = append(e.nested, &nestedRun{op, &Outcome{Class: "skip", ErrText: normErr(err.Error()), Res: r.res, Env: r.e}})
		return
	}
	out := &Outcome{Class: "unfinished"}
	e.nested = append(e.nested, &nestedRun{op, out})
	func() {
		defer func() {
			if p := recover(); p != nil {
				*out = *r.outcomeOf("panic", p)
			}
		}()
		r.body()
		*out = *r.outcomeOf("ok", nil)
	}()
}

// SimReader is a simulated source.
type SimReader struct {
	e     *env
	data  []byte
	plan  ReadPlan
	pos   int
	idx   int
	ended bool
	err   error
	reads int
	zero  int
	late  int // reads after the end was reported
	max   int // reads limit
}

func (s *SimReader) Read(p []byte) (int, error) {
	s.reads++
	s.e.callback("read")
	if s.ended {
		s.late++
		switch s.plan.After {
		case "resume":
			n := copy(p, s.data[s.pos:])
			s.pos += n
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		case "more":
			n := copy(p, "SELECT 99 FROM late;")
			return n, nil
		case "other":
			return 0, &simError{"late"}
		case "eof":
			return 0, io.EOF
		}
		return 0, s.err
	}
	limit := len(s.data)
	if s.plan.FailAt >= 0 && s.plan.FailAt <= limit {
		limit = s.plan.FailAt
	}
	stall := -1
	if s.plan.StallAt >= 0 && s.plan.StallAt <= limit && !s.e.unstall {
		stall = s.plan.StallAt
	}
	if stall >= 0 && s.pos >= stall {
		s.e.fired["read:stall"]++
		e := s.e
		e.stalled = true
		Block(func() bool { return e.unstall })
		e.stalled = false
		stall = -1
	}
	size := s.plan.Rest
	if s.idx < len(s.plan.Chunks) {
		size = s.plan.Chunks[s.idx]
		s.idx++
		if size == 0 {
			s.zero++
			s.e.fired["read:zero"]++
			s.scribble(p, 0)
			return 0, nil
		}
	}
	if size <= 0 || size > len(p) {
		size = len(p)
	}
	top := limit
	if stall >= 0 && stall < top {
		top = stall
	}
	if size > top-s.pos {
		size = top - s.pos
	}
	n := copy(p[:size], s.data[s.pos:s.pos+size])
	s.pos += n
	s.scribble(p, n)
	if s.pos >= limit && (n == 0 || s.plan.With) && stall < 0 {
		s.ended = true
		s.err = io.EOF
		if s.plan.FailAt >= 0 && s.plan.FailAt <= len(s.data) {
			s.err = makeErr(s.plan.Err)
			s.e.fired["read:fail"]++
		} else if n > 0 {
			s.e.fired["read:eofwithdata"]++
		}
		return n, s.err
	}
	if n < len(p) && s.pos < limit {
		s.e.fired["read:short"]++
	}
	return n, nil
}

func (s *SimReader) scribble(p []byte, n int) {
	if !s.plan.Scribble {
		return
	}
	s.e.fired["read:scribble"]++
	junk := "';\"x -- /* \xff"
	for i := n; i < len(p); i++ {
		p[i] = junk[i%len(junk)]
	}
}

// richReader is a source with all the optional methods that library code likes
// to ask for; all of them go through Read.
type richReader struct{ s *SimReader }

func (r richReader) Read(p []byte) (int, error) { return r.s.Read(p) }
func (r richReader) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		n, err := r.s.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}
func (r richReader) WriteTo(w io.Writer) (int64, error) {
	var n int64
	buf := make([]byte, 700)
	for {
		m, err := r.s.Read(buf)
		if m > 0 {
			k, werr := w.Write(buf[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}
func (r richReader) Close() error { return nil }
func (r richReader) Name() string { return "sim" }

// wrapped is the source as the library gets it.
func (s *SimReader) wrapped() io.Reader {
	switch s.plan.Wrap {
	case "rich":
		return richReader{s}
	case "bufio":
		return bufio.NewReaderSize(s, 16)
	case "bufio4k":
		return bufio.NewReader(s)
	case "multi":
		return io.MultiReader(strings.NewReader(""), s)
	case "limited":
		return io.LimitReader(s, 1<<40)
	case "tee":
		return io.TeeReader(s, io.Discard)
	}
	return s
}

// SimWriter is a simulated sink.
type SimWriter struct {
	e        *env
	plan     WritePlan
	buf      []byte
	failed   bool
	err      error
	calls    int
	late     int // calls after it failed
	strCalls int
}

func (w *SimWriter) put(p []byte) (int, error) {
	w.calls++
	w.e.callback("write")
	if w.failed {
		w.late++
		return 0, w.err
	}
	if w.plan.FailAt >= 0 && len(w.buf)+len(p) > w.plan.FailAt {
		w.failed = true
		w.err = makeErr(w.plan.Err)
		w.e.fired["write:fail-"+w.plan.Accept]++
		n := 0
		switch w.plan.Accept {
		case "short":
			n = w.plan.FailAt - len(w.buf)
		case "full":
			n = len(p)
		}
		w.buf = append(w.buf, p[:n]...)
		return n, w.err
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

type plainWriter struct{ w *SimWriter }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.put(b) }

type stringWriter struct{ w *SimWriter }

func (p stringWriter) Write(b []byte) (int, error) { return p.w.put(b) }
func (p stringWriter) WriteString(s string) (int, error) {
	p.w.strCalls++
	return p.w.put([]byte(s))
}

type fullWriter struct{ w *SimWriter }

func (p fullWriter) Write(b []byte) (int, error) { return p.w.put(b) }
func (p fullWriter) WriteString(s string) (int, error) {
	p.w.strCalls++
	return p.w.put([]byte(s))
}
func (p fullWriter) WriteByte(c byte) error {
	_, err := p.w.put([]byte{c})
	return err
}
func (p fullWriter) WriteRune(c rune) (int, error) { return p.w.put([]byte(string(c))) }
func (p fullWriter) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 512)
	for {
		m, err := r.Read(buf)
		if m > 0 {
			k, werr := p.w.put(buf[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (w *SimWriter) writer() io.Writer {
	switch w.plan.Kind {
	case "string":
		return stringWriter{w}
	case "full":
		return fullWriter{w}
	}
	return plainWriter{w}
}

// customDialect is a dialect of the caller.
type customDialect struct{}

func (customDialect) IsIdentifierStart(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r >= 0x3040 && r <= 0x9fff
}
func (c customDialect) IsIdentifierPart(r rune) bool {
	return c.IsIdentifierStart(r) || r >= '0' && r <= '9' || r == '#'
}
func (customDialect) IsDelimitedIdentifierStart(r rune) bool { return r == '"' || r == '[' }

func baseDialect(name string) dialect.Dialect {
	switch name {
	case "mysql":
		return &dialect.MySQLDialect{}
	case "postgres":
		return &dialect.PostgresqlDialect{}
	case "custom":
		return customDialect{}
	}
	return &dialect.GenericSQLDialect{}
}

// simDialect is a dialect whose calls are seen by the simulator.
type simDialect struct {
	e *env
	d dialect.Dialect
}

func (s *simDialect) IsIdentifierStart(r rune) bool {
	s.e.callback("dialect")
	return s.d.IsIdentifierStart(r)
}
func (s *simDialect) IsIdentifierPart(r rune) bool {
	s.e.callback("dialect")
	return s.d.IsIdentifierPart(r)
}
func (s *simDialect) IsDelimitedIdentifierStart(r rune) bool {
	s.e.callback("dialect")
	return s.d.IsDelimitedIdentifierStart(r)
}
