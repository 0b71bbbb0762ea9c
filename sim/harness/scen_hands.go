package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"
)

func init() {
	scenarios["C24"] = &scenario{gen: genC24, exec: execC24, rule: "a text consumed from a partly read source of a standard or own type, or a tree rendered into a sink that already holds something, with failures, panics and exits of the caller's code; afterwards source and sink are inspected; non-trivial if the source was used or something was written"}
}

// hands is what happened to a source or sink other than reading and writing.
type hands struct {
	misuse []string
	done   bool // the call it was given to has returned
	busy   int
}

func (h *hands) bad(s string) { h.misuse = append(h.misuse, s) }

func (h *hands) enter(s string) func() {
	if h.done {
		h.bad(s + " after the call returned")
	}
	if h.busy > 0 {
		h.bad(s + " while another one is going on")
	}
	h.busy++
	return func() { h.busy-- }
}

// handSource can do everything a file, connection or buffer can.
type handSource struct {
	richReader
	h *hands
}

func (s handSource) Read(p []byte) (int, error) {
	defer s.h.enter("Read")()
	return s.richReader.Read(p)
}
func (s handSource) ReadByte() (byte, error) {
	defer s.h.enter("ReadByte")()
	return s.richReader.ReadByte()
}
func (s handSource) WriteTo(w io.Writer) (int64, error) {
	defer s.h.enter("WriteTo")()
	return s.richReader.WriteTo(w)
}
func (s handSource) Close() error                      { s.h.bad("Close"); return nil }
func (s handSource) CloseWithError(error) error        { s.h.bad("CloseWithError"); return nil }
func (s handSource) Seek(int64, int) (int64, error)    { s.h.bad("Seek"); return 0, nil }
func (s handSource) Reset(io.Reader)                   { s.h.bad("Reset") }
func (s handSource) Discard(n int) (int, error)        { s.h.bad("Discard"); return n, nil }
func (s handSource) Write(p []byte) (int, error)       { s.h.bad("Write"); return len(p), nil }
func (s handSource) WriteString(p string) (int, error) { s.h.bad("WriteString"); return len(p), nil }
func (s handSource) Truncate(int64) error              { s.h.bad("Truncate"); return nil }
func (s handSource) Sync() error                       { s.h.bad("Sync"); return nil }
func (s handSource) SetDeadline(time.Time) error       { s.h.bad("SetDeadline"); return nil }
func (s handSource) SetReadDeadline(time.Time) error   { s.h.bad("SetReadDeadline"); return nil }
func (s handSource) CloseRead() error                  { s.h.bad("CloseRead"); return nil }

// handSink is the same for a sink.
type handSink struct {
	fullWriter
	h *hands
}

func (s handSink) Write(p []byte) (int, error) {
	defer s.h.enter("Write")()
	return s.fullWriter.Write(p)
}
func (s handSink) WriteString(p string) (int, error) {
	defer s.h.enter("WriteString")()
	return s.fullWriter.WriteString(p)
}
func (s handSink) WriteByte(c byte) error {
	defer s.h.enter("WriteByte")()
	return s.fullWriter.WriteByte(c)
}
func (s handSink) WriteRune(c rune) (int, error) {
	defer s.h.enter("WriteRune")()
	return s.fullWriter.WriteRune(c)
}
func (s handSink) ReadFrom(r io.Reader) (int64, error) {
	defer s.h.enter("ReadFrom")()
	return s.fullWriter.ReadFrom(r)
}
func (s handSink) Close() error                     { s.h.bad("Close"); return nil }
func (s handSink) CloseWithError(error) error       { s.h.bad("CloseWithError"); return nil }
func (s handSink) Flush() error                     { s.h.bad("Flush"); return nil }
func (s handSink) Sync() error                      { s.h.bad("Sync"); return nil }
func (s handSink) Seek(int64, int) (int64, error)   { s.h.bad("Seek"); return 0, nil }
func (s handSink) Truncate(int64) error             { s.h.bad("Truncate"); return nil }
func (s handSink) Reset(io.Writer)                  { s.h.bad("Reset") }
func (s handSink) Read([]byte) (int, error)         { s.h.bad("Read"); return 0, io.EOF }
func (s handSink) SetDeadline(time.Time) error      { s.h.bad("SetDeadline"); return nil }
func (s handSink) SetWriteDeadline(time.Time) error { s.h.bad("SetWriteDeadline"); return nil }
func (s handSink) CloseWrite() error                { s.h.bad("CloseWrite"); return nil }

// other sinks that flush in other ways
type flushSink struct{ handSink }

func (s flushSink) Flush() { s.h.bad("Flush") }

// bufSink has the methods of bytes.Buffer.
type bufSink struct {
	fullWriter
	h *hands
}

func (s bufSink) Write(p []byte) (int, error) {
	defer s.h.enter("Write")()
	return s.fullWriter.Write(p)
}
func (s bufSink) Len() int                 { return len(s.w.buf) }
func (s bufSink) Cap() int                 { return cap(s.w.buf) }
func (s bufSink) Available() int           { return cap(s.w.buf) - len(s.w.buf) }
func (s bufSink) AvailableBuffer() []byte  { return nil }
func (s bufSink) Grow(int)                 {}
func (s bufSink) String() string           { return string(s.w.buf) }
func (s bufSink) Bytes() []byte            { return append([]byte(nil), s.w.buf...) }
func (s bufSink) Truncate(int)             { s.h.bad("Truncate") }
func (s bufSink) Reset()                   { s.h.bad("Reset") }
func (s bufSink) Read([]byte) (int, error) { s.h.bad("Read"); return 0, io.EOF }
func (s bufSink) Next(int) []byte          { s.h.bad("Next"); return nil }
func (s bufSink) UnreadByte() error        { s.h.bad("UnreadByte"); return nil }
func (s bufSink) UnreadRune() error        { s.h.bad("UnreadRune"); return nil }
func (s bufSink) WriteTo(io.Writer) (int64, error) {
	s.h.bad("WriteTo")
	return 0, nil
}

// webSink has the methods of what answers a request.
type webSink struct {
	stringWriter
	h *hands
}

func (s webSink) Write(p []byte) (int, error) {
	defer s.h.enter("Write")()
	return s.stringWriter.Write(p)
}
func (s webSink) Header() map[string][]string { s.h.bad("Header"); return map[string][]string{} }
func (s webSink) WriteHeader(int)             { s.h.bad("WriteHeader") }
func (s webSink) Flush()                      { s.h.bad("Flush") }
func (s webSink) FlushError() error           { s.h.bad("FlushError"); return nil }
func (s webSink) Close()                      { s.h.bad("Close") }
func (s webSink) Fd() uintptr                 { s.h.bad("Fd"); return ^uintptr(0) }
func (s webSink) Seek(int64, int) (int64, error) {
	s.h.bad("Seek")
	return 0, nil
}
func (s webSink) WriteAt(p []byte, _ int64) (int, error) { s.h.bad("WriteAt"); return len(p), nil }

// bufSource has the methods of bytes.Buffer and bytes.Reader.
type bufSource struct {
	*SimReader
	h *hands
}

func (s bufSource) Read(p []byte) (int, error) {
	defer s.h.enter("Read")()
	return s.SimReader.Read(p)
}
func (s bufSource) Len() int             { return len(s.data) - s.pos }
func (s bufSource) Size() int64          { return int64(len(s.data)) }
func (s bufSource) Truncate(int)         { s.h.bad("Truncate") }
func (s bufSource) Reset()               { s.h.bad("Reset") }
func (s bufSource) Close()               { s.h.bad("Close") }
func (s bufSource) UnreadByte() error    { s.h.bad("UnreadByte"); return nil }
func (s bufSource) UnreadRune() error    { s.h.bad("UnreadRune"); return nil }
func (s bufSource) WriteByte(byte) error { s.h.bad("WriteByte"); return nil }
func (s bufSource) Unlock()              { s.h.bad("Unlock") }
func (s bufSource) Stop()                { s.h.bad("Stop") }
func (s bufSource) Cancel()              { s.h.bad("Cancel") }
func (s bufSource) Release()             { s.h.bad("Release") }
func (s bufSource) Shutdown() error      { s.h.bad("Shutdown"); return nil }
func (s bufSource) SetReadLimit(int64)   { s.h.bad("SetReadLimit") }
func (s bufSource) Buffered() int        { return 0 }
func (s bufSource) ReadAt(p []byte, o int64) (int, error) {
	s.h.bad("ReadAt")
	return 0, io.EOF
}

// types of the caller that cannot be compared or hashed
type oddSource struct {
	handSource
	_ []int
}
type oddSink struct {
	handSink
	_ []int
}
type funcSink func() handSink

func (f funcSink) Write(p []byte) (int, error) { return f().Write(p) }

var sourceTypes = []string{"own", "own", "own", "own-odd", "own-buf", "own-buf", "strings", "bytes", "buffer", "bufio", "limited", "section", "file", "teed", "multi"}
var sinkTypes = []string{"own", "own", "own-odd", "own-func", "flush", "own-buf", "own-buf", "own-web", "buffer", "builder", "bufio", "file", "multi"}

func genC24(r *Rand) *Plan {
	p := &Plan{A: r.Range(0, 40), B: r.Range(0, 40)}
	junk := r.Pick("SELECT 0;", "'", "/* ", "\"", "é", "-- ", "(", "x", "\xff\xfe", "")
	p.S = Bytes(strings.Repeat(junk, r.Range(1, 3)))
	if r.P(55) {
		p.Kind = "source-" + sourceTypes[r.Intn(len(sourceTypes))]
		op := genOp(r, srcOpt{corrupt: 30, pad: 15, kinds: []string{"parse", "parse", "parse", "settokens", "tokenize", "pull", "scan", "mix"}})
		op.Read = genReadPlan(r, len(op.SQL))
		op.Read.Scribble = false
		if strings.HasPrefix(p.Kind, "source-own") {
			switch r.Intn(5) {
			case 0:
				op.Read.FailAt = r.Intn(len(op.SQL) + 1)
				op.Read.Err = errKinds[r.Intn(len(errKinds))]
			case 1:
				op.Acts = []Act{{On: "read", At: r.Intn(4), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]}}
			}
		} else {
			op.Read.FailAt = -1
		}
		p.Ops = []*Op{op}
		return p
	}
	p.Kind = "sink-" + sinkTypes[r.Intn(len(sinkTypes))]
	op := treeOp(r, "render", 30)
	op.Write.Kind = "full"
	op.Acts = nil
	if strings.HasPrefix(p.Kind, "sink-own") || p.Kind == "sink-flush" {
		switch r.Intn(4) {
		case 0:
			op.Write.FailAt = r.Intn(r.Pick2(12, 60, 300))
			op.Write.Accept = r.Pick("short", "none", "full")
			op.Write.Err = errKinds[r.Intn(len(errKinds))]
		case 1:
			op.Acts = []Act{{On: "write", At: r.Intn(r.Pick2(4, 40)), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]}}
		}
	}
	p.Ops = []*Op{op}
	return p
}

var errScratch = errors.New("scratch file")

// scratchFile is a file of the caller with the given content, read or written
// up to pos.
func scratchFile(content string, pos int64) (*os.File, error) {
	f, err := os.OpenFile(filepath.Join(scratchDir(), fmt.Sprintf("hands-%d", os.Getpid())), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		return nil, errScratch
	}
	if _, err := f.WriteString(content); err != nil {
		return nil, errScratch
	}
	if _, err := f.Seek(pos, io.SeekStart); err != nil {
		return nil, errScratch
	}
	return f, nil
}

// settleHands gives what the call may have left behind a chance to act.
func settleHands() {
	runtime.GC()
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
}

func execC24(p *Plan) *Verdict {
	if strings.HasPrefix(p.Kind, "source-") {
		return execSource24(p, strings.TrimPrefix(p.Kind, "source-"))
	}
	return execSink24(p, strings.TrimPrefix(p.Kind, "sink-"))
}

func execSource24(p *Plan, typ string) *Verdict {
	op := p.Ops[0]
	golden := alone(calm(op))
	if badClass(golden.Class) {
		return skip("reference run " + golden.Class)
	}
	h := &hands{}
	text, before := string(op.SQL), string(p.S)
	r := newRun(op)
	sim := &SimReader{e: r.e, data: []byte(op.SQL), plan: *op.Read}
	var check func(complete bool) string // after the call
	left := func(n int, complete bool) string {
		if n > len(text) {
			return "the source was moved back"
		}
		if complete && n != 0 {
			return fmt.Sprintf("%d bytes of the source were not read", n)
		}
		return ""
	}
	switch typ {
	case "own":
		r.pipe = handSource{richReader{sim}, h}
	case "own-odd":
		r.pipe = oddSource{handSource{richReader{sim}, h}, nil}
	case "own-buf":
		r.pipe = bufSource{sim, h}
	case "strings":
		s := strings.NewReader(before + text)
		io.CopyN(io.Discard, s, int64(len(before)))
		r.pipe = s
		check = func(c bool) string { return left(s.Len(), c) }
	case "bytes":
		b := []byte(before + text)
		s := bytes.NewReader(b)
		io.CopyN(io.Discard, s, int64(len(before)))
		r.pipe = s
		check = func(c bool) string {
			if string(b) != before+text {
				return "the caller's bytes were changed"
			}
			return left(s.Len(), c)
		}
	case "buffer":
		b := []byte(before + text)
		s := bytes.NewBuffer(b)
		s.Next(len(before))
		r.pipe = s
		check = func(c bool) string {
			if string(b[:len(before)+len(text)]) != before+text {
				return "the caller's bytes were changed"
			}
			return left(s.Len(), c)
		}
	case "bufio":
		s := bufio.NewReaderSize(strings.NewReader(before+text), 16+p.A)
		s.Discard(len(before))
		s.Peek(p.B)
		r.pipe = s
		check = func(c bool) string {
			rest, err := io.ReadAll(s)
			if err != nil {
				return "reading on: " + err.Error()
			}
			return left(len(rest), c)
		}
	case "limited":
		u := strings.NewReader(text + before + "rest")
		s := &io.LimitedReader{R: u, N: int64(len(text))}
		r.pipe = s
		check = func(c bool) string {
			if u.Len() < len(before)+4 {
				return "the source was read beyond its limit"
			}
			if s.R != io.Reader(u) || c && s.N != 0 || u.Len()-len(before)-4 != int(s.N) {
				return fmt.Sprintf("the limited source is in disorder: %d left of %d", s.N, u.Len())
			}
			return ""
		}
	case "section":
		u := strings.NewReader(before + text + before)
		s := io.NewSectionReader(u, int64(len(before)), int64(len(text)))
		r.pipe = s
		check = func(c bool) string {
			n, err := s.Seek(0, io.SeekCurrent)
			if err != nil || s.Size() != int64(len(text)) {
				return fmt.Sprintf("the section is in disorder: %v", err)
			}
			return left(len(text)-int(n), c)
		}
	case "file":
		f, err := scratchFile(before+text, int64(len(before)))
		if err != nil {
			return skip("no scratch file")
		}
		defer f.Close()
		r.pipe = f
		check = func(c bool) string {
			n, err := f.Seek(0, io.SeekCurrent)
			if err != nil {
				return "the file was closed: " + err.Error()
			}
			all := make([]byte, len(before)+len(text)+10)
			m, _ := f.ReadAt(all, 0)
			if string(all[:m]) != before+text {
				return "the file was changed"
			}
			return left(len(before)+len(text)-int(n), c)
		}
	case "teed":
		var copyOf bytes.Buffer
		s := strings.NewReader(text)
		r.pipe = io.TeeReader(s, &copyOf)
		check = func(c bool) string {
			if copyOf.String() != text[:len(text)-s.Len()] {
				return "the copy made of the source is not what was read from it"
			}
			return left(s.Len(), c)
		}
	case "multi":
		k := 0
		if len(text) > 0 {
			k = p.A % len(text)
		}
		a, b := strings.NewReader(text[:k]), strings.NewReader(text[k:])
		r.pipe = io.MultiReader(a, b)
		check = func(c bool) string { return left(a.Len()+b.Len(), c) }
	default:
		return skip("unknown source")
	}
	what := fmt.Sprintf("%s of %q from a source of type %T", op.Kind, short(text, 200), r.pipe)
	got := r.run(defaultLimit)
	h.done = true
	r.pipe = nil
	settleHands()
	if len(h.misuse) > 0 {
		return viol("misuse", "%s: the library called %s of the source", what, h.misuse[0])
	}
	if strings.HasPrefix(typ, "own") && (sim.plan.FailAt >= 0 || len(op.Acts) > 0) {
		return pass(sim.reads > 0, typ, op.Kind, op.SQL, op.Read.FailAt, got.Class)
	}
	if d := differ(golden, got); d != "" {
		return viol("other", "%s: %s", what, d)
	}
	if check != nil {
		// pulls may be given up before the end
		if s := check(got.Class == "ok" && got.Res.Err == nil && (op.Kind != "pull" && op.Kind != "scan" && op.Kind != "mix") && op.MaxPull == 0); s != "" {
			return viol("left", "%s: %s", what, s)
		}
	}
	probe("source-" + typ)
	return pass(len(text) > 0, typ, op.Kind, op.SQL)
}

func execSink24(p *Plan, typ string) *Verdict {
	op := p.Ops[0]
	g := calm(op)
	g.Write.Kind = "plain"
	first := newRun(g)
	if first.guardedPrepare() != nil {
		return skip("no tree")
	}
	golden := first.run(defaultLimit)
	if golden.Class != "ok" || golden.Res.Err != nil {
		return skip("reference run " + golden.Class)
	}
	full, held := string(golden.Res.Out), string(p.S)
	h := &hands{}
	r := newRun(op)
	sim := &SimWriter{e: r.e, plan: *op.Write}
	var w io.Writer
	var check func() string // after the call
	is := func(got, want string) string {
		if got == want {
			return ""
		}
		return "the sink is not what it held before and the rendering: " + diffAt(want, got)
	}
	switch typ {
	case "own":
		w = handSink{fullWriter{sim}, h}
	case "own-odd":
		w = oddSink{handSink{fullWriter{sim}, h}, nil}
	case "own-func":
		w = funcSink(func() handSink { return handSink{fullWriter{sim}, h} })
	case "own-buf":
		w = bufSink{fullWriter{sim}, h}
	case "own-web":
		w = webSink{stringWriter{sim}, h}
	case "flush":
		w = flushSink{handSink{fullWriter{sim}, h}}
	case "buffer":
		b := bytes.NewBufferString("read" + held)
		b.Next(4)
		w = b
		check = func() string { return is(b.String(), held+full) }
	case "builder":
		b := &strings.Builder{}
		b.WriteString(held)
		w = b
		check = func() string { return is(b.String(), held+full) }
	case "bufio":
		var under bytes.Buffer
		size := len(held) + p.A*20 + 1
		b := bufio.NewWriterSize(&under, size)
		b.WriteString(held)
		kept := under.Len() == 0
		w = b
		check = func() string {
			if kept && size > len(held)+len(full) && under.Len() > 0 {
				return "the buffered sink was flushed"
			}
			if b.Size() != size {
				return "the buffer of the sink was replaced"
			}
			b.Flush()
			return is(under.String(), held+full)
		}
	case "file":
		f, err := scratchFile(held+strings.Repeat("#", p.A*10), int64(len(held)))
		if err != nil {
			return skip("no scratch file")
		}
		defer f.Close()
		w = f
		check = func() string {
			n, err := f.Seek(0, io.SeekCurrent)
			if err != nil {
				return "the file was closed: " + err.Error()
			}
			if n != int64(len(held)+len(full)) {
				return fmt.Sprintf("the file stands at %d after %d bytes were written at %d", n, len(full), len(held))
			}
			all := make([]byte, len(held)+len(full)+p.A*10+10)
			m, _ := f.ReadAt(all, 0)
			want := held + full
			if k := p.A*10 - len(full); k > 0 {
				want += strings.Repeat("#", k)
			}
			return is(string(all[:m]), want)
		}
	case "multi":
		var a bytes.Buffer
		var b strings.Builder
		a.WriteString(held)
		w = io.MultiWriter(&a, &b)
		check = func() string {
			if s := is(a.String(), held+full); s != "" {
				return s
			}
			return is(b.String(), full)
		}
	default:
		return skip("unknown sink")
	}
	what := fmt.Sprintf("rendering %q into a sink of type %T", short(full, 200), w)
	var n int64
	var err error
	cl, pv, _ := guarded(defaultLimit, func() { n, err = first.root.WriteTo(w) })
	h.done = true
	settleHands()
	stats.addFired(r.e)
	if len(h.misuse) > 0 {
		return viol("misuse", "%s: the library called %s of the sink", what, h.misuse[0])
	}
	if (strings.HasPrefix(typ, "own") || typ == "flush") && op.Write.FailAt < 0 && len(op.Acts) == 0 {
		// nothing fails
		if cl != "ok" || err != nil || n != int64(len(full)) || string(sim.buf) != full {
			return viol("sink", "%s: %s %v, error %v, count %d of %d: %s", what, cl, pv, err, n, len(full), diffAt(full, string(sim.buf)))
		}
	}
	if strings.HasPrefix(typ, "own") || typ == "flush" {
		return pass(sim.calls > 0, typ, op.SQL, op.Built, op.Write.FailAt, cl)
	}
	if cl != "ok" || err != nil || n != int64(len(full)) {
		return viol("sink", "%s: %s %v, error %v, count %d of %d", what, cl, pv, err, n, len(full))
	}
	if s := check(); s != "" {
		return viol("sink", "%s: %s", what, s)
	}
	probe("sink-" + typ)
	return pass(len(full) > 0, typ, op.SQL, op.Built)
}
