package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

func init() {
	scenarios["C08"] = &scenario{gen: genC08, exec: execC08, rule: "2 to 5 sessions of random kinds on their own inputs, some of them failing, stalling, panicking or killed, under a random schedule; non-trivial if the scheduler switched between them at least 4 times"}
	scenarios["C09"] = &scenario{gen: genC09, exec: execC09, rule: "2 to 6 readers of one tree or parsers of one token list, some failing or killed, under a random schedule; non-trivial if the scheduler switched at least 4 times"}
	scenarios["C10"] = &scenario{gen: genC10, exec: execC10, race: true, rule: "2 to 5 sessions as for C08 and C09 in a race-detecting build, whose scheduler adds no synchronisation between tasks; non-trivial if the scheduler switched at least 4 times"}
	scenarios["C16"] = &scenario{gen: genC16, exec: execC16, rule: "a renderer and a consumer joined by a pipe of random capacity, one of them possibly failing, closing, panicking or killed at a random point, under a random schedule; non-trivial if data went through the pipe"}
}

// C08

func genSessions(r *Rand, n int, faults int) []*Op {
	var ops []*Op
	focus := ""
	if r.P(40) {
		r.theme = r.Next() | 1
	}
	if r.P(45) {
		// all of one kind, so that they are in the same code at the same time
		focus = r.Pick("render", "render", "parse", "cmap", "tokens", "walk", "apply", "mixed")
	}
	for i := 0; i < n; i++ {
		op := genFocused(r, focus)
		if r.P(faults) {
			addFaults(r, op)
		}
		if op.Kind == "apply" && len(op.Acts) == 0 && r.P(50) {
			on := "pre"
			if op.NoPre {
				on = "post"
			}
			op.Acts = append(op.Acts, Act{On: on, At: r.Intn(30), Do: "edit", Val: genEdits(r)})
		}
		ops = append(ops, op)
	}
	if r.P(10) {
		// the same mistake in all of them, so that they are in the same code for it
		sql := Bytes(mistake(r))
		for i := range ops {
			if !usesTree(ops[i].Kind) {
				ops[i].SQL = sql
				if ops[i].Read != nil {
					ops[i].Read = genReadPlan(r, len(sql))
				}
			}
		}
	}
	if r.P(40) {
		// the same text and options more than once, where shared caches collide
		for i := 1; i < n; i++ {
			if r.P(60) {
				c := cloneOp(ops[0])
				c.Read = nil
				if usesTree(c.Kind) || r.P(50) {
					c.Acts, c.Kill = nil, 0
				}
				if c.Kind == "parse" && r.P(30) {
					c.Dialect = pickDialect(r)
				}
				ops[i] = c
			}
		}
	}
	return ops
}

// mistake is a text that is wrong in one of many ways.
func mistake(r *Rand) string {
	if r.P(50) {
		return corrupt(r, genScript(r, pickDialect(r), 1, r.P(50)).String())
	}
	return r.Pick("SELECT 1 ! 2", "!", "SELECT 'a", "SELECT \"a", "/* a", "SELECT N'a", "`a", "SELECT 99999999999999999999", "SELECT 1.2.3", "SELECT",
		"SELECT FROM FROM", "x", "1", "CREATE TABLE t (a foo)", "CREATE TABLE t (", "INSERT INTO", "DELETE t", "SELECT a b c", "ALTER TABLE t FOO", "DROP x", "CREATE x",
		"SELECT a FROM (b", "SELECT CASE 1", "SELECT f(", "SELECT 1 WHERE a IN (", "SELECT CAST(a", "SELECT a FROM t JOIN u", "SELECT a FROM t LIMIT x", "SELECT 1 2", "EXPLAIN",
		"SELECT f() OVER (ROWS x)", "WITH a", "UPDATE t SET", "CREATE TABLE t (a varchar(x))", "CREATE TABLE t (a int foo)", "SELECT a NOT b", "SELECT a IS b", "SELECT a BETWEEN b", "SELECT ,", "SELECT )")
}

// genFocused makes an operation of one family, or any.
func genFocused(r *Rand, focus string) *Op {
	o := srcOpt{corrupt: 10, maxStmt: 1}
	switch focus {
	case "render":
		return genTreeOp(r, "render", "render", "string")
	case "parse":
		o.kinds = []string{"parse", "parse", "settokens"}
	case "tokens":
		o.kinds = []string{"tokenize", "pull", "scan"}
	case "cmap":
		o.kinds = []string{"parse"}
		o.calls = []string{"file+cmap"}
	case "walk":
		return genTreeOp(r, "walk", "inspect")
	case "apply":
		return genTreeOp(r, "apply")
	case "mixed":
		return genTreeOp(r, "render", "walk", "apply", "cmap")
	default:
		return genAnyOp(r, srcOpt{corrupt: 10, pad: 5, maxStmt: 2})
	}
	op := genOp(r, o)
	if r.P(40) {
		op.Read = genReadPlan(r, len(op.SQL))
	}
	return op
}

// genCrowd makes very many sessions of which all but the last are held up in
// the caller's code until the last one is done.
func genCrowd(r *Rand) *Plan {
	r.small = 97
	n := atLeast(3, magicLen(r, r.Pick2(20, 70, 300)))
	kinds := r.Pick("parse", "render", "walk", "apply", "tokens", "any")
	var base []*Op
	for i := r.Range(1, 3); i > 0; i-- {
		op := genFocused(r, kinds)
		for !hasCallbacks(op) {
			op = genFocused(r, kinds)
		}
		op.Edits, op.Node = 0, 0
		base = append(base, op)
	}
	p := &Plan{Kind: "crowd"}
	for i := 0; i < n; i++ {
		op := cloneOp(base[r.Intn(len(base))])
		if i < n-1 {
			on := ""
			switch op.Kind {
			case "render":
				on = "write"
			case "walk", "inspect":
				on = "visit"
			case "apply":
				on = "pre"
				if op.NoPre {
					on = "post"
				}
			default:
				on = r.Pick("read", "dialect")
				op.Hook = op.Hook || on == "dialect"
			}
			op.Acts = append(op.Acts, Act{On: on, At: r.Intn(r.Pick2(1, 1, 3, 8)), Do: "stall"})
		}
		p.Ops = append(p.Ops, op)
	}
	if r.P(30) {
		p.Sched = genDecisions(r, n)
	}
	return p
}

func hasCallbacks(op *Op) bool {
	switch op.Kind {
	case "render", "walk", "inspect", "apply", "parse", "tokenize", "pull", "scan", "settokens":
		return true
	}
	return false
}

func withoutStalls(op *Op) *Op {
	c := cloneOp(op)
	c.Acts = nil
	for _, a := range op.Acts {
		if a.Do != "stall" {
			c.Acts = append(c.Acts, a)
		}
	}
	return c
}

func execCrowd(p *Plan) *Verdict {
	var runs []*opRun
	s := &Sched{decisions: p.Sched}
	for i, op := range p.Ops {
		r := newRun(op)
		if r.guardedPrepare() != nil {
			return skip("no tree")
		}
		r.task = s.AddTask(fmt.Sprintf("%d-%s", i, op.Kind), defaultLimit, r.body)
		runs = append(runs, r)
	}
	last := runs[len(runs)-1].task
	held := 0
	s.AddTask("end", 0, func() {
		Block(func() bool { return last.state == tsDone })
		for _, r := range runs {
			if r.e.stalled {
				held++
			}
			r.e.unstall = true
		}
	})
	s.Run()
	stats.steps += s.total
	stats.Switches += int64(s.switches)
	stats.MaxTasks = atLeast(stats.MaxTasks, len(runs))
	for _, r := range runs {
		stats.addFired(r.e)
	}
	if s.deadlock {
		return viol("crowd-blocked", "a session (%s) does not end while %d others are held up in their callers' code: %v", p.Ops[len(runs)-1].Kind, len(runs)-1, s.blocked)
	}
	refs := map[string]*Outcome{}
	for i, r := range runs {
		c := withoutStalls(r.op)
		b, _ := json.Marshal(c)
		want := refs[string(b)]
		if want == nil {
			want = alone(c)
			refs[string(b)] = want
		}
		got := r.outcome()
		if d := differ(want, got); d != "" {
			return viol("crowd", "session %d of %d (%s) differs from what it is alone (%s): %s", i, len(runs), r.op.Kind, describe(got), d)
		}
	}
	if held > 20 {
		probe("crowd-of-many")
	}
	v := pass(held > 0, "crowd", s.traceHash, p.Ops[0].SQL)
	v.Inter = s.traceHash
	return v
}

func genC08(r *Rand) *Plan {
	if r.P(3) {
		return genCrowd(r)
	}
	r.small = 85
	n := r.Pick2(2, 2, 3, 4, 5)
	p := &Plan{Kind: "sessions", Ops: genSessions(r, n, 35)}
	p.Sched = genDecisions(r, n)
	p.A = r.Intn(2)
	return p
}

func execC08(p *Plan) *Verdict {
	if p.Kind == "crowd" {
		return execCrowd(p)
	}
	var goldens []*Outcome
	golden := func() {
		for _, op := range p.Ops {
			goldens = append(goldens, alone(op))
		}
	}
	if p.A == 1 {
		golden()
	}
	tg, err := runTogether(p.Ops, p.Sched, defaultLimit, nil)
	if err != nil {
		return skip("no tree")
	}
	if tg.sched.deadlock {
		return viol("deadlock", "sessions that do not know each other block each other: %v", tg.sched.blocked)
	}
	if p.A == 0 {
		golden()
	}
	for i, r := range tg.runs {
		got, want := r.outcome(), goldens[i]
		if p.Ops[i].Kill > 0 {
			continue // it was cut off, perhaps at another place
		}
		if d := differ(want, got); d != "" {
			return viol("session", "session %d (%s) differs from what it is alone (%s): %s", i, p.Ops[i].Kind, describe(got), d)
		}
	}
	v := pass(tg.sched.switches >= 4, "s", tg.sched.traceHash, p.Ops[0].SQL)
	v.Inter = tg.sched.traceHash
	return v
}

// C09

func genC09(r *Rand) *Plan {
	r.small = 85
	n := r.Pick2(2, 2, 3, 4, 6)
	p := &Plan{}
	if r.P(30) {
		p.Kind = "tokens"
		base := genOp(r, srcOpt{corrupt: 10, kinds: []string{"settokens"}, calls: []string{"sql", "sql", "file", "statement", "file+cmap"}})
		for i := 0; i < n; i++ {
			op := cloneOp(base)
			op.Calls = []string{r.Pick("sql", "file", "statement")}
			op.Comments = r.P(50)
			if op.Comments && op.Calls[0] == "file" {
				op.Calls = append(op.Calls, "cmap")
			}
			if r.P(20) {
				op.Kill = int64(r.Range(1, 30))
			}
			p.Ops = append(p.Ops, op)
		}
	} else {
		p.Kind = "tree"
		base := genTreeOp(r, "render")
		for i := 0; i < n; i++ {
			op := genTreeOp(r, "render", "render", "string", "walk", "inspect", "positions", "cmap")
			op.SQL, op.Dialect = base.SQL, base.Dialect
			op.Edits = base.Edits
			if op.Kind == "cmap" {
				op.Node = 0
			}
			if r.P(30) {
				addFaults(r, op)
			}
			p.Ops = append(p.Ops, op)
		}
	}
	p.Sched = genDecisions(r, n)
	return p
}

// shareTokens gives every parser the same token list.
func shareTokens(op *Op) []*sqltoken.Token {
	t := sqltoken.NewTokenizer(strings.NewReader(string(op.SQL)), baseDialect(op.Dialect))
	toks, err := t.Tokenize()
	if err != nil {
		return nil
	}
	return toks
}

func execC09(p *Plan) *Verdict {
	var setup func(i int, r *opRun)
	var unchanged func() string
	if p.Kind == "tokens" {
		var toks []*sqltoken.Token
		cl, _, _ := guarded(defaultLimit, func() { toks = shareTokens(p.Ops[0]) })
		if cl != "ok" || toks == nil {
			return skip("no tokens")
		}
		before := dump(toks)
		ptrs := append([]*sqltoken.Token(nil), toks...)
		setup = func(i int, r *opRun) { r.toks = toks }
		unchanged = func() string {
			for i := range ptrs {
				if toks[i] != ptrs[i] {
					return fmt.Sprintf("element %d of the list was exchanged", i)
				}
			}
			if after := dump(toks); after != before {
				return diffAt(before, after)
			}
			return ""
		}
	} else {
		first := newRun(calm(p.Ops[0]))
		if first.guardedPrepare() != nil {
			return skip("no tree")
		}
		before := dump(first.tree)
		setup = func(i int, r *opRun) { r.tree = first.tree }
		unchanged = func() string {
			if after := dump(first.tree); after != before {
				return diffAt(before, after)
			}
			return ""
		}
	}
	tg, err := runTogether(p.Ops, p.Sched, defaultLimit, setup)
	if err != nil {
		return skip("no tree")
	}
	if tg.sched.deadlock {
		return viol("deadlock", "readers of one %s block each other: %v", p.Kind, tg.sched.blocked)
	}
	if d := unchanged(); d != "" {
		return viol("changed", "the shared %s was changed: %s", p.Kind, d)
	}
	for i, op := range p.Ops {
		if op.Kill > 0 {
			continue
		}
		want := alone(op)
		got := tg.runs[i].outcome()
		if d := differ(want, got); d != "" {
			return viol("reader", "reader %d (%s) of one %s: %s", i, op.Kind, p.Kind, d)
		}
	}
	if d := unchanged(); d != "" {
		return viol("changed", "the shared %s was changed: %s", p.Kind, d)
	}
	v := pass(tg.sched.switches >= 4, p.Kind, tg.sched.traceHash, p.Ops[0].SQL)
	v.Inter = tg.sched.traceHash
	return v
}

// C10

func genC10(r *Rand) *Plan {
	r.small = 85
	if r.P(35) {
		p := genC09(r)
		p.Kind = "shared-" + p.Kind
		return p
	}
	n := r.Pick2(2, 2, 3, 4)
	p := &Plan{Kind: "sessions", Ops: genSessions(r, n, 25)}
	p.Sched = genDecisions(r, n)
	return p
}

func execC10(p *Plan) *Verdict {
	if !raceBuild {
		return skip("needs a race-detecting build")
	}
	var setup func(i int, r *opRun)
	switch p.Kind {
	case "shared-tokens":
		toks := shareTokens(p.Ops[0])
		if toks == nil {
			return skip("no tokens")
		}
		setup = func(i int, r *opRun) { r.toks = toks }
	case "shared-tree":
		first := newRun(calm(p.Ops[0]))
		if first.guardedPrepare() != nil {
			return skip("no tree")
		}
		setup = func(i int, r *opRun) { r.tree = first.tree }
	}
	before := raceErrors()
	tg, err := runTogether(p.Ops, p.Sched, defaultLimit, setup)
	if err != nil {
		return skip("no tree")
	}
	if n := raceErrors() - before; n > 0 {
		var kinds []string
		for _, op := range p.Ops {
			kinds = append(kinds, op.Kind)
		}
		return viol("race", "%d data race(s) between concurrent %s: %s", n, strings.Join(kinds, ", "), raceReport())
	}
	v := pass(tg.sched.switches >= 4, p.Kind, tg.sched.traceHash, p.Ops[0].SQL)
	v.Inter = tg.sched.traceHash
	return v
}

// C16

func genC16(r *Rand) *Plan {
	prod := genTreeOp(r, "render")
	prod.Node = 0
	prod.Write.Kind = r.Pick("plain", "string", "full")
	cons := &Op{Kind: r.Pick("parse", "parse", "pull", "tokenize", "scan"), Dialect: prod.Dialect, Calls: []string{r.Pick("sql", "file", "statement")}, Comments: r.P(30)}
	p := &Plan{Kind: "pipe", Ops: []*Op{prod, cons}, A: r.Pick2(1, 2, 3, 7, 16, 64, 1000, 0), Sched: genDecisions(r, 2)}
	// B: what happens, C: when
	p.B = r.Intn(10)
	p.C = r.Intn(r.Pick2(20, 200, 1000))
	p.S = Bytes(errKinds[r.Intn(len(errKinds))])
	return p
}

var errDied = errors.New("the other end died")

// simPipe is a bounded pipe between two tasks, like io.Pipe with a buffer
// (capacity 0: the writer waits until the reader has taken everything).
type simPipe struct {
	buf      []byte
	cap      int
	werr     error // why no more data comes; io.EOF is a normal end
	rerr     error // why no more data is taken
	total    int
	reads    int
	after    int // calls of the library after its end reported a failure
	onRead   func(n int) error
	onWrite  func(n int) error
	wfailed  error
	rfailed  error
	accepted []byte
}

type pipeReader struct{ p *simPipe }
type pipeWriter struct{ p *simPipe }

func (r pipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.reads++
	if p.rfailed != nil {
		p.after++
		return 0, p.rfailed
	}
	if p.onRead != nil {
		if err := p.onRead(p.reads); err != nil {
			p.rfailed = err
			return 0, err
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	Block(func() bool { return len(p.buf) > 0 || p.werr != nil })
	if len(p.buf) == 0 {
		p.rfailed = p.werr
		return 0, p.werr
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

func (w pipeWriter) Write(b []byte) (int, error) {
	p := w.p
	if p.wfailed != nil {
		p.after++
		return 0, p.wfailed
	}
	n := 0
	for n < len(b) {
		if p.rerr == nil {
			cap := p.cap
			if cap == 0 {
				cap = 1
			}
			Block(func() bool { return len(p.buf) < cap || p.rerr != nil })
		}
		if p.rerr != nil {
			p.wfailed = p.rerr
			return n, p.rerr
		}
		k := p.cap - len(p.buf)
		if p.cap == 0 || k > len(b)-n {
			k = len(b) - n
		}
		if p.onWrite != nil {
			if err := p.onWrite(p.total); err != nil {
				p.wfailed = err
				return n, err
			}
		}
		p.buf = append(append([]byte{}, p.buf...), b[n:n+k]...)
		p.accepted = append(p.accepted, b[n:n+k]...)
		n += k
		p.total += k
	}
	if p.cap == 0 {
		Block(func() bool { return len(p.buf) == 0 || p.rerr != nil })
	}
	return n, nil
}

type pipeStringWriter struct{ pipeWriter }

func (w pipeStringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func execC16(p *Plan) *Verdict {
	prod, cons := p.Ops[0], p.Ops[1]
	first := newRun(calm(prod))
	if first.guardedPrepare() != nil {
		return skip("no tree")
	}
	f, ok := first.tree.(*sqlast.File)
	if !ok || len(f.Stmts) == 0 {
		return skip("no statements")
	}
	// what goes through the pipe
	var full strings.Builder
	cl, _, _ := guarded(defaultLimit, func() {
		for _, s := range f.Stmts {
			s.WriteTo(&full)
			full.WriteString(";\n")
		}
	})
	if cl != "ok" {
		return skip("rendering " + cl)
	}
	text := full.String()
	ref := calm(cons)
	ref.SQL = Bytes(text)
	golden := alone(ref)
	if golden.Class != "ok" {
		return skip("reference run " + golden.Class)
	}

	boom := makeErr(string(p.S))
	pipe := &simPipe{cap: p.A}
	point := p.C % (len(text) + 1)
	fault := ""
	switch p.B {
	case 5:
		fault = "producer closes with error"
		pipe.onWrite = nil
	case 6:
		fault = "consumer closes with error"
	case 7:
		fault = "producer killed"
	case 8:
		fault = "consumer killed"
	case 9:
		fault = "source error in the middle"
	}
	var wN int64
	var wErr error
	var countWrong string
	prodDone := false
	fired := false
	s := &Sched{decisions: p.Sched}
	tp := s.AddTask("producer", defaultLimit, func() {
		defer func() {
			if pipe.werr == nil {
				if prodDone {
					pipe.werr = io.EOF
				} else {
					pipe.werr = errDied
				}
			}
		}()
		var w io.Writer = pipeWriter{pipe}
		if prod.Write.Kind != "plain" {
			w = pipeStringWriter{pipeWriter{pipe}}
		}
		if fault == "producer closes with error" || fault == "source error in the middle" {
			pipe.onWrite = func(total int) error {
				if total >= point {
					fired = true
					pipe.werr = boom
					return boom
				}
				return nil
			}
		}
		for _, st := range f.Stmts {
			had := len(pipe.accepted)
			n, err := st.WriteTo(w)
			wN += n
			if int(n) != len(pipe.accepted)-had {
				countWrong = fmt.Sprintf("WriteTo reports %d bytes, the pipe took %d", n, len(pipe.accepted)-had)
			}
			if err != nil {
				wErr = err
				return
			}
			if _, err := io.WriteString(w, ";\n"); err != nil {
				wErr = err
				return
			}
		}
		prodDone = true
	})
	cr := newRun(ref)
	consDone := false
	tc := s.AddTask("consumer", defaultLimit, func() {
		defer func() {
			if pipe.rerr == nil {
				switch {
				case !consDone:
					pipe.rerr = errDied
				case cr.res.Err != nil && !errors.Is(cr.res.Err, io.EOF):
					pipe.rerr = cr.res.Err
				default:
					pipe.rerr = io.ErrClosedPipe
				}
			}
		}()
		cr.pipe = pipeReader{pipe}
		if fault == "consumer closes with error" {
			pipe.onRead = func(n int) error {
				if n > 1+p.C%20 {
					fired = true
					pipe.rerr = boom
					return boom
				}
				return nil
			}
		}
		cr.body()
		consDone = true
	})
	cr.task = tc
	if fault == "producer killed" {
		tp.killAt = int64(p.C + 1)
	}
	if fault == "consumer killed" {
		tc.killAt = int64(p.C + 1)
	}
	s.Run()
	stats.steps += s.total
	stats.Switches += int64(s.switches)
	if fault != "" {
		if fired || tp.killed || tc.killed {
			stats.Fired["pipe:"+strings.ReplaceAll(fault, " ", "-")]++
		}
	}
	if s.deadlock {
		return viol("deadlock", "both ends wait for ever (%s): %v", fault, s.blocked)
	}
	if tp.hung || tc.hung {
		return viol("hang", "an end did not finish (%s)", fault)
	}
	if tp.panicked || tc.panicked || (tp.goexit && !tp.killed) || (tc.goexit && !tc.killed) {
		return viol("class", "producer panic %v, consumer panic %v (%s)", tp.panicVal, tc.panicVal, fault)
	}
	if countWrong != "" && !tp.killed {
		return viol("count", "%s (%s)", countWrong, fault)
	}
	if pipe.after > 0 {
		return viol("late", "an end was used %d times after it had failed (%s)", pipe.after, fault)
	}
	if !strings.HasPrefix(text, string(pipe.accepted)) {
		return viol("bytes", "what went into the pipe is not the rendering: %s", diffAt(text, string(pipe.accepted)))
	}
	got := cr.outcome()
	v := pass(pipe.total > 0, fault, s.traceHash, text)
	v.Inter = s.traceHash
	broken := (fired && fault != "consumer closes with error" || tp.killed) && !prodDone
	switch {
	case tc.killed:
		// the consumer died: the producer must have been told, or be done
		if wErr == nil && !prodDone && !tp.killed {
			return viol("producer-untold", "the consumer died and the producer neither failed nor finished")
		}
		if wErr != nil && !errors.Is(wErr, errDied) {
			return viol("producer-error", "the consumer died and the producer got %q", wErr)
		}
		return v
	case broken:
		want := pipe.werr
		if got.Res.Err == nil || !errors.Is(got.Res.Err, want) {
			if golden.Res.Err != nil && !errors.Is(golden.Res.Err, io.EOF) && got.Res.Err != nil && got.Res.Err.Error() == golden.Res.Err.Error() {
				return v
			}
			return viol("consumer-error", "the producer failed with %q after %d of %d bytes and the consumer reports %v", want, pipe.total, len(text), got.Res.Err)
		}
		for _, o := range got.Res.Objs {
			if !isNilNode(o) {
				return viol("partial", "the producer failed after %d of %d bytes and the consumer got %s", pipe.total, len(text), short(dump(o), 200))
			}
		}
		if fired && (wErr == nil || !errors.Is(wErr, boom)) {
			return viol("producer-error", "the sink failed with %q and the producer reports %v", boom, wErr)
		}
		return v
	case fault == "consumer closes with error" && fired:
		if got.Res.Err == nil || !errors.Is(got.Res.Err, boom) {
			return viol("consumer-error", "reading failed with %q and the consumer reports %v", boom, got.Res.Err)
		}
		for _, o := range got.Res.Objs {
			if !isNilNode(o) {
				return viol("partial", "reading failed and the consumer got %s", short(dump(o), 200))
			}
		}
		if wErr != nil && !errors.Is(wErr, boom) {
			return viol("producer-error", "the consumer closed with %q and the producer got %q", boom, wErr)
		}
		if wErr == nil && !prodDone {
			return viol("producer-untold", "the consumer closed and the producer neither failed nor finished")
		}
		return v
	}
	if d := differ(golden, got); d != "" {
		return viol("loss", "the consumer got something else than from the complete text (%s): %s", fault, d)
	}
	if wErr != nil {
		// the consumer may stop early because of a lexical error
		if golden.Res.Err == nil || errors.Is(golden.Res.Err, io.EOF) {
			return viol("producer-error", "the producer got %q though nothing failed", wErr)
		}
	}
	return v
}

var _ = xsqlparser.EOF
