package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

func init() {
	scenarios["C01"] = &scenario{gen: genC01, exec: execC01, rule: "a random text (valid, damaged or padded to buffer borders) and a random way of splitting it over reads; non-trivial if the source was read in more than two reads or delivered something unusual"}
	scenarios["C02"] = &scenario{gen: genC02, exec: execC02, rule: "a random text and a source failure at a random byte offset, of a random error kind, with or without data; non-trivial if the failure fired after at least one byte"}
	scenarios["C03"] = &scenario{gen: genC03, exec: execC03, rule: "a random text damaged in transit, or deeply nested, parsed or tokenized in a random way, results rendered, walked and rewritten; non-trivial if the text was not empty"}
	scenarios["C04"] = &scenario{gen: genC04, exec: execC04, rule: "a random finished statement or token prefix with random continuations or cuts; non-trivial if the statement parsed or a token was compared"}
	scenarios["C05"] = &scenario{gen: genC05, exec: execC05, rule: "a random text and further pulls or parser calls after its end, from sources that would then give more, fail otherwise or panic; non-trivial if the end was reached"}
	scenarios["C20"] = &scenario{gen: genC20, exec: execC20, rule: "a random text from a source that stalls at a random offset while tokens are pulled, or a random mix of ways of pulling; non-trivial if the source stalled after at least one token"}
}

func cloneOp(op *Op) *Op {
	c := *op
	if op.Read != nil {
		r := *op.Read
		c.Read = &r
	}
	if op.Write != nil {
		w := *op.Write
		c.Write = &w
	}
	c.Acts = append([]Act(nil), op.Acts...)
	c.Calls = append([]string(nil), op.Calls...)
	return &c
}

// calm is the operation without anything unusual from the caller.
func calm(op *Op) *Op {
	c := cloneOp(op)
	c.Read = nil
	c.Kill = 0
	if c.Write != nil {
		c.Write.FailAt = -1
	}
	c.Acts = nil
	return c
}

func badClass(c string) bool { return c != "ok" }

// describe gives the end of an outcome in a few words.
func describe(o *Outcome) string {
	s := o.Class
	if o.Class == "panic" {
		s += " " + short(normErr(fmt.Sprint(o.Panic)), 120)
	}
	if o.ErrText != "" {
		s += " error " + short(o.ErrText, 120)
	}
	return s
}

func wraps(r *Rand) string {
	if r.P(65) {
		return ""
	}
	return r.Pick("rich", "rich", "bufio", "bufio4k", "limited", "tee", "multi")
}

// C01

func genC01(r *Rand) *Plan {
	p := &Plan{Kind: "split"}
	if r.P(25) {
		p.Kind = "agree"
		op := genOp(r, srcOpt{corrupt: 25, pad: 25, kinds: []string{"tokenize"}})
		op.NoComm = r.P(30)
		for _, k := range []string{"tokenize", "pull", "scan", "mix"} {
			c := cloneOp(op)
			c.Kind = k
			if k == "mix" {
				c.MaxPull = r.Range(0, 40)
				c.Node = r.Intn(1 << 16)
			}
			c.Read = genReadPlan(r, len(op.SQL))
			c.Read.Wrap = wraps(r)
			p.Ops = append(p.Ops, c)
		}
		return p
	}
	op := genOp(r, srcOpt{corrupt: 25, pad: 30, huge: 1})
	op.Read = genReadPlan(r, len(op.SQL))
	op.Read.Wrap = wraps(r)
	op.Extra = r.Pick2(0, 0, 2)
	p.Ops = []*Op{op}
	return p
}

func execC01(p *Plan) *Verdict {
	if p.Kind == "agree" {
		golden := alone(calm(p.Ops[0]))
		if badClass(golden.Class) {
			return skip("reference run " + golden.Class)
		}
		interesting := false
		for _, op := range p.Ops {
			got := alone(op)
			if got.Class != golden.Class {
				return viol("agree-class", "%s ends with %s, tokenizing at once with %s", op.Kind, describe(got), describe(golden))
			}
			ge, ee := got.Res.Err, golden.Res.Err
			if ge != nil && op.Kind != "tokenize" && errors.Is(ge, io.EOF) {
				ge = nil
			}
			if (ge == nil) != (ee == nil) {
				return viol("agree-error", "%s: error %v, tokenizing at once: %v", op.Kind, got.Res.Err, golden.Res.Err)
			}
			if ee == nil {
				a, b := strings.Join(golden.Res.Toks, "\n"), strings.Join(got.Res.Toks, "\n")
				if a != b {
					return viol("agree-tokens", "%s: %s", op.Kind, diffAt(a, b))
				}
			} else if !strings.Contains(ee.Error(), ge.Error()) && !strings.Contains(ge.Error(), ee.Error()) {
				return viol("agree-errortext", "%s: error %v, tokenizing at once: %v", op.Kind, ge, ee)
			}
			if d := got.Res.later(); d != "" {
				return viol("agree-later", "%s: %s", op.Kind, d)
			}
			interesting = interesting || got.Env.reader.reads > 2
		}
		return pass(interesting, "agree", p.Ops[0].SQL, p.Ops[0].Dialect)
	}
	op := p.Ops[0]
	golden := alone(calm(op))
	got := alone(op)
	if golden.Class == "hang" && got.Class == "hang" {
		return skip("both hang")
	}
	if d := got.Res.later(); d != "" {
		return viol("later", "%s of %q: %s", op.Kind, short(string(op.SQL), 200), d)
	}
	if d := differ(golden, got); d != "" {
		return viol("fragmentation", "%s of %q: %s", op.Kind, short(string(op.SQL), 200), d)
	}
	rd := got.Env.reader
	if rd == nil {
		return skip("no source")
	}
	if rd.reads > 2 && op.Kind == "parse" && golden.Res.Err == nil {
		probe("split-parse-ok")
	}
	if len(op.SQL) > 1024 {
		probe("text-over-1024")
	}
	return pass(rd.reads > 2 || len(got.Env.fired) > 0, op.Kind, op.SQL, op.Dialect, op.Read.Chunks, op.Read.Rest)
}

// C02

func genC02(r *Rand) *Plan {
	op := genOp(r, srcOpt{corrupt: 15, pad: 25, huge: 1, kinds: []string{"parse", "parse", "parse", "parse", "tokenize", "pull", "pull", "scan", "settokens", "mix", "incr"}})
	if op.Kind == "mix" {
		op.MaxPull = r.Range(0, 20)
	}
	if op.Kind == "incr" {
		op.Calls = []string{"statement"}
	}
	op.Read = genReadPlan(r, len(op.SQL))
	op.Read.Wrap = wraps(r)
	n := len(op.SQL)
	op.Read.FailAt = r.Intn(n + 1)
	if r.P(25) {
		// near the end, where everything needed has been read
		op.Read.FailAt = n - r.Intn(min(n, 4)+1)
	}
	if r.P(25) {
		// right after a token
		s := string(op.SQL)
		if i := strings.IndexAny(s[op.Read.FailAt:], " ;,()\n"); i >= 0 {
			op.Read.FailAt += i + r.Intn(2)
		}
	}
	if r.P(12) {
		// in the middle of a character
		s, i, j := insertForeign(r, string(op.SQL))
		op.SQL = Bytes(s)
		op.Read.FailAt = r.Range(i, j)
		if r.P(70) {
			op.Kind = r.Pick("pull", "scan", "tokenize")
			op.Calls, op.MaxPull = nil, 0
		}
	}
	op.Read.Err = errKinds[r.Intn(len(errKinds))]
	op.Read.After = r.Pick("", "", "resume", "resume", "more", "eof", "other")
	op.Extra = r.Pick2(0, 0, 2)
	return &Plan{Kind: "fail", Ops: []*Op{op}}
}

func atLeast(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func execC02(p *Plan) *Verdict {
	op := p.Ops[0]
	golden := alone(calm(op))
	got := alone(op)
	if golden.Class != "ok" {
		return skip("reference run " + golden.Class)
	}
	rd := got.Env.reader
	if rd == nil {
		return skip("no source")
	}
	if got.Class != "ok" {
		return viol("class", "the source failed with %s at byte %d and the call ended with %s", op.Read.Err, op.Read.FailAt, describe(got))
	}
	if len(got.Res.Issues) > 0 {
		return viol("contract", "%s", got.Res.Issues[0])
	}
	want := golden.Res.Toks
	if len(got.Res.Toks) > len(want) || strings.Join(want[:min(len(got.Res.Toks), len(want))], "\n") != strings.Join(got.Res.Toks, "\n") {
		return viol("tokens", "tokens before the failure are not the first tokens of the text: %s", diffAt(strings.Join(want, "\n"), strings.Join(got.Res.Toks, "\n")))
	}
	if !rd.ended || rd.err == io.EOF {
		// the failure was never reached: the rest of the text was not needed
		if d := differ(golden, got); d != "" {
			return viol("unreached", "the failure was not reached but the result differs: %s", d)
		}
		return pass(false, "unreached")
	}
	if op.Kind == "incr" && golden.Res.Err == nil && got.Res.Err == nil {
		// the statement was complete before the failure
		if d := differ(golden, got); d != "" {
			return viol("incremental", "%s", d)
		}
		return pass(true, "incr-before", op.SQL, op.Read.FailAt)
	}
	err := got.Res.Err
	for _, o := range got.Res.Objs {
		if !isNilNode(o) {
			return viol("result", "the source failed with %q at byte %d of %d but %s gave a result: %s", rd.err, op.Read.FailAt, len(op.SQL), op.Kind, short(dump(o), 200))
		}
	}
	if err == nil {
		return viol("swallowed", "the source failed with %q at byte %d of %d and no error was reported by %s", rd.err, op.Read.FailAt, len(op.SQL), op.Kind)
	}
	if !errors.Is(err, rd.err) {
		ge := golden.Res.Err
		if ge != nil && !errors.Is(ge, io.EOF) && ge.Error() == err.Error() {
			// a lexical error of the text itself, found before the failure mattered
			return pass(false, "lexical", op.SQL)
		}
		return viol("othererror", "the source failed with %q (%s) at byte %d of %d but the error is %q", rd.err, op.Read.Err, op.Read.FailAt, len(op.SQL), err)
	}
	switch op.Read.Err {
	case "xeof", "eofname", "wrapeof", "unexpected":
		probe("eof-like-failure")
	}
	if op.Read.With {
		probe("failure-with-data")
	}
	return pass(op.Read.FailAt > 0, op.Kind, op.SQL, op.Read.FailAt, op.Read.Err)
}

// C03

func genC03(r *Rand) *Plan {
	if r.Intn(1500) == 0 {
		p := genC23(r)
		p.Kind, p.C = "huge", 0
		if f := string(p.S); f != "window" && f != "nest" && r.P(70) {
			p.S = Bytes(nested[r.Intn(len(nested))])
		}
		if r.P(60) {
			p.Ops[0].Kind = "parse"
			p.Ops[0].Calls = []string{r.Pick("sql", "statement", "file")}
		}
		if k := p.Ops[0].Kind; k == "pull" || k == "scan" {
			p.Ops[0].Kind = "tokenize"
		}
		p.Ops[0].Read.Rest = 4096
		p.A = r.Range(100, 600) * 1000
		return p
	}
	op := genOp(r, srcOpt{corrupt: 0, pad: 5, kinds: []string{"parse", "parse", "parse", "parse", "parse", "parse", "tokenize", "pull", "scan", "settokens"}, calls: []string{"statement", "sql", "sql", "file", "file", "file+cmap", "expr", "type", "multi"}})
	if r.P(12) {
		op.SQL = Bytes(deepText(r))
		if r.P(50) {
			op.SQL = Bytes(corrupt(r, string(op.SQL)))
		}
	} else if r.P(95) {
		op.SQL = Bytes(corrupt(r, string(op.SQL)))
	}
	if r.P(30) {
		op.Read = genReadPlan(r, len(op.SQL))
	}
	return &Plan{Kind: "damage", Ops: []*Op{op}}
}

// workBound is the number of steps that an input of n bytes may take. The
// largest ever seen on the unchanged code is less than a twentieth of it.
func workBound(n int, calls int) int64 {
	m := int64(n + 50)
	return (m*3000 + m*m*30) * int64(calls+1)
}

const hugeStack = 250 << 20 // what Go allows on 32-bit machines, a quarter of what it allows here

// hugeText is a text with one construct repeated or nested up to p.A times.
func hugeText(p *Plan) string {
	text := func(k int) string { return longTextOf(p, k) }
	k := p.A
	if n := len(text(100)) / 100 * k; n > 1_000_000 {
		k = k * 1_000 / (n / 1_000)
	}
	return text(k)
}

func execC03(p *Plan) *Verdict {
	op := p.Ops[0]
	limit := workBound(len(op.SQL), len(op.Calls))
	if p.Kind == "huge" {
		op = cloneOp(op)
		op.SQL = Bytes(hugeText(p))
		limit = int64(len(op.SQL)) * 10_000
		defer debug.SetMaxStack(debug.SetMaxStack(hugeStack))
		defer runtime.GC()
		probe("huge-" + string(p.S))
	}
	got := aloneLimit(op, limit, nil)
	if r := got.Steps * 1000 / limit; r > stats.MaxWork {
		stats.MaxWork = r
		stats.MaxWorkOf = short(fmt.Sprintf("%s %v %q", op.Kind, op.Calls, op.SQL), 300)
	}
	switch got.Class {
	case "ok":
	case "hang":
		return viol("hang", "%s %v of %q did not end within %d steps", op.Kind, op.Calls, short(string(op.SQL), 300), limit)
	default:
		return viol("class-"+got.Class, "%s %v of %q ended with %s\n%s", op.Kind, op.Calls, short(string(op.SQL), 300), describe(got), firstLines(got.Stack, 30))
	}
	if len(got.Res.Issues) > 0 {
		return viol("contract", "%s of %q: %s", op.Kind, short(string(op.SQL), 300), got.Res.Issues[0])
	}
	// use the results
	var roots []sqlast.Node
	for _, o := range got.Res.Objs {
		switch o := o.(type) {
		case nil:
		case []sqlast.Stmt:
			for _, s := range o {
				roots = append(roots, s)
			}
		case sqlast.Node:
			if !isNilNode(o) {
				roots = append(roots, o)
			}
		}
	}
	if p.Kind == "huge" {
		probe("huge-parsed")
		debug.SetMaxStack(4 * hugeStack)
	}
	for _, n := range roots {
		probe("damaged-but-parsed")
		stage := ""
		cl, pv, st := guarded(limit*20, func() {
			stage = "rendering"
			n.ToSQLString()
			n.WriteTo(io.Discard)
			stage = "walking"
			sqlast.Inspect(n, func(sqlast.Node) bool { return true })
			stage = "asking the positions of"
			nodes := []sqlast.Node{n}
			if p.Kind != "huge" {
				nodes = allNodes(n)
			}
			for _, x := range nodes {
				stage = "asking the position of the " + typeName(x) + " in"
				x.Pos()
				x.End()
			}
			if f, ok := n.(*sqlast.File); ok {
				stage = "making the comment map of"
				if m := sqlast.NewCommentMap(f); len(f.Comments) > 0 {
					probe("comment-map-made")
					_ = m
				}
			}
			stage = "rewriting"
			sqlastutil.Apply(n, func(*sqlastutil.Cursor) bool { return true }, func(*sqlastutil.Cursor) bool { return true })
		})
		if cl != "ok" {
			return viol("use-"+stage, "%s the %s parsed from %q ended with %s %v\n%s", stage, typeName(n), short(string(op.SQL), 300), cl, pv, firstLines(st, 30))
		}
	}
	return pass(len(op.SQL) > 0, op.Kind, op.Calls, op.SQL, op.Dialect)
}

// guarded runs f as the only task of a simulation.
func guarded(limit int64, f func()) (class string, p interface{}, stack string) {
	s := &Sched{}
	t := s.AddTask("guarded", limit, f)
	s.Run()
	stats.steps += s.total
	switch {
	case t.hung:
		return "hang", nil, t.stack
	case t.state != tsDone:
		return "blocked", nil, ""
	case t.panicked:
		return "panic", t.panicVal, t.stack
	case t.goexit:
		return "goexit", nil, ""
	}
	return "ok", nil, ""
}

// C04

func genC04(r *Rand) *Plan {
	d := pickDialect(r)
	n := r.Range(1, 3)
	t := genScript(r, d, n, true)
	if r.P(15) {
		padTo(r, t)
	}
	offs := t.offsets()
	full := t.String()
	kind := "statement"
	k := r.Range(1, n) // statements kept
	end := offs[t.ends[k-1]-1]
	suffix := genFollow(r, d, full[end:])
	p := &Plan{Kind: kind, A: end, B: k}
	op := &Op{Kind: "parse", Dialect: d, Comments: r.P(30), SQL: Bytes(full[:end])}
	other := cloneOp(op)
	other.SQL = Bytes(full[:end] + suffix)
	if r.P(40) {
		other.Read = genReadPlan(r, len(other.SQL))
	}
	p.Ops = []*Op{op, other}
	switch r.Intn(5) {
	case 0, 1:
		p.Kind = "statement"
		op.Calls = []string{"statement"}
		other.Calls = []string{"statement"}
		for i := r.Intn(4); i > 0; i-- {
			more := cloneOp(op)
			more.SQL = Bytes(full[:end] + genFollow(r, d, full[end:]))
			p.Ops = append(p.Ops, more)
		}
	case 2:
		p.Kind = "script"
		op.Calls = []string{"sql"}
		other.Calls = []string{"sql"}
	case 3:
		p.Kind = "incr"
		k = 1
		end = offs[t.ends[0]-1]
		op.SQL = Bytes(full[:end])
		op.Calls = []string{"statement"}
		other.Calls = []string{"statement"}
		other.SQL = Bytes(full[:end] + suffix)
		other.Read = genReadPlan(r, len(other.SQL))
		other.Kind = "incr"
	case 4:
		p.Kind = "tokens"
		cut := r.Intn(len(full) + 1)
		p.A = cut
		op.SQL = Bytes(full)
		op.Kind = r.Pick("pull", "scan")
		op.Comments = false
		other = cloneOp(op)
		p.C = 0
		other.SQL = Bytes(full[:cut])
		if r.P(50) {
			p.C = 1
			other.SQL += Bytes(suffix)
		}
		other.Read = genReadPlan(r, len(other.SQL))
		p.L = offs
		p.Ops = []*Op{op, other}
	}
	return p
}

// followers are words that could extend some statement, were there no
// semicolon before them.
var followers = []string{
	"OFFSET 5", "LIMIT 1", "LIMIT ALL", "AS x", "x", "ASC", "DESC", "UNION SELECT 1", "UNION ALL SELECT 1", "EXCEPT SELECT 1", "INTERSECT SELECT 1",
	"JOIN t ON a = b", "LEFT JOIN t USING (a)", "CROSS JOIN t", "NATURAL JOIN t", "WHERE a = 1", "GROUP BY a", "HAVING a > 1", "ORDER BY a",
	"ON DUPLICATE KEY UPDATE a = 1", "VALUES (1)", "SET a = 1", "CASCADE", "RESTRICT", "ENGINE = InnoDB", "DEFAULT CHARSET = utf8", "CHARSET utf8",
	"AND a", "OR b", "= 1", "+ 1", "- 1", "* 2", "IS NULL", "IS NOT NULL", "NOT NULL", "NOT IN (1)", "IN (1, 2)", "BETWEEN 1 AND 2", "LIKE 'a'",
	"(a, b)", ", a", ", (1, 2)", ".b", "::int", "OVER (ORDER BY a)", "UNSIGNED", "[ ]", "VARYING(3)", "PRECISION", "WITH TIME ZONE", "WITH (NOLOCK)",
	"USING btree (a)", "FROM t", "INTO t", "ELSE 1 END", "THEN 1", "WHEN 1 THEN 2", "END", "UNIQUE", "PRIMARY KEY", "REFERENCES t (a)", "CHECK (a)",
	"AUTO_INCREMENT", "CONSTRAINT c UNIQUE (a)", "TABLE t", "VIEW v AS SELECT 1", "INDEX i", "COLUMN c", "TYPE int", "DROP DEFAULT", "ADD COLUMN a int",
	"SELECT 2", "EXPLAIN SELECT 1", "WITH q AS (SELECT 1) SELECT 2", "NULL", "TRUE", "1", "'s'", "N's'", "/* c */", "-- c\n", "\n", ";", "FOLLOWING", "ROW",
}

// genFollow makes a text to stand after a finished statement; rest is what
// stood there.
func genFollow(r *Rand, d, rest string) string {
	gap := r.Pick("", " ", "\n", "  ", " /* gap */ ", " -- gap\n")
	switch r.Intn(9) {
	case 0:
		return ""
	case 1: // a cut of the original continuation
		return rest[:r.Intn(len(rest)+1)]
	case 2:
		return r.Pick("", " ", "\n") + genScript(r, d, r.Range(1, 3), r.P(50)).String()
	case 3:
		return corrupt(r, genScript(r, d, r.Range(1, 2), r.P(50)).String())
	case 4:
		return r.Pick("'", "\"", "`", "/*", "--", ";", ")", "(", "\x00", "\xff", " AS x", " UNION SELECT 1", ",", ".", "\xe6", "N'", "SELECT", "/* x", "*/", "\n-- tail", "!", "!=", "'abc", "WHERE", "0", "LIMIT 1", "AND 1", "::int")
	case 5:
		return strings.Repeat(";", r.Range(1, 3)) + genScript(r, d, 1, r.P(50)).String()
	case 6: // the end of another statement
		t := genScript(r, d, 1, r.P(50))
		return gap + strings.Join(t.lex[r.Intn(len(t.lex)):], "")
	default:
		s := gap
		for i := r.Range(1, 2); i > 0; i-- {
			f := followers[r.Intn(len(followers))]
			if r.P(40) {
				f = strings.ToLower(f)
			}
			s += f + r.Pick("", " ", "\n", ";", " ;\n")
		}
		return s
	}
}

func execC04(p *Plan) *Verdict {
	a := alone(p.Ops[0])
	done := skip("nothing to compare")
	for _, op := range p.Ops[1:] {
		v := judgeC04(p, a, alone(op), op)
		if v.Violation != "" {
			return v
		}
		if done.Skip != "" || v.NonTrivial {
			done = v
		}
	}
	return done
}

func judgeC04(p *Plan, a, b *Outcome, op *Op) *Verdict {
	if a.Class != "ok" || b.Class != "ok" {
		if a.Class != b.Class && p.Kind != "script" && !(b.Class == "panic" || b.Class == "hang") {
			return viol("class", "%s against %s", describe(a), describe(b))
		}
		return skip("run " + a.Class + "/" + b.Class)
	}
	if p.Kind == "tokens" {
		if len(a.Res.Toks) != len(p.L) {
			return skip("lexemes are not tokens")
		}
		n := 0
		for n < len(p.L) && (p.L[n] < p.A || p.L[n] == p.A && p.C == 0) {
			n++
		}
		if len(b.Res.Toks) < n {
			return viol("tokens-missing", "%d tokens end before the cut at byte %d, only %d were delivered (then %s)", n, p.A, len(b.Res.Toks), describe(b))
		}
		for i := 0; i < n; i++ {
			if a.Res.Toks[i] != b.Res.Toks[i] {
				return viol("tokens", "token %d ends before the cut at byte %d but is %s instead of %s", i, p.A, b.Res.Toks[i], a.Res.Toks[i])
			}
		}
		return pass(n > 0, "tokens", op.SQL)
	}
	if len(a.Res.Text) == 0 || a.Res.Err != nil {
		return skip("the statement does not parse by itself")
	}
	if len(b.Res.Text) > 0 && strings.HasPrefix(b.Res.Text[0], "new: ") {
		return skip("the continuation is no sequence of tokens")
	}
	if p.Kind == "script" {
		if b.Res.Err != nil {
			return skip("the continuation does not parse")
		}
		la, lb := stmts(a), stmts(b)
		if len(lb) < len(la) {
			return viol("script-lost", "%d statements before the continuation, %d with it", len(la), len(lb))
		}
		for i := range la {
			if x, y := dump(la[i]), dump(lb[i]); x != y {
				return viol("script", "statement %d changes with what follows: %s", i, diffAt(x, y))
			}
		}
		return pass(len(lb) > len(la), "script", op.SQL)
	}
	if p.Kind == "incr" {
		if d := diffText(a.Res.Text, b.Res.Text); d != "" {
			return viol("incremental", "the statement read up to its semicolon from a stream that goes on: %s", d)
		}
		return pass(true, "incr", op.SQL)
	}
	if d := diffText(a.Res.Text, b.Res.Text); d != "" {
		return viol("statement", "the statement changes with what follows it: %s", d)
	}
	if b.Res.Err == nil {
		probe("statement-ok")
	}
	return pass(true, "statement", op.SQL)
}

func diffText(a, b []string) string {
	x, y := strings.Join(a, "\n"), strings.Join(b, "\n")
	if x == y {
		return ""
	}
	return diffAt(x, y)
}

func stmts(o *Outcome) []sqlast.Stmt {
	for _, v := range o.Res.Objs {
		if l, ok := v.([]sqlast.Stmt); ok {
			return l
		}
	}
	return nil
}

// C05

func genC05(r *Rand) *Plan {
	if r.P(35) {
		// the parser's end
		op := genOp(r, srcOpt{pad: 10, kinds: []string{"parse", "parse", "settokens"}, calls: []string{"sql"}})
		one := r.P(40)
		if one {
			t := genScript(r, op.Dialect, 1, false)
			op.SQL = Bytes(t.String())
			op.Calls = []string{"statement"}
		} else {
			op.Calls = []string{r.Pick("sql", "file")}
		}
		op.Comments = r.P(40)
		n := r.Range(1, 6)
		for i := 0; i < n; i++ {
			op.Calls = append(op.Calls, r.Pick("statement", "statement", "sql", "file", "expr", "type"))
		}
		if op.Kind == "parse" && r.P(50) {
			op.Read = genReadPlan(r, len(op.SQL))
			op.Read.After = r.Pick("more", "other", "eof", "")
		}
		return &Plan{Kind: "parser", Ops: []*Op{op}}
	}
	op := genOp(r, srcOpt{corrupt: 10, pad: 15, kinds: []string{"pull", "pull", "scan", "tokenize"}})
	op.Read = genReadPlan(r, len(op.SQL))
	op.Read.After = r.Pick("more", "more", "other", "eof", "")
	op.Read.Wrap = r.Pick("", "", "", "tee", "limited", "bufio", "bufio4k", "multi")
	if r.P(50) {
		op.Read.FailAt = r.Intn(len(op.SQL) + 1)
		op.Read.Err = errKinds[r.Intn(len(errKinds))]
	}
	op.Extra = r.Range(1, 6)
	op.Node = r.Intn(1 << 12)
	return &Plan{Kind: "tokenizer", Ops: []*Op{op}}
}

func execC05(p *Plan) *Verdict {
	op := p.Ops[0]
	got := alone(op)
	if got.Class != "ok" {
		return skip("run " + got.Class)
	}
	res := got.Res
	rd := got.Env.reader
	if rd != nil && rd.late > 0 {
		return viol("late-read", "the source was read %d times after it reported %q", rd.late, rd.err)
	}
	if p.Kind == "parser" {
		if len(res.Errs) == 0 || res.Errs[0] != nil || len(res.Objs) == 0 {
			return skip("the text does not parse")
		}
		if op.Calls[0] == "statement" {
			// only if it is one statement and nothing else
			c := calm(op)
			c.Calls = []string{"sql"}
			if o := alone(c); o.Class != "ok" || o.Res.Err != nil || len(stmts(o)) != 1 {
				return skip("not exactly one statement")
			}
		}
		k := 0
		for i, c := range op.Calls {
			if i == 0 {
				k++
				continue
			}
			err, v := res.Errs[k], res.Objs[k]
			k++
			switch c {
			case "statement", "expr", "type":
				if err == nil || !isNilNode(v) {
					return viol("parser-more", "%s after the last statement gave %s, error %v", c, short(dump(v), 200), err)
				}
				if c == "statement" && !errors.Is(err, xsqlparser.EOF) && !errors.Is(err, io.EOF) {
					return viol("parser-error", "%s after the last statement reports %q instead of the end of input", c, err)
				}
			case "sql":
				if l, _ := v.([]sqlast.Stmt); len(l) > 0 || err != nil {
					return viol("parser-script", "parsing the rest after the last statement gave %s, error %v", short(dump(v), 200), err)
				}
			case "file":
				f, _ := v.(*sqlast.File)
				if err != nil || f == nil || len(f.Stmts) > 0 {
					return viol("parser-file", "parsing the rest after the last statement gave %s, error %v", short(dump(v), 200), err)
				}
			}
		}
		return pass(true, "parser", op.SQL, op.Calls)
	}
	if !rd.ended {
		return pass(false, "notended")
	}
	eof := rd.err == io.EOF
	failed := !eof
	first := res.Err
	if op.Kind == "tokenize" {
		if first != nil && eof {
			return pass(false, "lexical") // a lexical error, not the end
		}
	} else {
		if first == nil {
			return skip("no end")
		}
		if eof && !errors.Is(first, io.EOF) {
			return pass(false, "lexical")
		}
	}
	if failed && !errors.Is(first, rd.err) {
		return pass(false, "lexical")
	}
	for i, err := range res.Errs {
		if err == nil {
			return viol("token-after-end", "pull %d after the end (%v): %s", i+1, first, res.Text[len(res.Text)-len(res.Errs)+i])
		}
		if eof && !errors.Is(err, io.EOF) || failed && !errors.Is(err, rd.err) {
			return viol("end-changes", "pull %d after the end reports %q, the end was reported as %q", i+1, err, first)
		}
	}
	if failed {
		probe("pulls-after-failure")
	} else {
		probe("pulls-after-eof")
	}
	return pass(len(res.Errs) > 0, op.Kind, op.SQL, op.Read.FailAt, op.Read.After)
}

// C20

func genC20(r *Rand) *Plan {
	d := pickDialect(r)
	t := genScript(r, d, r.Range(1, 3), r.P(60))
	if r.P(20) {
		padTo(r, t)
	}
	s := t.String()
	if r.P(20) {
		op := &Op{Kind: "mix", Dialect: d, SQL: Bytes(s), MaxPull: r.Range(1, 60), Node: r.Intn(1 << 16), WithOpts: r.P(30), NoComm: r.P(30)}
		op.Read = genReadPlan(r, len(s))
		return &Plan{Kind: "mix", Ops: []*Op{op}}
	}
	op := &Op{Kind: r.Pick("pull", "scan"), Dialect: d, SQL: Bytes(s), WithOpts: r.P(30), NoComm: r.P(30)}
	op.Read = genReadPlan(r, len(s))
	if r.P(30) {
		op.Read.Chunks = nil
		op.Read.Rest = 0
	}
	op.Read.With = r.P(20)
	op.Read.StallAt = r.Intn(len(s) + 1)
	offs := t.offsets()
	if r.P(40) {
		op.Read.StallAt = min(len(s), offs[r.Intn(len(offs))]+r.Pick2(0, 1, 2, 2, 2, 3))
	}
	op.Read.Wrap = wraps(r)
	if r.P(15) {
		op.Read.FailAt = len(s) - r.Intn(len(s)-op.Read.StallAt+1)
		op.Read.Err = errKinds[r.Intn(len(errKinds))]
	}
	return &Plan{Kind: "stall", Ops: []*Op{op}, L: offs, Sched: genDecisions(r, 2)}
}

func execC20(p *Plan) *Verdict {
	op := p.Ops[0]
	if p.Kind == "mix" {
		g := calm(op)
		g.Kind = "tokenize"
		golden := alone(g)
		got := alone(op)
		if golden.Class != "ok" || golden.Res.Err != nil {
			return skip("reference run")
		}
		if got.Class != "ok" {
			return viol("mix-class", "pulling %d tokens and then the rest ends with %s", op.MaxPull, describe(got))
		}
		a, b := strings.Join(golden.Res.Toks, "\n"), strings.Join(got.Res.Toks, "\n")
		if a != b || got.Res.Err != nil && !errors.Is(got.Res.Err, io.EOF) {
			return viol("mix", "pulling %d tokens and then the rest: %s %v", op.MaxPull, diffAt(a, b), got.Res.Err)
		}
		return pass(true, "mix", op.SQL, op.MaxPull)
	}
	all := calm(op)
	all.NoComm = false
	golden := alone(all)
	if golden.Class != "ok" || len(golden.Res.Toks) != len(p.L) {
		return skip("lexemes are not tokens")
	}
	ends := p.L
	if op.NoComm {
		// only some of them are delivered
		ends = nil
		for i, t := range golden.Res.Toks {
			if !strings.HasPrefix(t, "Whitespace ") && !strings.HasPrefix(t, "Comment ") {
				ends = append(ends, p.L[i])
			}
		}
		golden = alone(calm(op))
		if golden.Class != "ok" || len(golden.Res.Toks) != len(ends) {
			return viol("left-out", "without whitespace and comments %d of %d tokens should be left, %d are", len(ends), len(p.L), len(golden.Res.Toks))
		}
		probe("without-comments")
	}
	r := newRun(op)
	delivered := -1
	s := &Sched{decisions: p.Sched}
	r.task = s.AddTask("pull", defaultLimit, r.body)
	s.AddTask("writer", 0, func() {
		Block(func() bool { return r.e.stalled || r.task.state == tsDone })
		if r.e.stalled {
			delivered = len(r.res.Toks)
		}
		r.e.unstall = true
	})
	s.Run()
	stats.steps += s.total
	stats.Switches += int64(s.switches)
	stats.addFired(r.e)
	got := r.outcome()
	if got.Class != "ok" {
		return viol("class", "pulling from a source that stalls ended with %s, without stall with %s", describe(got), describe(golden))
	}
	if delivered >= 0 {
		sup := string(op.SQL[:op.Read.StallAt])
		n := 0
		for n < len(ends) && fullRunes(sup, ends[n]) >= 2 {
			n++
		}
		if delivered < n {
			return viol("withheld", "the source stalled after %d bytes: %d tokens are complete and at least two characters were supplied after them, %d were delivered", op.Read.StallAt, n, delivered)
		}
	}
	if op.Read.FailAt < 0 {
		if d := differ(golden, got); d != "" {
			return viol("result", "the tokens after the stall differ: %s", d)
		}
	} else {
		a, b := strings.Join(golden.Res.Toks[:min(len(golden.Res.Toks), len(got.Res.Toks))], "\n"), strings.Join(got.Res.Toks, "\n")
		if a != b {
			return viol("result", "the tokens after the stall differ: %s", diffAt(a, b))
		}
	}
	v := pass(delivered > 0, op.Kind, op.SQL, op.Read.StallAt)
	v.Inter = s.traceHash
	return v
}

// fullRunes counts the complete characters of s from byte i on.
func fullRunes(s string, i int) int {
	if i > len(s) {
		return -1
	}
	n := 0
	for i < len(s) {
		if !utf8.FullRuneInString(s[i:]) {
			return n
		}
		_, w := utf8.DecodeRuneInString(s[i:])
		i += w
		n++
	}
	return n
}
