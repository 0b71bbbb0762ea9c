package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/verifhook"
)

func init() {
	scenarios["C23"] = &scenario{gen: genC23, exec: execC23, rule: "a text with one part repeated k times and 8k times, consumed from a fragmenting or failing source, then rendered into failing and other sinks, walked and rewritten; the executed steps, the reads and writes and the allocated bytes may grow 8 times, with a margin; non-trivial if the longer text was consumed"}
}

// growth is how many times longer the longer text is.
const growth = 8

// families are the ways of making a text longer without end.
var families = []string{
	"script", "comments", "commented", "list", "in", "args", "chain", "and", "from", "joins", "values", "union", "parens", "subquery",
	"nested-call", "case", "order", "group", "cte", "columns", "constraints", "set", "dots", "string", "comment", "word", "quoted",
	"number", "blanks", "not", "minus", "semicolons", "lines", "explain", "partition", "exists", "from-subquery", "nested-case", "rows", "insert-columns",
	"cast", "nested-cte", "query-parens", "nested-in", "between", "nested-not", "lateral",
	"is-null", "is-not-null", "double-colon", "in-chain", "like-chain", "between-chain", "array", "operators", "set-ops", "paren-joins", "functions", "windows", "actions", "names",
}

// nested are those that nest.
var nested = []string{"parens", "subquery", "nested-call", "not", "minus", "explain", "exists", "from-subquery", "nested-case", "cast", "nested-cte", "query-parens", "nested-in", "between", "nested-not", "lateral"}

// genParts cuts a random text so that its middle can be repeated ("window") or
// the whole can be put into itself ("nest").
func genParts(r *Rand, d string) (family string, parts []string) {
	join := func(l []string) string { return strings.Join(l, "") }
	family = r.Pick("window", "nest", "nest")
	for try := 0; try < 20; try++ {
		r.small = 97
		var lex []string
		pre, end := "", ";"
		if family == "window" {
			lex = genScript(r, d, 1, true).lex
			pre, end = "", ""
		} else if r.P(60) {
			lex = genExprText(r, d).lex
			pre, end = "SELECT ", " FROM t;"
			if r.P(30) {
				pre = "SELECT 1 FROM t WHERE "
				end = ";"
			}
		} else {
			g := newSQLGen(r, d)
			g.query()
			lex = g.lex
		}
		r.small = 0
		n := 0
		for _, l := range lex {
			n += len(l)
			if strings.HasPrefix(l, "--") {
				n += 10000
			}
		}
		if n > 600 || len(lex) == 0 {
			continue
		}
		if family == "window" {
			i := r.Intn(len(lex))
			j := min(len(lex), i+r.Range(1, 6))
			return family, []string{join(lex[:i]), join(lex[i:j]) + r.Pick("", " "), join(lex[j:])}
		}
		// an operand gives way to the whole
		var at []int
		for i, l := range lex {
			c := l[0]
			if (c >= 'a' && c <= 'z' || c >= '0' && c <= '9') && (i == 0 || lex[i-1] != ".") && (i+1 == len(lex) || lex[i+1] != "." && lex[i+1] != "(") {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		i := at[r.Intn(len(at))]
		a, x, b := join(lex[:i]), lex[i], join(lex[i+1:])
		if pre == "" {
			// a query
			x = join(lex)
		}
		if pre == "" || r.P(50) {
			a, b = a+"(", ")"+b
		}
		return family, []string{pre, a, x, b, end}
	}
	r.small = 0
	return "window", []string{"SELECT ", "a, ", "b FROM t;"}
}

// longTextOf is the text of a plan with k parts.
func longTextOf(p *Plan, k int) string {
	part := func(i int) string {
		if i >= len(p.Ops) {
			return ""
		}
		return string(p.Ops[i].SQL)
	}
	switch f := string(p.S); f {
	case "window":
		return part(1) + strings.Repeat(part(2), k) + part(3)
	case "nest":
		return part(1) + strings.Repeat(part(2), k) + part(3) + strings.Repeat(part(4), k) + part(5)
	default:
		return longText(f, part(1), part(2), part(3), k)
	}
}

// longText makes the text of a family with k parts; a is the part.
func longText(family, a, stmt, typ string, k int) string {
	rep := func(s, sep string) string { return strings.TrimSuffix(strings.Repeat(s+sep, k), sep) }
	nest := func(open, mid, end string) string { return strings.Repeat(open, k) + mid + strings.Repeat(end, k) }
	switch family {
	case "script":
		return rep(stmt, ";\n") + ";"
	case "comments":
		return rep("/* c */", "\n") + "\n" + stmt + ";"
	case "commented":
		return rep("-- about\n"+stmt+"; -- done\n", "")
	case "list":
		return "SELECT " + rep(a+" AS x", ", ") + " FROM t;"
	case "in":
		return "SELECT 1 FROM t WHERE x IN (" + rep(a, ", ") + ");"
	case "args":
		return "SELECT f(" + rep(a, ", ") + ") FROM t;"
	case "chain":
		return "SELECT " + rep("a", " + ") + " FROM t;"
	case "and":
		return "SELECT 1 FROM t WHERE " + rep("a = 1", " AND ") + ";"
	case "from":
		return "SELECT 1 FROM " + rep("t AS a", ", ") + ";"
	case "joins":
		return "SELECT 1 FROM t " + rep("JOIN u ON a = b", " ") + ";"
	case "values":
		return "INSERT INTO t VALUES (" + rep(a, ", ") + ");"
	case "rows":
		return "INSERT INTO t VALUES " + rep("("+a+", 1)", ", ") + ";"
	case "insert-columns":
		return "INSERT INTO t (" + rep("c", ", ") + ") VALUES (1);"
	case "union":
		return rep("SELECT "+a+" FROM t", " UNION ALL ") + ";"
	case "parens":
		return "SELECT " + nest("(", "1", ")") + " FROM t;"
	case "subquery":
		return "SELECT " + nest("(SELECT ", "1", " FROM t)") + " FROM t;"
	case "from-subquery":
		return "SELECT 1 FROM " + nest("(SELECT 1 FROM ", "t", ") AS s") + ";"
	case "exists":
		return "SELECT 1 FROM t WHERE " + nest("EXISTS (SELECT 1 FROM t WHERE ", "a = 1", ")") + ";"
	case "nested-call":
		return "SELECT " + nest("f(", "1", ")") + " FROM t;"
	case "nested-case":
		return "SELECT " + nest("CASE WHEN a = 1 THEN ", "1", " ELSE 2 END") + " FROM t;"
	case "cast":
		return "SELECT " + nest("CAST(", "1", " AS int)") + " FROM t;"
	case "nested-cte":
		return nest("WITH c AS (", "SELECT 1 FROM t", ") SELECT 1 FROM c") + ";"
	case "query-parens":
		return "SELECT 1 UNION " + nest("(SELECT 1 UNION ", "SELECT 2", ")") + ";"
	case "nested-in":
		return "SELECT " + nest("a IN (", "1", ")") + " FROM t;"
	case "between":
		return "SELECT 1 FROM t WHERE a " + nest("BETWEEN (b ", "", "AND 2) AND 3") + ";"
	case "nested-not":
		return "SELECT 1 FROM t WHERE " + nest("NOT (", "a", ")") + ";"
	case "lateral":
		return "SELECT 1 FROM " + nest("LATERAL (SELECT 1 FROM ", "t", ") AS l") + ";"
	case "case":
		return "SELECT CASE " + rep("WHEN a = 1 THEN "+a, " ") + " END FROM t;"
	case "order":
		return "SELECT 1 FROM t ORDER BY " + rep("a DESC", ", ") + ";"
	case "group":
		return "SELECT 1 FROM t GROUP BY " + rep(a, ", ") + ";"
	case "partition":
		return "SELECT f(1) OVER (PARTITION BY " + rep("a", ", ") + " ORDER BY " + rep("b", ", ") + ") FROM t;"
	case "cte":
		return "WITH " + rep("c AS (SELECT 1 FROM t)", ", ") + " SELECT 1 FROM t;"
	case "columns":
		return "CREATE TABLE t (" + rep("c "+typ+" NOT NULL", ", ") + ");"
	case "constraints":
		return "CREATE TABLE t (c int, " + rep("CONSTRAINT x UNIQUE (c, d)", ", ") + ");"
	case "set":
		return "UPDATE t SET " + rep("c = "+a, ", ") + " WHERE a = 1;"
	case "dots":
		return "SELECT " + rep("a", ".") + " FROM t;"
	case "string":
		return "SELECT '" + rep("word é ", "") + "' FROM t;"
	case "comment":
		return "SELECT 1 /* " + rep("word * ", "") + "*/ FROM t; -- " + rep("more ", "")
	case "word":
		return "SELECT " + rep("word_", "") + " FROM t;"
	case "quoted":
		return "SELECT \"" + rep("word ", "") + "\" FROM t;"
	case "number":
		return "SELECT 1." + rep("12", "") + " FROM t;"
	case "blanks":
		return "SELECT 1 " + rep(" \t", "") + "FROM t;"
	case "lines":
		return rep("\r\n", "") + "SELECT 1\n" + rep("\n", "") + "FROM t;"
	case "not":
		return "SELECT 1 FROM t WHERE " + rep("NOT", " ") + " a;"
	case "minus":
		return "SELECT " + rep("-", " ") + " 1 FROM t;"
	case "is-null":
		return "SELECT a " + rep("IS NULL", " ") + " FROM t;"
	case "is-not-null":
		return "SELECT a " + rep("IS NOT NULL", " ") + " FROM t;"
	case "double-colon":
		return "SELECT a" + rep("::"+typ, " ") + " FROM t;"
	case "in-chain":
		return "SELECT a " + rep("IN ("+a+")", " ") + " FROM t;"
	case "like-chain":
		return "SELECT 1 FROM t WHERE a " + rep("LIKE b", " ") + ";"
	case "between-chain":
		return "SELECT 1 FROM t WHERE a " + rep("BETWEEN b AND c", " ") + ";"
	case "array":
		return "CREATE TABLE t (a int" + rep("[]", "") + ");"
	case "operators":
		return "SELECT a " + rep("= 1 OR b < 2 AND c * 3", " ") + " FROM t;"
	case "set-ops":
		return rep("(SELECT "+a+" FROM t)", " EXCEPT ") + ";"
	case "paren-joins":
		return "SELECT 1 FROM " + nest("(", "t JOIN u ON a = b", ")") + ";"
	case "functions":
		return "SELECT " + rep("f(a, b) OVER (ORDER BY c) AS x", ", ") + " FROM t;"
	case "windows":
		return "SELECT " + nest("f(1) OVER (PARTITION BY ", "a", ")") + " FROM t;"
	case "actions":
		return rep("ALTER TABLE t ADD COLUMN c "+typ, ";\n") + ";"
	case "names":
		return "SELECT " + rep("\"a b\".c.d", ", ") + " FROM \"x y\".\"z\";"
	case "semicolons":
		return "SELECT 1 FROM t;" + rep("SELECT 1 FROM t;", "")
	case "explain":
		return rep("EXPLAIN", " ") + " SELECT 1 FROM t;"
	}
	panic("sim: unknown family " + family)
}

func genC23(r *Rand) *Plan {
	d := pickDialect(r)
	r.small = 100
	part := genExprText(r, d).String()
	r.small = 95
	stmt := strings.TrimRight(genScript(r, d, 1, false).String(), " \n;")
	if strings.Contains(stmt, "--") || len(stmt) > 2000 {
		stmt = "SELECT a, b FROM t WHERE c = 1"
	}
	if strings.Contains(part, "--") || len(part) > 400 {
		part = "a"
	}
	typ := genTypeText(r, d).String()
	if strings.Contains(typ, "--") {
		typ = "int"
	}
	op := &Op{Kind: r.Pick("parse", "parse", "parse", "settokens", "tokenize", "pull", "scan"), Dialect: d}
	if op.Kind == "parse" || op.Kind == "settokens" {
		op.Comments = r.P(50)
		op.Calls = []string{r.Pick("sql", "statement", "file")}
	}
	op.Read = genReadPlan(r, 2000)
	op.Read.Chunks = nil // the same way of splitting all along
	if op.Read.Rest == 0 && r.P(30) {
		op.Read.Rest = r.Range(1, 30)
	}
	p := &Plan{Kind: "growth", Ops: []*Op{op}, A: r.Pick2(32, 32, 60, 120, 400), B: r.Intn(5), S: Bytes(families[r.Intn(len(families))])}
	if r.P(15) {
		p.C = r.Range(50, 100)
	}
	if r.P(40) {
		f, parts := genParts(r, d)
		p.S = Bytes(f)
		for _, s := range parts {
			p.Ops = append(p.Ops, &Op{Kind: "part", SQL: Bytes(s)})
		}
		return p
	}
	p.Ops = append(p.Ops, &Op{Kind: "part", SQL: Bytes(part)}, &Op{Kind: "part", SQL: Bytes(stmt)}, &Op{Kind: "part", SQL: Bytes(typ)})
	return p
}

// cost is what one stage took.
type cost struct {
	stage string
	class string
	steps int64
	calls int64
	bytes int64
	work  int64 // what was copied and searched without steps

	failed bool
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func costsOf(op *Op, sink int, flat bool) []cost {
	var l []cost
	limit := int64(costLimit)
	verifhook.CountWork(true)
	defer verifhook.CountWork(false)
	before, work := allocated(), verifhook.Work
	got := aloneLimit(op, limit, nil)
	reads := int64(0)
	if got.Env != nil && got.Env.reader != nil {
		reads = int64(got.Env.reader.reads)
	}
	l = append(l, cost{op.Kind, got.Class, got.Steps, reads, int64(allocated() - before), verifhook.Work - work, got.Res.Err != nil})
	if got.Class != "ok" || got.Res.Err != nil {
		return l
	}
	var roots []sqlast.Node
	for _, o := range got.Res.Objs {
		switch o := o.(type) {
		case []sqlast.Stmt:
			for _, s := range o {
				roots = append(roots, s)
			}
		case sqlast.Node:
			if !isNilNode(o) {
				roots = append(roots, o)
			}
		}
	}
	stage := func(name string, f func() int64) {
		s := &Sched{}
		calls := int64(0)
		before, work := allocated(), verifhook.Work
		t := s.AddTask(name, limit, func() {
			calls = f()
		})
		s.Run()
		stats.steps += s.total
		c := cost{stage: name, class: "ok", steps: s.total, calls: calls, bytes: int64(allocated() - before), work: verifhook.Work - work}
		if t.hung {
			c.class = "hang"
		} else if t.panicked {
			c.class = "panic"
		}
		l = append(l, c)
	}
	if len(roots) == 0 {
		return l
	}
	stage("render", func() (n int64) {
		for _, x := range roots {
			w := &countSink{}
			if sink%2 == 1 {
				x.WriteTo(struct{ *countSink }{w})
			} else {
				x.WriteTo(stringSink{w})
			}
			n += w.calls
		}
		return n
	})
	stage("string", func() (n int64) {
		for _, x := range roots {
			n += int64(len(x.ToSQLString()))
		}
		return n
	})
	stage("walk", func() (n int64) {
		for _, x := range roots {
			sqlast.Inspect(x, func(sqlast.Node) bool { n++; return true })
		}
		return n
	})
	stage("rewrite", func() (n int64) {
		for _, x := range roots {
			sqlastutil.Apply(x, func(*sqlastutil.Cursor) bool { n++; return true }, func(*sqlastutil.Cursor) bool { n++; return true })
		}
		return n
	})
	stage("ends", func() (n int64) {
		for _, x := range roots {
			x.Pos()
			x.End()
		}
		return 0
	})
	for _, x := range roots {
		// it asks for the position of every node, which takes as long as the node is deep at its left end
		if f, ok := x.(*sqlast.File); ok && flat {
			stage("cmap", func() int64 { sqlast.NewCommentMap(f); return 0 })
		}
	}
	return l
}

// countSink counts what it is given.
type countSink struct {
	calls int64
}

func (c *countSink) Write(p []byte) (int, error) { c.calls++; return len(p), nil }

type stringSink struct{ *countSink }

func (c stringSink) WriteString(s string) (int, error) { c.calls++; return len(s), nil }

// costBound is what the longer text may cost if the shorter one costs n:
// in proportion, and half as much again for tables that double, searches in
// sorted lists and the like.
func costBound(n, slack int64) int64 { return n*growth*7/4 + slack }

func execC23(p *Plan) *Verdict {
	family := string(p.S)
	text := func(k int) *Op {
		op := cloneOp(p.Ops[0])
		op.SQL = Bytes(longTextOf(p, k))
		if p.C > 0 {
			op.Read.FailAt = len(op.SQL) * p.C / 100
			op.Read.Err = "custom"
		}
		return op
	}
	if p.A < 1 {
		return skip("nothing to repeat")
	}
	short, long := text(p.A), text(p.A*growth)
	if p.A > 120 && len(short.SQL) > 8000 {
		short, long = text(p.A/8), text(p.A/8*growth)
	}
	flat := family != "window" && family != "nest"
	a := costsOf(short, p.B, flat)
	for _, x := range a {
		if x.class == "hang" {
			return viol("hang", "%s: %s of %d parts (%d bytes) did not end within %d steps", family, x.stage, p.A, len(short.SQL), costLimit)
		}
	}
	for _, x := range a {
		if x.steps > costLimit/growth/4 {
			return skip("the shorter text is too long")
		}
	}
	b := costsOf(long, p.B, flat)
	for i := range b {
		if i >= len(a) {
			break
		}
		x, y := a[i], b[i]
		if verboseCost {
			fmt.Printf("%s %s %s steps %d %d %.1f calls %.1f bytes %d %d %.1f work %d %d %v\n", family, x.stage, y.class, x.steps, y.steps, ratio(x.steps, y.steps), ratio(x.calls, y.calls), x.bytes, y.bytes, ratio(x.bytes, y.bytes), x.work, y.work, p.Ops[0].Calls)
		}
		if y.class == "hang" {
			return viol("hang", "%s: %s of %d parts takes %d steps, %d parts did not end within %d", family, x.stage, p.A, x.steps, p.A*growth, costLimit)
		}
		if x.class != y.class || x.failed != y.failed {
			return skip("the two lengths end differently")
		}
		if x.class != "ok" {
			return skip("stage " + x.class)
		}
		if y.steps > costBound(x.steps, 5000) {
			return viol("steps", "%s: %s takes %d steps for %d parts and %d for %d times as many", family, x.stage, x.steps, p.A, y.steps, growth)
		}
		if y.calls > costBound(x.calls, 60) {
			return viol("calls", "%s: %s makes %d calls of the source, sink or callback for %d parts and %d for %d times as many", family, x.stage, x.calls, p.A, y.calls, growth)
		}
		if y.work > costBound(x.work, 30_000) {
			return viol("work", "%s: %s copies and searches %d characters and elements for %d parts and %d for %d times as many", family, x.stage, x.work, p.A, y.work, growth)
		}
		if y.bytes > costBound(x.bytes, 0)*2+400_000 {
			return viol("memory", "%s: %s allocates out of proportion when %d parts become %d times as many", family, x.stage, p.A, growth)
		}
		probe("measured-" + x.stage)
	}
	return pass(len(b) > 0 && b[0].class == "ok" && !b[0].failed, family, p.A, p.Ops[0].Kind, p.Ops[0].Calls, p.Ops[1].SQL)
}

const costLimit = 60_000_000

var verboseCost = false

func ratio(a, b int64) float64 { return float64(b) / float64(a+1) }
