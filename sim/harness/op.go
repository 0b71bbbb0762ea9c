package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// Op is one operation of a caller of the library.
type Op struct {
	// parse settokens tokenize pull scan mix incr render string walk inspect apply cmap positions
	Kind     string     `json:"kind"`
	Calls    []string   `json:"calls,omitempty"` // parser calls: statement sql file cmap expr type
	SQL      Bytes      `json:"sql"`
	Dialect  string     `json:"dialect,omitempty"`
	Comments bool       `json:"comments,omitempty"` // parse with comments
	NoComm   bool       `json:"nocomm,omitempty"`   // tokenizer without whitespace and comments
	WithOpts bool       `json:"withopts,omitempty"` // NewTokenizerWithOptions
	Hook     bool       `json:"hook,omitempty"`     // the dialect is seen by the simulator
	Read     *ReadPlan  `json:"read,omitempty"`
	Write    *WritePlan `json:"write,omitempty"`
	Node     int        `json:"node,omitempty"`   // which node of the tree, 0 is the file
	Built    uint64     `json:"built,omitempty"`  // instead of SQL: seed of a tree built from the node types
	Edits    uint64     `json:"edits,omitempty"`  // seed of edits that the owner of the tree made before
	Odd      bool       `json:"odd,omitempty"`    // the caller's types cannot be compared or hashed
	Shared   bool       `json:"shared,omitempty"` // takes option values that other sessions take, too
	Acts     []Act      `json:"acts,omitempty"`
	Extra    int        `json:"extra,omitempty"` // token pulls or parser calls after the end
	MaxPull  int        `json:"maxpull,omitempty"`
	Repeat   int        `json:",omitempty"`     // C12: how often the session runs
	Kill     int64      `json:"kill,omitempty"` // the goroutine exits in this call of caller code
	NoPre    bool       `json:"nopre,omitempty"`
	NoPost   bool       `json:"nopost,omitempty"`
}

// Event is one call of a visitor or rewrite callback.
type Event struct {
	On     string
	Node   sqlast.Node
	Parent sqlast.Node
	Name   string
	Index  int
	Bad    string
	Skip   bool // the pre call returned false
	By     int  // which visitor was called
}

// Result is what an operation produced so far.
type Result struct {
	Toks   []string
	Text   []string
	Err    error
	Errs   []error // error of every call or pull after the end
	Out    []byte
	N      int64
	Events []Event
	Objs   []interface{}
	Tokens []*sqltoken.Token
	Given  []*sqltoken.Token // the list given to the parser
	given  []string
	Root   sqlast.Node    // result of Apply
	Made   map[int]string // objects as they were when returned
	Issues []string       // broken call contracts, e.g. both a result and an error
	EndAt  int            // source bytes consumed when the first error came
	Used   []int          // source bytes consumed after each token
}

// Outcome is the end of an operation.
type Outcome struct {
	Class   string // ok panic goexit killed hang blocked skip
	Res     *Result
	ErrText string
	Panic   interface{}
	Stack   string
	Steps   int64
	Env     *env
}

// opRun is one run of an operation.
type opRun struct {
	op   *Op
	e    *env
	res  *Result
	tree interface{}       // *sqlast.File or any node
	toks []*sqltoken.Token // for settokens
	now  []*sqltoken.Token // what the parser has been given
	rest []*sqltoken.Token // and not yet
	task *Task
	root sqlast.Node
	pipe io.Reader // the source, if it is the end of a pipe
	gc   []int64   // collect garbage at these steps
	wrap func(body func())

	edits []edit
	mark  func(sqlast.Node) sqlast.Node
	gone  map[int]bool // events (by number of the pre call) whose node was deleted
	touch map[int]bool // events (by number of the pre call) that made an edit
}

// edit is one edit made during a rewrite.
type edit struct {
	Event  int
	Do     string
	Parent sqlast.Node
	Name   string
	Index  int
	Old    sqlast.Node
	New    sqlast.Node

	NewDump string // New when it was put in
}

func newRun(op *Op) *opRun {
	return &opRun{op: op, e: newEnv(op), res: &Result{}}
}

var errNoTree = errors.New("no tree")

func usesTree(kind string) bool {
	switch kind {
	case "render", "string", "walk", "inspect", "apply", "cmap", "positions":
		return true
	}
	return false
}

// prepare gets the tree or token list ready that the operation works on.
func (r *opRun) prepare() error {
	op := r.op
	if usesTree(op.Kind) && r.tree == nil {
		t, err := makeTree(op)
		if err != nil {
			return err
		}
		r.tree = t
	}
	if usesTree(op.Kind) {
		if op.Node == 0 {
			n, ok := r.tree.(sqlast.Node)
			if !ok {
				return errNoTree
			}
			r.root = n
		} else {
			l := allNodes(r.tree)
			if op.Kind != "render" {
				// traversals do not know comments
				k := l[:0]
				for _, n := range l {
					switch n.(type) {
					case *sqlast.Comment, *sqlast.CommentGroup:
					default:
						k = append(k, n)
					}
				}
				l = k
			}
			if len(l) == 0 {
				return errNoTree
			}
			r.root = l[op.Node%len(l)]
		}
	}
	return nil
}

// makeTree parses the text of the operation in the plainest way.
func makeTree(op *Op) (t interface{}, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	if op.Built != 0 {
		t := buildTree(op.Built)
		if t == nil {
			return nil, errNoTree
		}
		editTree(t, op.Edits)
		return t, nil
	}
	p, err := xsqlparser.NewParser(strings.NewReader(string(op.SQL)), baseDialect(op.Dialect), xsqlparser.ParseComment())
	if err != nil {
		return nil, err
	}
	f, err := p.ParseFile()
	if err != nil {
		return nil, err
	}
	if f == nil {
		return nil, errNoTree
	}
	editTree(f, op.Edits)
	return f, nil
}

// editTree makes some edits that leave nothing out.
func editTree(t interface{}, seed uint64) {
	if seed == 0 {
		return
	}
	r := NewRand(seed)
	if f, ok := t.(*sqlast.File); ok && len(f.Comments) > 1 && r.P(50) {
		for i := len(f.Comments) - 1; i > 0; i-- {
			k := r.Intn(i + 1)
			f.Comments[i], f.Comments[k] = f.Comments[k], f.Comments[i]
		}
	}
	for n := r.Range(1, 4); n > 0; n-- {
		l := allNodes(t)
		if len(l) > 0 {
			mutateNode(t, l[r.Intn(len(l))], r, true)
		}
	}
}

// Option values that all sessions of a run may take.
var sharedOptions struct {
	parse    xsqlparser.ParserOption
	comments sqltoken.TokenizerOption
	dialects map[string]sqltoken.TokenizerOption
}

func freshOptions() {
	sharedOptions.parse = xsqlparser.ParseComment()
	sharedOptions.comments = sqltoken.DisableParseComment()
	sharedOptions.dialects = map[string]sqltoken.TokenizerOption{}
	for _, d := range []string{"generic", "mysql", "postgres"} {
		sharedOptions.dialects[d] = sqltoken.Dialect(baseDialect(d))
	}
}

func (op *Op) parserOptions() []xsqlparser.ParserOption {
	switch {
	case !op.Comments:
		return nil
	case op.Shared && sharedOptions.parse != nil:
		return []xsqlparser.ParserOption{sharedOptions.parse}
	}
	return []xsqlparser.ParserOption{xsqlparser.ParseComment()}
}

func (r *opRun) source() io.Reader {
	plan := ReadPlan{FailAt: -1, StallAt: -1}
	if r.op.Read != nil {
		plan = *r.op.Read
	}
	r.e.reader = &SimReader{e: r.e, data: []byte(r.op.SQL), plan: plan}
	if r.pipe != nil {
		return r.pipe
	}
	if r.op.Odd && plan.Wrap == "" {
		return oddReader{r.e.reader.Read, nil}
	}
	return r.e.reader.wrapped()
}

// What may not be compared or hashed.
type oddReader struct {
	read func([]byte) (int, error)
	_    []int
}

func (o oddReader) Read(p []byte) (int, error) { return o.read(p) }

type oddWriter func([]byte) (int, error)

func (o oddWriter) Write(p []byte) (int, error) { return o(p) }

type oddDialect struct {
	dialect.Dialect
	_ map[string]int
}

type oddVisitor [1]func(sqlast.Node) sqlast.Visitor

func (o oddVisitor) Visit(n sqlast.Node) sqlast.Visitor { return o[0](n) }

func (v *simVisitor) odd() sqlast.Visitor {
	if v.r.op.Odd {
		return oddVisitor{v.Visit}
	}
	return v
}

// dialect is the dialect of the operation as the caller passes it.
func (op *Op) dialect(e *env) dialect.Dialect {
	d := baseDialect(op.Dialect)
	if op.Hook {
		d = &simDialect{e, d}
	}
	if op.Odd {
		d = oddDialect{d, nil}
	}
	return d
}

func (r *opRun) tokenizer() *sqltoken.Tokenizer {
	op := r.op
	d := op.dialect(r.e)
	if op.WithOpts || op.NoComm {
		opts := []sqltoken.TokenizerOption{sqltoken.Dialect(d)}
		if o := sharedOptions.dialects[op.Dialect]; o != nil && op.Shared && !op.Hook {
			opts[0] = o
		}
		switch {
		case !op.NoComm:
		case op.Shared && sharedOptions.comments != nil:
			opts = append(opts, sharedOptions.comments)
		default:
			opts = append(opts, sqltoken.DisableParseComment())
		}
		return sqltoken.NewTokenizerWithOptions(r.source(), opts...)
	}
	return sqltoken.NewTokenizer(r.source(), d)
}

// maxPulls is more than the tokens any text of that length can have.
func (r *opRun) maxPulls() int { return 200000 + 4*len(r.op.SQL) }

// body carries the operation out.
func (r *opRun) body() {
	op, res := r.op, r.res
	switch op.Kind {
	case "parse":
		opts := op.parserOptions()
		d := op.dialect(r.e)
		p, err := xsqlparser.NewParser(r.source(), d, opts...)
		if err != nil {
			if p != nil {
				res.Issues = append(res.Issues, "NewParser returned both a parser and an error")
			}
			res.Err = err
			res.Text = append(res.Text, "new: "+normErr(err.Error()))
			return
		}
		if p == nil {
			res.Issues = append(res.Issues, "NewParser returned neither a parser nor an error")
			return
		}
		r.calls(p)
	case "settokens":
		toks := r.toks
		if toks == nil {
			var err error
			toks, err = r.tokenizer().Tokenize()
			if err != nil {
				res.Err = err
				res.Text = append(res.Text, "tokenize: "+normErr(err.Error()))
				return
			}
		}
		opts := op.parserOptions()
		p := xsqlparser.NewParserWithOptions(opts...)
		res.Given = toks
		for _, t := range toks {
			res.given = append(res.given, dumpToken(t))
		}
		r.now, r.rest = nil, toks
		for _, c := range op.Calls {
			if c == "more" {
				r.now, r.rest = cutTokens(toks)
				break
			}
		}
		if r.now == nil {
			r.now, r.rest = toks, nil
		}
		p.SetTokens(r.now)
		r.calls(p)
	case "tokenize":
		t := r.tokenizer()
		l, err := t.Tokenize()
		for _, k := range l {
			res.Toks = append(res.Toks, dumpToken(k))
		}
		res.Tokens = l
		res.Err = err
		if err != nil {
			if l != nil {
				res.Issues = append(res.Issues, "Tokenize returned both tokens and an error")
			}
			res.Text = append(res.Text, "tokenize: "+normErr(err.Error()))
		}
		r.extras(t)
	case "mix":
		// some pulls in either way, then the rest at once
		t := r.tokenizer()
		var reuse sqltoken.Token
		for n := 0; n < op.MaxPull; n++ {
			var k *sqltoken.Token
			var err error
			if (op.Node>>(uint(n)%16))&1 == 0 {
				k, err = t.NextToken()
			} else {
				k, err = t.Scan(&reuse)
			}
			if err != nil {
				res.Err = err
				res.Text = append(res.Text, "end: "+normErr(err.Error()))
				return
			}
			if k != nil {
				res.Toks = append(res.Toks, dumpToken(k))
				if k == &reuse {
					c := reuse
					k = &c
				}
				res.Tokens = append(res.Tokens, k)
			}
		}
		l, err := t.Tokenize()
		for _, k := range l {
			res.Toks = append(res.Toks, dumpToken(k))
		}
		res.Tokens = append(res.Tokens, l...)
		res.Err = err
		if err != nil {
			if l != nil {
				res.Issues = append(res.Issues, "Tokenize returned both tokens and an error")
			}
			res.Text = append(res.Text, "tokenize: "+normErr(err.Error()))
		}
	case "incr":
		// read one statement from a stream that goes on
		t := r.tokenizer()
		var toks []*sqltoken.Token
		for n := 0; n < r.maxPulls(); n++ {
			k, err := t.NextToken()
			if err != nil {
				res.Err = err
				res.Text = append(res.Text, "end: "+normErr(err.Error()))
				return
			}
			if k == nil {
				continue
			}
			toks = append(toks, k)
			if k.Kind == sqltoken.Semicolon {
				break
			}
		}
		opts := op.parserOptions()
		p := xsqlparser.NewParserWithOptions(opts...)
		p.SetTokens(toks)
		r.calls(p)
	case "pull", "scan":
		t := r.tokenizer()
		var reuse sqltoken.Token
		for n := 0; n < r.maxPulls(); n++ {
			if op.MaxPull > 0 && n >= op.MaxPull {
				return
			}
			var k *sqltoken.Token
			var err error
			if op.Kind == "pull" {
				k, err = t.NextToken()
			} else {
				k, err = t.Scan(&reuse)
			}
			if err != nil {
				if k != nil && k.Kind != sqltoken.ILLEGAL {
					res.Issues = append(res.Issues, "a token pull returned both a token and an error")
				}
				res.Err = err
				res.EndAt = r.e.reader.pos
				res.Text = append(res.Text, "end: "+normErr(err.Error()))
				break
			}
			if k == nil {
				if !op.NoComm {
					res.Issues = append(res.Issues, "a token pull returned neither a token nor an error")
				}
				continue
			}
			if op.Kind == "scan" && k != &reuse {
				res.Issues = append(res.Issues, "Scan did not return the token it was given")
			}
			res.Toks = append(res.Toks, dumpToken(k))
			res.Used = append(res.Used, r.e.reader.pos)
			if op.Kind == "pull" {
				res.Tokens = append(res.Tokens, k)
			}
		}
		if res.Err == nil {
			res.Issues = append(res.Issues, "the token pulls never came to an end")
		}
		r.extras(t)
	case "render":
		plan := WritePlan{Kind: "plain", FailAt: -1}
		if op.Write != nil {
			plan = *op.Write
		}
		r.e.writer = &SimWriter{e: r.e, plan: plan}
		w := r.e.writer.writer()
		if op.Odd && plan.Kind == "plain" {
			w = oddWriter(r.e.writer.put)
		}
		n, err := r.root.WriteTo(w)
		res.N, res.Err = n, err
		res.Out = r.e.writer.buf
		if err != nil {
			res.Text = append(res.Text, "write: "+normErr(err.Error()))
		}
	case "string":
		res.Out = []byte(r.root.ToSQLString())
		res.N = int64(len(res.Out))
	case "walk":
		sqlast.Walk((&simVisitor{r, 0}).odd(), r.root)
	case "inspect":
		sqlast.Inspect(r.root, func(n sqlast.Node) bool { return r.visit(n, 0) })
	case "apply":
		r.apply()
	case "cmap":
		f, ok := r.root.(*sqlast.File)
		if !ok {
			f, ok = r.tree.(*sqlast.File)
		}
		if !ok {
			return
		}
		m := sqlast.NewCommentMap(f)
		res.Objs = append(res.Objs, m)
		res.Text = append(res.Text, dumpCommentMap(f, m))
	case "positions":
		for _, n := range allNodes(r.root) {
			Yield()
			res.Text = append(res.Text, positions(n))
		}
	default:
		panic("sim: unknown operation " + op.Kind)
	}
}

// positions asks a node where it is; nodes that were made up may not know.
func positions(n sqlast.Node) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s += " panic"
		}
	}()
	s = typeName(n)
	a := n.Pos()
	s += fmt.Sprintf(" %d:%d", a.Line, a.Col)
	b := n.End()
	s += fmt.Sprintf(" %d:%d", b.Line, b.Col)
	return s
}

func typeName(n interface{}) string {
	if n == nil {
		return "nil"
	}
	t := reflect.TypeOf(n)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}

// extras pulls again after the end, in any way there is.
func (r *opRun) extras(t *sqltoken.Tokenizer) {
	for i := 0; i < r.op.Extra; i++ {
		switch (r.op.Node >> (2 * uint(i))) & 3 {
		case 1:
			var k sqltoken.Token
			got, err := t.Scan(&k)
			r.extra(got, err)
		case 2:
			l, err := t.Tokenize()
			switch {
			case err == nil && len(l) == 0:
				r.extra(nil, io.EOF)
			case err == nil:
				r.extra(l[0], nil)
			default:
				r.extra(nil, err)
			}
		default:
			r.extra(t.NextToken())
		}
	}
}

func (r *opRun) extra(k *sqltoken.Token, err error) {
	r.res.Errs = append(r.res.Errs, err)
	switch {
	case err == nil && k == nil:
		r.res.Text = append(r.res.Text, "again: nothing")
	case err == nil:
		r.res.Text = append(r.res.Text, "again: token "+dumpToken(k))
	default:
		r.res.Text = append(r.res.Text, "again: "+normErr(err.Error()))
	}
}

// calls makes the parser calls of the operation.
// cutTokens cuts a list after its first semicolon.
func cutTokens(l []*sqltoken.Token) (first, rest []*sqltoken.Token) {
	for i, k := range l {
		if k.Kind == sqltoken.Semicolon {
			return l[: i+1 : i+1], l[i+1:]
		}
	}
	return l, nil
}

func (r *opRun) calls(p *xsqlparser.Parser) {
	var file *sqlast.File
	for _, c := range r.op.Calls {
		r.call(p, c, &file)
	}
}

func (r *opRun) call(p *xsqlparser.Parser, c string, file **sqlast.File) {
	res := r.res
	var v interface{}
	var err error
	empty := false // an empty result is a result
	switch c {
	case "more":
		// the tokens of the next statement, or those given so far once more
		if r.now != nil {
			more, rest := cutTokens(r.rest)
			if more == nil {
				more = r.now
			}
			r.rest = rest
			r.now = append(r.now[:len(r.now):len(r.now)], more...)
			p.SetTokens(r.now)
		}
		return
	case "statement":
		var s sqlast.Stmt
		s, err = p.ParseStatement()
		v = s
	case "sql":
		var l []sqlast.Stmt
		l, err = p.ParseSQL()
		empty = true
		if l != nil {
			v = l
		}
		for _, s := range l {
			if isNilNode(s) {
				res.Issues = append(res.Issues, "ParseSQL returned a list with an empty statement")
			}
		}
	case "file":
		var f *sqlast.File
		f, err = p.ParseFile()
		if f != nil {
			v = f
			*file = f
			for _, s := range f.Stmts {
				if isNilNode(s) {
					res.Issues = append(res.Issues, "ParseFile returned a file with an empty statement")
				}
			}
		}
	case "expr":
		var n sqlast.Node
		n, err = p.ParseExpr()
		v = n
	case "type":
		var n sqlast.Type
		n, err = p.ParseDataType()
		v = n
	case "cmap":
		if *file == nil {
			return
		}
		m := sqlast.NewCommentMap(*file)
		res.Objs = append(res.Objs, m)
		res.Text = append(res.Text, "cmap: "+dumpCommentMap(*file, m))
		return
	}
	if isNilNode(v) {
		v = nil
	}
	if v != nil && err != nil {
		res.Issues = append(res.Issues, c+" returned both a result and an error")
	}
	if v == nil && err == nil && !empty {
		res.Issues = append(res.Issues, c+" returned neither a result nor an error")
	}
	if err != nil {
		if res.Err == nil {
			res.Err = err
		}
		res.Errs = append(res.Errs, err)
		res.Text = append(res.Text, c+" error: "+normErr(err.Error()))
	} else {
		res.Errs = append(res.Errs, nil)
		res.Text = append(res.Text, c+": "+dump(v))
	}
	if res.Made == nil {
		res.Made = map[int]string{}
	}
	res.Objs = append(res.Objs, v)
	res.Made[len(res.Objs)-1] = dump(v)
}

// later tells whether something that was returned has changed since.
func (res *Result) later() string {
	for i, v := range res.Objs {
		if was, ok := res.Made[i]; ok {
			if d := dump(v); d != was {
				return fmt.Sprintf("result %d of the session changed after it was returned: %s", i, diffAt(was, d))
			}
		}
	}
	for i, t := range res.Given {
		if d := dumpToken(t); d != res.given[i] {
			return fmt.Sprintf("token %d of the list given to the parser has changed: it was %s and is %s now", i, res.given[i], d)
		}
	}
	for i, t := range res.Tokens {
		if i < len(res.Toks) {
			if d := dumpToken(t); d != res.Toks[i] {
				return fmt.Sprintf("token %d changed after it was delivered: it was %s and is %s now", i, res.Toks[i], d)
			}
		}
	}
	return ""
}

// dumpCommentMap names nodes by their place in the file.
func dumpCommentMap(f *sqlast.File, m sqlast.CommentMap) string {
	var b strings.Builder
	n := 0
	for i, k := range allNodes(f) {
		if g, ok := m[k]; ok {
			n++
			fmt.Fprintf(&b, "%d %s %s\n", i, typeName(k), dump(g))
		}
	}
	fmt.Fprintf(&b, "%d of %d", n, len(m))
	return b.String()
}

// simVisitor gives every node a visitor of its own.
type simVisitor struct {
	r  *opRun
	id int // 0 for the first one, else the number of the visit that returned it
}

func (v *simVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	k := len(v.r.res.Events)
	if !v.r.visit(n, v.id) {
		return nil
	}
	if n == nil {
		return v.odd()
	}
	return (&simVisitor{v.r, k + 1}).odd()
}

func (r *opRun) visit(n sqlast.Node, by int) bool {
	k := len(r.res.Events)
	r.res.Events = append(r.res.Events, Event{On: "visit", Node: n, By: by})
	a := r.e.callback("visit")
	if a != nil && a.Do == "stop" {
		r.res.Events[k].Skip = true
		return false
	}
	return true
}

func (r *opRun) apply() {
	mk := func(on string) sqlastutil.ApplyFunc {
		return func(c *sqlastutil.Cursor) bool {
			ev := Event{On: on, Node: c.Node(), Parent: c.Parent(), Name: c.Name(), Index: c.Index()}
			r.res.Events = append(r.res.Events, ev)
			k := len(r.res.Events) - 1
			if on == "pre" || len(r.touch) == 0 || !r.touch[r.preOf(k)] {
				r.res.Events[k].Bad = cursorWrong(c)
			}
			if a := r.e.callback(on); a != nil && !r.edit(c, a, k) {
				r.res.Events[k].Skip = true
				return false
			}
			return true
		}
	}
	var pre, post sqlastutil.ApplyFunc
	if !r.op.NoPre {
		pre = mk("pre")
	}
	if !r.op.NoPost {
		post = mk("post")
	}
	r.res.Root = sqlastutil.Apply(r.root, pre, post)
}

// edit carries out an action at the cursor: "stop" returns false, "edit" makes
// the edits listed in Val and then returns false if N is 1.
func (r *opRun) edit(c *sqlastutil.Cursor, a *Act, event int) bool {
	switch a.Do {
	case "stop":
		return false
	case "edit":
		for _, do := range strings.Split(a.Val, ",") {
			r.editOne(c, do, event)
		}
		return a.N != 1
	}
	return true
}

func (r *opRun) editOne(c *sqlastutil.Cursor, do string, event int) {
	if isNilNode(c.Node()) {
		return
	}
	i := c.Index()
	if do != "replace" && i < 0 {
		return
	}
	if r.gone == nil {
		r.gone = map[int]bool{}
		r.touch = map[int]bool{}
	}
	key := r.preOf(event)
	if r.gone[key] {
		return // nothing is specified for a cursor whose node was deleted
	}
	e := edit{Event: event, Do: do, Parent: c.Parent(), Name: c.Name(), Index: i, Old: c.Node()}
	if do != "delete" {
		e.New = cloneTree(c.Node()).(sqlast.Node)
		if r.mark != nil {
			e.New = r.mark(e.New)
		}
	}
	if e.New != nil {
		e.NewDump = dump(e.New)
	}
	r.edits = append(r.edits, e)
	r.touch[key] = true
	r.e.fired["edit:"+do]++
	switch do {
	case "replace":
		c.Replace(e.New)
	case "delete":
		c.Delete()
		r.gone[key] = true
	case "before":
		c.InsertBefore(e.New)
	case "after":
		c.InsertAfter(e.New)
	}
}

// preOf finds the pre call that belongs to an event (the event itself if it is one).
func (r *opRun) preOf(event int) int {
	ev := r.res.Events
	if ev[event].On == "pre" || r.op.NoPre {
		return event
	}
	depth := 0
	for i := event - 1; i >= 0; i-- {
		if ev[i].On == "post" {
			depth++
		} else if !ev[i].Skip {
			if depth == 0 {
				return i
			}
			depth--
		}
	}
	return event
}

// cursorWrong checks that the cursor names the place where the node is.
func cursorWrong(c *sqlastutil.Cursor) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("looking up field %q failed: %v", c.Name(), p)
		}
	}()
	if c.Parent() == nil {
		return "no parent"
	}
	v := reflect.Indirect(reflect.ValueOf(c.Parent())).FieldByName(c.Name())
	if !v.IsValid() {
		return fmt.Sprintf("%s has no field %q", typeName(c.Parent()), c.Name())
	}
	if i := c.Index(); i >= 0 {
		if v.Kind() != reflect.Slice || i >= v.Len() {
			return fmt.Sprintf("%s.%s has no element %d", typeName(c.Parent()), c.Name(), i)
		}
		v = v.Index(i)
	} else if v.Kind() == reflect.Slice {
		return fmt.Sprintf("%s.%s is a list but the cursor has no index", typeName(c.Parent()), c.Name())
	}
	if isNilNode(v.Interface()) && isNilNode(c.Node()) {
		return ""
	}
	n, ok := v.Interface().(sqlast.Node)
	if !ok || n != c.Node() {
		return fmt.Sprintf("%s.%s[%d] is not the node presented (%s)", typeName(c.Parent()), c.Name(), c.Index(), typeName(c.Node()))
	}
	return ""
}

// outcomeOf makes the outcome.
func (r *opRun) outcomeOf(class string, p interface{}) *Outcome {
	o := &Outcome{Class: class, Res: r.res, Panic: p, Env: r.e}
	if r.res.Err != nil {
		o.ErrText = normErr(r.res.Err.Error())
	}
	if r.task != nil {
		o.Steps = r.task.steps
		o.Stack = r.task.stack
	}
	return o
}

func (r *opRun) outcome() *Outcome {
	t := r.task
	switch {
	case t.hung:
		return r.outcomeOf("hang", nil)
	case t.killed:
		return r.outcomeOf("killed", nil)
	case t.state != tsDone:
		return r.outcomeOf("blocked", nil)
	case t.panicked:
		return r.outcomeOf("panic", t.panicVal)
	case t.goexit:
		return r.outcomeOf("goexit", nil)
	}
	return r.outcomeOf("ok", nil)
}

const defaultLimit = 20_000_000

// alone runs one operation by itself.
func alone(op *Op) *Outcome { return aloneLimit(op, defaultLimit, nil) }

func aloneLimit(op *Op, limit int64, setup func(r *opRun)) *Outcome {
	r := newRun(op)
	if setup != nil {
		setup(r)
	}
	if err := r.guardedPrepare(); err != nil {
		return &Outcome{Class: "skip", ErrText: normErr(err.Error()), Res: r.res, Env: r.e}
	}
	return r.run(limit)
}

func (r *opRun) run(limit int64) *Outcome {
	s := &Sched{}
	body := r.body
	if r.wrap != nil {
		body = func() { r.wrap(r.body) }
	}
	r.task = s.AddTask("main", limit, body)
	if r.op.Kill > 0 {
		r.task.killAt = r.op.Kill
	}
	r.task.gcAt = r.gc
	s.Run()
	stats.steps += s.total
	out := r.outcome()
	stats.addFired(r.e)
	return out
}

// guardedPrepare runs prepare as a task with a step budget, so that a library
// that hangs does not hang the simulator.
func (r *opRun) guardedPrepare() error {
	if !usesTree(r.op.Kind) || r.tree != nil {
		return r.prepare()
	}
	var err error
	s := &Sched{}
	t := s.AddTask("prepare", defaultLimit, func() { err = r.prepare() })
	s.Run()
	stats.steps += s.total
	if t.hung || t.state != tsDone || t.panicked || t.goexit {
		return errors.New("preparing the tree did not end")
	}
	return err
}

// text is the canonical text of an outcome, with everything the caller sees.
func (o *Outcome) text() string {
	var b strings.Builder
	b.WriteString("class " + o.Class + "\n")
	if o.Class == "panic" {
		b.WriteString("panic " + normErr(fmt.Sprint(o.Panic)) + "\n")
	}
	if o.Res == nil {
		return b.String()
	}
	for _, t := range o.Res.Toks {
		b.WriteString("token " + t + "\n")
	}
	for _, t := range o.Res.Text {
		b.WriteString(t + "\n")
	}
	if o.Res.Out != nil {
		fmt.Fprintf(&b, "out %d %q\n", o.Res.N, o.Res.Out)
	}
	for _, e := range o.Res.Events {
		b.WriteString(e.On + " " + typeName(e.Node))
		if e.On != "visit" {
			fmt.Fprintf(&b, " %s.%s[%d] %s", typeName(e.Parent), e.Name, e.Index, e.Bad)
		}
		b.WriteByte('\n')
	}
	if o.Res.Root != nil {
		b.WriteString("root " + dump(o.Res.Root) + "\n")
	}
	return b.String()
}

// differ tells how two outcomes differ, "" if they do not.
func differ(want, got *Outcome) string {
	a, b := want.text(), got.text()
	if a == b {
		return ""
	}
	return diffAt(a, b)
}
