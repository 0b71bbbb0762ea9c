package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

func init() {
	scenarios["C06"] = &scenario{gen: genC06, exec: execC06, rule: "a random tree (parsed, or built from the node types) or node of it rendered into a sink that fails at a random byte in one of three ways; non-trivial if the failure fired"}
	scenarios["C07"] = &scenario{gen: genC07, exec: execC07, rule: "a random tree rendered several times into random kinds of sinks, with failures, panics and kills in between; non-trivial if a failed rendering was repeated"}
	scenarios["C13"] = &scenario{gen: genC13, exec: execC13, rule: "a random tree walked with random stops, a panic, an exit or a nested walk at random visits; non-trivial if one of them fired"}
	scenarios["C14"] = &scenario{gen: genC14, exec: execC14, rule: "a random tree rewritten with callbacks that return false, panic, exit or nest at random calls; non-trivial if one of them fired"}
	scenarios["C15"] = &scenario{gen: genC15, exec: execC15, rule: "a random tree rewritten with random edits at random calls, sometimes cut short; non-trivial if an edit was made"}
}

// treeOp is a rendering or traversal of a parsed or built tree.
func treeOp(r *Rand, kind string, built int) *Op {
	op := genTreeOp(r, kind)
	if r.P(built) {
		op.Built = r.Next() | 1
		op.SQL = ""
		op.Node = 0
	}
	return op
}

// C06

func genC06(r *Rand) *Plan {
	op := treeOp(r, "render", 45)
	if r.P(30) && op.Built != 0 {
		op.Node = r.Intn(50)
	}
	op.Write.Kind = r.Pick("plain", "plain", "string", "full")
	op.Write.FailAt = r.Intn(1 << 20)
	op.Write.Accept = r.Pick("short", "short", "none", "full")
	op.Write.Err = errKinds[r.Intn(len(errKinds))]
	p := &Plan{Kind: "sink", Ops: []*Op{op}, A: r.Intn(8)}
	if r.P(25) {
		p.Kind = "std-" + r.Pick("bufio", "multi", "multi2", "pipe", "pipe", "closed", "full", "readonly")
		p.A = r.Range(1, 100)
	}
	return p
}

// execStd06 renders into a sink of the standard library that fails.
func execStd06(p *Plan, typ string) *Verdict {
	op := p.Ops[0]
	g := calm(op)
	g.Write.Kind = "plain"
	first := newRun(g)
	if first.guardedPrepare() != nil {
		return skip("no tree")
	}
	golden := first.run(defaultLimit)
	if golden.Class != "ok" || golden.Res.Err != nil || len(golden.Res.Out) == 0 {
		return skip("reference run " + golden.Class)
	}
	full := golden.Res.Out
	plan := *op.Write
	plan.FailAt %= len(full)
	sim := &SimWriter{e: first.e, plan: plan}
	var w io.Writer
	var n int64
	var err, want error
	taken := func() (int, []byte) { return len(sim.buf), sim.buf }
	switch typ {
	case "bufio":
		b := bufio.NewWriterSize(sim.writer(), p.A)
		w = b
		taken = func() (int, []byte) { return len(sim.buf) + b.Buffered(), sim.buf }
	case "multi":
		w = io.MultiWriter(sim.writer(), io.Discard)
	case "multi2":
		w = io.MultiWriter(io.Discard, sim.writer())
	case "pipe":
		pr, pw := io.Pipe()
		w = pw
		want = makeErr(plan.Err)
		var got []byte
		end := make(chan bool)
		// the other end touches nothing but the pipe, so it needs no schedule
		go func() {
			defer close(end)
			got = make([]byte, plan.FailAt)
			m := 0
			for m < len(got) {
				k, err := pr.Read(got[m:min(len(got), m+p.A)])
				m += k
				if err != nil {
					break
				}
			}
			got = got[:m]
			pr.CloseWithError(want)
		}()
		taken = func() (int, []byte) {
			pw.Close()
			<-end
			return len(got), got
		}
	case "closed", "readonly", "full":
		var f *os.File
		var e error
		switch typ {
		case "full":
			f, e = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		case "readonly":
			f, e = os.Open("/dev/null")
		default:
			f, e = os.OpenFile("/dev/null", os.O_WRONLY, 0)
		}
		if e != nil {
			return skip("no such file")
		}
		if typ == "closed" {
			f.Close()
		}
		_, want = f.Write([]byte("x"))
		defer f.Close()
		w = f
	default:
		return skip("unknown sink")
	}
	cl, pv, _ := guarded(defaultLimit, func() { n, err = first.root.WriteTo(w) })
	stats.Fired["sink-"+typ]++
	stats.addFired(first.e)
	what := fmt.Sprintf("rendering %q into a %T (%s) that fails at byte %d", short(string(full), 200), w, typ, plan.FailAt)
	if cl != "ok" {
		return viol("std-class", "%s: it ended with %s (%v)", what, cl, pv)
	}
	m, out := taken()
	if sim.failed {
		want = sim.err
	}
	if want == nil {
		// bufio kept everything in its buffer
		if err != nil || n != int64(len(full)) || m != len(full) {
			return viol("std-count", "%s: nothing failed, the error is %v, the count %d of %d, taken %d", what, err, n, len(full), m)
		}
		return pass(false, typ)
	}
	if err == nil {
		return viol("std-swallowed", "%s: no error was reported, the count is %d", what, n)
	}
	if !errors.Is(err, want) && err.Error() != want.Error() {
		return viol("std-error", "%s with %q: the error is %q", what, want, err)
	}
	if n != int64(m) {
		return viol("std-count", "%s: it took %d bytes, the count is %d", what, m, n)
	}
	if !bytes.HasPrefix(full, out) {
		return viol("std-prefix", "%s: what it took is no prefix: %s", what, diffAt(string(full), string(out)))
	}
	if sim.late > 0 {
		return viol("std-late", "%s: it was used %d times after it failed", what, sim.late)
	}
	probe("sink-" + typ)
	return pass(true, typ, op.SQL, op.Built, op.Node, plan.FailAt, p.A)
}

func execC06(p *Plan) *Verdict {
	if typ, ok := strings.CutPrefix(p.Kind, "std-"); ok {
		return execStd06(p, typ)
	}
	op := p.Ops[0]
	g := calm(op)
	g.Write.Kind = "plain"
	golden := alone(g)
	if golden.Class != "ok" {
		return skip("reference run " + golden.Class)
	}
	full := golden.Res.Out
	if golden.Res.Err != nil {
		return viol("spurious", "rendering into a sink that does not fail reports %q", golden.Res.Err)
	}
	if golden.Res.N != int64(len(full)) {
		return viol("count", "rendering %d bytes (%q) into a sink that does not fail reports %d", len(full), short(string(full), 200), golden.Res.N)
	}
	c := cloneOp(op)
	c.Write.FailAt = op.Write.FailAt % (len(full) + 1)
	if p.A == 0 {
		c.Write.FailAt = 0
	}
	got := alone(c)
	w := got.Env.writer
	if got.Class != "ok" {
		return viol("class", "a sink that failed at byte %d of %d: rendering ended with %s", c.Write.FailAt, len(full), describe(got))
	}
	if !w.failed {
		if got.Res.Err != nil || got.Res.N != int64(len(full)) || !bytes.Equal(w.buf, full) {
			return viol("nofail", "the sink did not fail, but n=%d (of %d), error %v, %s", got.Res.N, len(full), got.Res.Err, diffAt(string(full), string(w.buf)))
		}
		return pass(false, "nofail")
	}
	where := fmt.Sprintf("sink failed at byte %d of %q accepting %s", c.Write.FailAt, short(string(full), 200), c.Write.Accept)
	if got.Res.Err == nil {
		return viol("swallowed", "%s: no error was reported, n=%d", where, got.Res.N)
	}
	if !errors.Is(got.Res.Err, w.err) {
		return viol("othererror", "%s with %q: the error is %q", where, w.err, got.Res.Err)
	}
	if got.Res.N != int64(len(w.buf)) {
		return viol("count", "%s: the writer accepted %d bytes, the count is %d", where, len(w.buf), got.Res.N)
	}
	if !bytes.HasPrefix(full, w.buf) {
		return viol("prefix", "%s: what was written is not a prefix: %s", where, diffAt(string(full), string(w.buf)))
	}
	if w.late > 0 {
		return viol("late", "%s: the writer was called %d times after it failed", where, w.late)
	}
	if op.Built != 0 {
		probe("built-tree")
	}
	return pass(true, op.SQL, op.Built, op.Node, c.Write.FailAt, c.Write.Accept, c.Write.Kind)
}

// C07

func genC07(r *Rand) *Plan {
	p := &Plan{Kind: "sinks"}
	base := treeOp(r, "render", 40)
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		op := cloneOp(base)
		op.Kind = r.Pick("render", "render", "render", "string")
		op.Write.Kind = r.Pick("plain", "string", "full", "bufio", "buffer", "builder", "multi")
		switch r.Intn(6) {
		case 0, 1:
			op.Write.FailAt = r.Intn(r.Pick2(12, 60, 300))
			op.Write.Accept = r.Pick("short", "none", "full")
			op.Write.Err = errKinds[r.Intn(len(errKinds))]
		case 2:
			op.Acts = []Act{{On: "write", At: r.Intn(r.Pick2(4, 40)), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]}}
		case 3:
			op.Kill = int64(r.Range(1, r.Pick2(4, 20, 80)))
		}
		p.Ops = append(p.Ops, op)
	}
	p.A = r.Range(1, 64)
	return p
}

func execC07(p *Plan) *Verdict {
	g := calm(p.Ops[0])
	g.Kind = "render"
	g.Write.Kind = "plain"
	first := newRun(g)
	if first.guardedPrepare() != nil {
		return skip("no tree")
	}
	golden := first.run(defaultLimit)
	if golden.Class != "ok" || golden.Res.Err != nil {
		return skip("reference run " + golden.Class)
	}
	full := golden.Res.Out
	before := dump(first.tree)
	failures, repeats := 0, 0
	for i, op := range p.Ops {
		r := newRun(op)
		r.tree, r.root = first.tree, first.root
		var got *Outcome
		var out []byte
		stream := false
		switch op.Write.Kind {
		case "bufio", "buffer", "builder", "multi":
			if op.Kind == "render" {
				stream = true
				var err error
				var n int64
				cl, pv, _ := guarded(defaultLimit, func() {
					switch op.Write.Kind {
					case "bufio":
						var b bytes.Buffer
						w := bufio.NewWriterSize(&b, p.A)
						n, err = r.root.WriteTo(w)
						w.Flush()
						out = b.Bytes()
					case "buffer":
						var b bytes.Buffer
						b.WriteString("x")
						n, err = r.root.WriteTo(&b)
						out = b.Bytes()[1:]
					case "builder":
						var b strings.Builder
						n, err = r.root.WriteTo(&b)
						out = []byte(b.String())
					case "multi":
						var a, b bytes.Buffer
						n, err = r.root.WriteTo(io.MultiWriter(&a, &b))
						out = b.Bytes()
						if !bytes.Equal(a.Bytes(), out) {
							out = a.Bytes()
						}
					}
				})
				if cl != "ok" || err != nil || n != int64(len(full)) || !bytes.Equal(out, full) {
					return viol("sink-"+op.Write.Kind, "rendering into a %s: %s %v, error %v, n=%d: %s", op.Write.Kind, cl, pv, err, n, diffAt(string(full), string(out)))
				}
			}
		}
		if !stream {
			got = r.run(defaultLimit)
			out = got.Res.Out
			if r.e.writer != nil {
				out = r.e.writer.buf
			}
			done := got.Class == "ok" && got.Res.Err == nil
			if done && !bytes.Equal(out, full) {
				return viol("text", "rendering %d (%s, %s) gives other text: %s", i, op.Kind, op.Write.Kind, diffAt(string(full), string(out)))
			}
			if !bytes.HasPrefix(full, out) {
				return viol("prefix", "rendering %d, cut short, did not write a prefix: %s", i, diffAt(string(full), string(out)))
			}
			if !done {
				failures++
			}
		}
		// the same again
		again := newRun(g)
		again.tree, again.root = first.tree, first.root
		b := again.run(defaultLimit)
		if b.Class != "ok" || b.Res.Err != nil || !bytes.Equal(b.Res.Out, full) {
			return viol("again", "rendering again after rendering %d (%s): %s: %s", i, op.Write.Kind, describe(b), diffAt(string(full), string(b.Res.Out)))
		}
		if failures > 0 {
			repeats++
		}
	}
	if after := dump(first.tree); after != before {
		return viol("changed", "rendering changed the tree: %s", diffAt(before, after))
	}
	return pass(repeats > 0, p.Ops[0].SQL, p.Ops[0].Built, p.Ops[0].Node, len(p.Ops))
}

// C13

func genActsAt(r *Rand, on string, n int, dos ...string) []Act {
	var l []Act
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		at := r.Intn(r.Pick2(5, 20, 80, 200))
		if seen[at] {
			continue
		}
		seen[at] = true
		l = append(l, Act{On: on, At: at, Do: r.Pick(dos...), Val: panicKinds[r.Intn(len(panicKinds))]})
	}
	return l
}

func genC13(r *Rand) *Plan {
	op := treeOp(r, r.Pick("walk", "inspect"), 15)
	switch r.Intn(4) {
	case 0, 1:
		op.Acts = genActsAt(r, "visit", r.Range(1, 5), "stop")
	case 2:
		op.Acts = append(genActsAt(r, "visit", r.Range(0, 2), "stop"), genActsAt(r, "visit", 1, "panic", "goexit")...)
	case 3:
		inner := genTreeOp(r, "walk", "inspect")
		if r.P(50) {
			inner.Acts = genActsAt(r, "visit", 2, "stop", "panic")
		}
		op.Acts = append(genActsAt(r, "visit", r.Range(0, 2), "stop"), Act{On: "visit", At: r.Intn(40), Do: "nest", Op: inner})
	}
	return &Plan{Kind: "walk", Ops: []*Op{op}, A: r.Intn(4)}
}

// closeOf finds, for every visit of a node, the nil visit that closes it.
func closeOf(ev []Event) ([]int, string) {
	cl := make([]int, len(ev))
	var stack []int
	for i, e := range ev {
		if !isNilNode(e.Node) {
			stack = append(stack, i)
			continue
		}
		if len(stack) == 0 {
			return nil, fmt.Sprintf("visit %d closes a node that was not entered", i)
		}
		cl[stack[len(stack)-1]] = i
		stack = stack[:len(stack)-1]
	}
	if len(stack) > 0 {
		return nil, fmt.Sprintf("the %s visited at %d is never closed", typeName(ev[stack[len(stack)-1]].Node), stack[len(stack)-1])
	}
	return cl, ""
}

func actAt(acts []Act, on string, n int, do ...string) *Act {
	for i := range acts {
		if acts[i].On == on && acts[i].At == n {
			for _, d := range do {
				if acts[i].Do == d {
					return &acts[i]
				}
			}
		}
	}
	return nil
}

// modelWalk gives the visits that must happen with the given actions.
func modelWalk(g []Event, cl []int, acts []Act) (ev []Event, thrown *Act, fired int) {
	n := 0
	for i := 0; i < len(g); i++ {
		ev = append(ev, g[i])
		k := n
		n++
		if a := actAt(acts, "visit", k, "panic", "goexit"); a != nil {
			return ev, a, fired + 1
		}
		if actAt(acts, "visit", k, "nest") != nil {
			fired++
		}
		if actAt(acts, "visit", k, "stop") != nil && !isNilNode(g[i].Node) {
			fired++
			i = cl[i] // neither children nor the closing visit
		}
	}
	return ev, nil, fired
}

func sameVisit(a, b Event) bool {
	if isNilNode(a.Node) || isNilNode(b.Node) {
		return isNilNode(a.Node) == isNilNode(b.Node)
	}
	return a.Node == b.Node
}

func nodeSize(n sqlast.Node) uintptr {
	t := reflect.TypeOf(n)
	if t.Kind() == reflect.Ptr {
		return t.Elem().Size()
	}
	return 1
}

// nestingWrong checks that what is visited between the visit and the closing of
// a node belongs to it.
func nestingWrong(ev []Event) string {
	type level struct {
		n     sqlast.Node
		under map[sqlast.Node]bool
	}
	var stack []level
	for i, e := range ev {
		if isNilNode(e.Node) {
			stack = stack[:len(stack)-1]
			continue
		}
		if nodeSize(e.Node) == 0 {
			stack = append(stack, level{e.Node, nil})
			continue
		}
		if len(stack) > 0 {
			top := &stack[len(stack)-1]
			if top.under == nil {
				top.under = map[sqlast.Node]bool{}
				for _, n := range allNodes(top.n) {
					if nodeSize(n) > 0 {
						top.under[n] = true
					}
				}
			}
			if !top.under[e.Node] || top.n == e.Node {
				return fmt.Sprintf("visit %d presents a %s while a %s is open that does not contain it", i, typeName(e.Node), typeName(top.n))
			}
		}
		stack = append(stack, level{e.Node, nil})
	}
	return ""
}

// child is a node in a field of another.
type child struct {
	name  string
	index int // -1 if the field is no list
	node  sqlast.Node
}

var (
	commentType  = reflect.TypeOf((*sqlast.Comment)(nil))
	commentsType = reflect.TypeOf((*sqlast.CommentGroup)(nil))
)

// childrenOf lists the nodes in the fields of a node, comments left out.
func childrenOf(n sqlast.Node) []child {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	var l []child
	add := func(name string, i int, f reflect.Value) {
		if f.Kind() != reflect.Ptr && f.Kind() != reflect.Interface || f.IsNil() || !f.Type().Implements(nodeType) || f.Type() == commentType || f.Type() == commentsType {
			return
		}
		c := f.Interface().(sqlast.Node)
		if isNilNode(c) {
			return
		}
		l = append(l, child{name, i, c})
	}
	for i := 0; i < v.NumField(); i++ {
		t := v.Type().Field(i)
		if t.PkgPath != "" {
			continue
		}
		if lim, ok := n.(*sqlast.LimitExpr); ok && lim.All && t.Name == "LimitValue" {
			continue // there is no value
		}
		f := v.Field(i)
		add(t.Name, -1, f)
		if f.Kind() == reflect.Slice {
			for k := 0; k < f.Len(); k++ {
				add(t.Name, k, f.Index(k))
			}
		}
	}
	return l
}

// notVisited checks that a complete walk presents every child of every node
// exactly once, directly below its parent.
func notVisited(ev []Event) string {
	type level struct {
		n   sqlast.Node
		sub map[sqlast.Node]int
	}
	var stack []level
	for _, e := range ev {
		if !isNilNode(e.Node) {
			if len(stack) > 0 {
				stack[len(stack)-1].sub[e.Node]++
			}
			stack = append(stack, level{e.Node, map[sqlast.Node]int{}})
			continue
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		l := childrenOf(top.n)
		for _, c := range l {
			if top.sub[c.node]--; top.sub[c.node] < 0 {
				return fmt.Sprintf("the %s in %s of a %s is not visited", typeName(c.node), c.name, typeName(top.n))
			}
		}
		for _, c := range l {
			if k := top.sub[c.node]; k > 0 {
				return fmt.Sprintf("the %s in %s of a %s is visited %d times too often", typeName(c.node), c.name, typeName(top.n), k)
			}
		}
	}
	return ""
}

// notPresented checks that a complete rewrite presents every child of every
// node exactly once, as what it is.
func notPresented(ev []Event) string {
	type key struct {
		parent sqlast.Node
		name   string
		index  int
	}
	type level struct {
		n   sqlast.Node
		sub map[key]sqlast.Node
	}
	var stack []level
	for _, e := range ev {
		if e.On == "pre" {
			if len(stack) > 0 {
				top := stack[len(stack)-1]
				k := key{e.Parent, e.Name, e.Index}
				if _, ok := top.sub[k]; ok {
					return fmt.Sprintf("%s[%d] of a %s is presented twice", k.name, k.index, typeName(e.Parent))
				}
				top.sub[k] = e.Node
			}
			stack = append(stack, level{e.Node, map[key]sqlast.Node{}})
			continue
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if isNilNode(top.n) {
			continue
		}
		for _, c := range childrenOf(top.n) {
			if top.sub[key{top.n, c.name, c.index}] != c.node {
				return fmt.Sprintf("the %s in %s[%d] of a %s is not presented there", typeName(c.node), c.name, c.index, typeName(top.n))
			}
		}
	}
	return ""
}

// wrongVisitor checks that each node is shown to the visitor that was returned
// for the node it is in, and closed with its own.
func wrongVisitor(ev []Event) string {
	stack := []int{0}
	for i, e := range ev {
		top := stack[len(stack)-1]
		if e.By != top {
			what := "presents a " + typeName(e.Node)
			if isNilNode(e.Node) {
				what = "closes a node"
			}
			return fmt.Sprintf("visit %d %s with the visitor returned by visit %d, expected that of %d (-1 is the first)", i, what, e.By-1, top-1)
		}
		if isNilNode(e.Node) {
			stack = stack[:len(stack)-1]
		} else if !e.Skip {
			stack = append(stack, i+1)
		}
	}
	return ""
}

func execC13(p *Plan) *Verdict {
	op := p.Ops[0]
	first := newRun(calm(op))
	if first.guardedPrepare() != nil {
		return skip("no tree")
	}
	before := dump(first.tree)
	golden := first.run(defaultLimit)
	if golden.Class == "panic" && op.Built == 0 && op.Edits == 0 {
		return viol("panics", "a complete walk of a parsed tree ends with %s", describe(golden))
	}
	if golden.Class != "ok" {
		return skip("reference run " + golden.Class)
	}
	g := golden.Res.Events
	cl, bad := closeOf(g)
	if bad != "" && (op.Built != 0 || op.Edits != 0) {
		return skip("a tree with empty fields")
	}
	if bad != "" {
		return viol("unbalanced", "a complete walk: %s", bad)
	}
	if op.Kind == "walk" {
		if bad := wrongVisitor(g); bad != "" {
			return viol("visitor", "a complete walk: %s", bad)
		}
	}
	if bad := notVisited(g); bad != "" {
		return viol("complete", "a complete walk: %s", bad)
	}
	if p.A == 0 {
		if bad := nestingWrong(g); bad != "" {
			return viol("nesting", "a complete walk: %s", bad)
		}
	}
	want, thrown, fired := modelWalk(g, cl, op.Acts)
	r := newRun(op)
	r.tree, r.root = first.tree, first.root
	got := r.run(defaultLimit)
	if thrown == nil {
		if got.Class != "ok" {
			return viol("class", "the walk ended with %s", describe(got))
		}
	} else {
		if got.Class != thrown.Do {
			return viol("class", "the visitor ended with %s but the walk with %s", thrown.Do, describe(got))
		}
		if thrown.Do == "panic" && !samePanic(got.Panic, r.e.val) {
			return viol("panicvalue", "the visitor's panic %v came back as %v", r.e.val, got.Panic)
		}
	}
	ev := got.Res.Events
	for i := range ev {
		if i >= len(want) || !sameVisit(ev[i], want[i]) {
			exp := "no further visit"
			if i < len(want) {
				exp = typeName(want[i].Node)
			}
			return viol("visits", "visit %d presents %s, expected %s (stops %v)", i, typeName(ev[i].Node), exp, brief(op.Acts))
		}
	}
	if len(ev) < len(want) {
		return viol("visits-missing", "the walk made %d visits, expected %d; missing %s (stops %v)", len(ev), len(want), typeName(want[len(ev)].Node), brief(op.Acts))
	}
	if op.Kind == "walk" {
		if bad := wrongVisitor(ev); bad != "" {
			return viol("visitor", "a walk (stops %v): %s", brief(op.Acts), bad)
		}
	}
	for _, n := range r.e.nested {
		ref := alone(n.op)
		if n.out.Class != ref.Class || diffText(n.out.Res.Text, ref.Res.Text) != "" || len(n.out.Res.Events) != len(ref.Res.Events) {
			return viol("nested", "a nested walk ended with %s after %d visits, alone with %s after %d", describe(n.out), len(n.out.Res.Events), describe(ref), len(ref.Res.Events))
		}
	}
	if after := dump(first.tree); after != before {
		return viol("changed", "the walk changed the tree: %s", diffAt(before, after))
	}
	again := newRun(calm(op))
	again.tree, again.root = first.tree, first.root
	b := again.run(defaultLimit)
	if b.Class != "ok" || len(b.Res.Events) != len(g) {
		return viol("again", "a new walk ends with %s after %d visits, expected %d", describe(b), len(b.Res.Events), len(g))
	}
	for i := range g {
		if !sameVisit(g[i], b.Res.Events[i]) {
			return viol("again", "visit %d of a new walk is %s, expected %s", i, typeName(b.Res.Events[i].Node), typeName(g[i].Node))
		}
	}
	if thrown != nil {
		probe("thrown")
	}
	return pass(fired > 0, op.Kind, op.SQL, op.Node, brief(op.Acts))
}

func brief(acts []Act) string {
	var l []string
	for _, a := range acts {
		l = append(l, fmt.Sprintf("%s@%s%d", a.Do, a.On, a.At))
	}
	return strings.Join(l, " ")
}

// C14

func genC14(r *Rand) *Plan {
	if r.P(20) {
		// what a stopped rewrite keeps of its edits
		p := genC15(r)
		op := p.Ops[0]
		on := "post"
		if op.NoPost || !op.NoPre && r.P(40) {
			on = "pre"
		}
		if !op.NoPre && r.P(30) && actAt(op.Acts, "pre", 0, "edit") == nil {
			op.Acts = append([]Act{{On: "pre", At: 0, Do: "edit", Val: "replace"}}, op.Acts...)
		}
		op.Acts = append(op.Acts, genActsAt(r, on, 1, "stop", "stop", "panic")...)
		return p
	}
	op := treeOp(r, "apply", 15)
	on := func() string {
		if op.NoPre || !op.NoPost && r.P(40) {
			return "post"
		}
		return "pre"
	}
	n := r.Range(0, 3)
	for i := 0; i < n; i++ {
		op.Acts = append(op.Acts, genActsAt(r, "pre", 1, "stop")...)
	}
	switch r.Intn(5) {
	case 0, 1:
		op.Acts = append(op.Acts, genActsAt(r, on(), 1, "stop")...)
	case 2:
		op.Acts = append(op.Acts, genActsAt(r, on(), 1, "panic", "goexit")...)
	case 3, 4:
		inner := genTreeOp(r, "apply", "apply", "apply", "walk")
		for i := r.Range(0, 2); i > 0; i-- {
			io := "pre"
			if inner.Kind == "walk" {
				io = "visit"
			} else if inner.NoPre || !inner.NoPost && r.P(50) {
				io = "post"
			}
			inner.Acts = append(inner.Acts, genActsAt(r, io, 1, "stop", "stop", "panic")...)
		}
		op.Acts = append(op.Acts, Act{On: on(), At: r.Intn(30), Do: "nest", Op: inner})
		if r.P(50) {
			op.Acts = append(op.Acts, genActsAt(r, on(), 1, "stop")...)
		}
	}
	return &Plan{Kind: "apply", Ops: []*Op{op}}
}

// postOf finds, for every pre call, the post call of the same node.
func postOf(ev []Event) []int {
	l := make([]int, len(ev))
	var stack []int
	for i, e := range ev {
		if e.On == "pre" {
			stack = append(stack, i)
			l[i] = -1
			continue
		}
		if len(stack) == 0 {
			return nil
		}
		l[stack[len(stack)-1]] = i
		stack = stack[:len(stack)-1]
	}
	if len(stack) > 0 {
		return nil
	}
	return l
}

// modelApply gives the calls that must happen. g is a complete traversal with
// both callbacks.
func modelApply(g []Event, op *Op) (ev []Event, thrown *Act, fired int) {
	post := postOf(g)
	nPre, nPost := 0, 0
	for i := 0; i < len(g); i++ {
		e := g[i]
		if e.On == "pre" && op.NoPre || e.On == "post" && op.NoPost {
			continue
		}
		k := &nPre
		if e.On == "post" {
			k = &nPost
		}
		at := *k
		*k++
		ev = append(ev, e)
		if a := actAt(op.Acts, e.On, at, "panic", "goexit"); a != nil {
			return ev, a, fired + 1
		}
		if actAt(op.Acts, e.On, at, "nest", "edit") != nil {
			fired++
		}
		stop := actAt(op.Acts, e.On, at, "stop") != nil
		if a := actAt(op.Acts, e.On, at, "edit"); a != nil && a.N == 1 {
			stop = true
		}
		if stop {
			fired++
			if e.On == "post" {
				return ev, nil, fired
			}
			i = post[i]
		}
	}
	return ev, nil, fired
}

// fullApply is a complete traversal with both callbacks.
func fullApply(op *Op) *Op {
	g := calm(op)
	g.NoPre, g.NoPost = false, false
	return g
}

func sameCall(a, b Event, withIndex bool) bool {
	if a.On != b.On || a.Name != b.Name || withIndex && a.Index != b.Index {
		return false
	}
	if isNilNode(a.Node) != isNilNode(b.Node) || !isNilNode(a.Node) && a.Node != b.Node {
		return false
	}
	return true
}

func callName(e Event) string {
	return fmt.Sprintf("%s %s (%s.%s[%d])", e.On, typeName(e.Node), typeName(e.Parent), e.Name, e.Index)
}

// checkApply compares the calls of a traversal with the expected ones.
func checkApply(want []Event, thrown *Act, r *opRun, got *Outcome, withIndex bool) *Verdict {
	if thrown == nil {
		if got.Class != "ok" {
			return viol("class", "the rewrite ended with %s (%s)\n%s", describe(got), brief(r.op.Acts), firstLines(got.Stack, 20))
		}
	} else {
		if got.Class != thrown.Do {
			return viol("class", "the callback ended with %s but the rewrite with %s", thrown.Do, describe(got))
		}
		if thrown.Do == "panic" && !samePanic(got.Panic, r.e.val) {
			return viol("panicvalue", "the callback's panic %v came back as %v", r.e.val, got.Panic)
		}
	}
	ev := got.Res.Events
	for i := range ev {
		if i >= len(want) {
			return viol("calls-extra", "call %d is %s, expected no further call (%s)", i, callName(ev[i]), brief(r.op.Acts))
		}
		if !sameCall(ev[i], want[i], withIndex) {
			return viol("calls", "call %d is %s, expected %s (%s)", i, callName(ev[i]), callName(want[i]), brief(r.op.Acts))
		}
		if ev[i].Bad != "" {
			return viol("cursor", "call %d, %s: %s", i, callName(ev[i]), ev[i].Bad)
		}
	}
	if len(ev) < len(want) {
		return viol("calls-missing", "%d calls, expected %d; missing %s (%s)", len(ev), len(want), callName(want[len(ev)]), brief(r.op.Acts))
	}
	return nil
}

func checkGolden(golden *Outcome) *Verdict {
	if golden.Class == "panic" && golden.Env != nil && golden.Env.op != nil && golden.Env.op.Built == 0 && golden.Env.op.Edits == 0 {
		return viol("panics", "a complete rewrite of a parsed tree ends with %s", describe(golden))
	}
	if golden.Class != "ok" {
		return skip("reference run " + golden.Class)
	}
	g := golden.Res.Events
	if postOf(g) == nil {
		return viol("unbalanced", "in a complete rewrite, pre and post calls do not pair up")
	}
	for i, e := range g {
		if e.Bad != "" {
			return viol("cursor", "call %d of a complete rewrite, %s: %s", i, callName(e), e.Bad)
		}
	}
	if bad := notPresented(g); bad != "" {
		return viol("complete", "a complete rewrite: %s", bad)
	}
	return nil
}

func execC14(p *Plan) *Verdict {
	if p.Kind == "edits" {
		return execC15(p)
	}
	op := p.Ops[0]
	first := newRun(fullApply(op))
	if first.guardedPrepare() != nil {
		return skip("no tree")
	}
	before := dump(first.tree)
	golden := first.run(defaultLimit)
	if v := checkGolden(golden); v != nil {
		return v
	}
	g := golden.Res.Events
	if golden.Res.Root != first.root {
		return viol("root", "a rewrite without edits returned another root")
	}
	want, thrown, fired := modelApply(g, op)
	r := newRun(op)
	r.tree, r.root = first.tree, first.root
	got := r.run(defaultLimit)
	if v := checkApply(want, thrown, r, got, true); v != nil {
		return v
	}
	if thrown == nil && got.Res.Root != first.root {
		return viol("root", "the rewrite returned %s instead of the root (%s)", short(dump(got.Res.Root), 200), brief(op.Acts))
	}
	for _, n := range r.e.nested {
		ref := alone(n.op)
		if n.out.Class != ref.Class || len(n.out.Res.Events) != len(ref.Res.Events) {
			return viol("nested", "a nested %s ended with %s after %d calls, alone with %s after %d", n.op.Kind, describe(n.out), len(n.out.Res.Events), describe(ref), len(ref.Res.Events))
		}
		if d := differ(ref, n.out); d != "" {
			return viol("nested", "a nested %s: %s", n.op.Kind, d)
		}
		probe("nested-" + n.op.Kind)
	}
	if after := dump(first.tree); after != before {
		return viol("changed", "a rewrite without edits changed the tree: %s", diffAt(before, after))
	}
	return pass(fired > 0, op.SQL, op.Node, op.NoPre, op.NoPost, brief(op.Acts))
}

// C15

func genC15(r *Rand) *Plan {
	op := treeOp(r, "apply", 15)
	if r.P(30) {
		op.NoPre, op.NoPost = r.P(50), false
	}
	on := func() string {
		if op.NoPre || !op.NoPost && r.P(45) {
			return "post"
		}
		return "pre"
	}
	n := r.Pick2(1, 1, 2, 4, 10, 30)
	top := r.Pick2(10, 30, 80, 200)
	for i := 0; i < n; i++ {
		a := Act{On: on(), At: r.Intn(top), Do: "edit", Val: genEdits(r)}
		if actAt(op.Acts, a.On, a.At, "edit") != nil {
			continue
		}
		if r.P(6) {
			a.N = 1
		}
		op.Acts = append(op.Acts, a)
	}
	switch r.Intn(10) {
	case 0:
		op.Acts = append(op.Acts, genActsAt(r, on(), 1, "panic", "goexit")...)
	case 1:
		op.Acts = append(op.Acts, genActsAt(r, on(), 1, "stop")...)
	}
	return &Plan{Kind: "edits", Ops: []*Op{op}}
}

type listKey struct {
	parent sqlast.Node
	name   string
}

type entry struct{ node sqlast.Node }

// fieldNodes reads a list of nodes.
func fieldNodes(parent sqlast.Node, name string) ([]sqlast.Node, bool) {
	v := reflect.Indirect(reflect.ValueOf(parent)).FieldByName(name)
	if !v.IsValid() || v.Kind() != reflect.Slice {
		return nil, false
	}
	var l []sqlast.Node
	for i := 0; i < v.Len(); i++ {
		n, _ := v.Index(i).Interface().(sqlast.Node)
		l = append(l, n)
	}
	return l, true
}

func execC15(p *Plan) *Verdict {
	op := p.Ops[0]
	first := newRun(fullApply(op))
	if first.guardedPrepare() != nil {
		return skip("no tree")
	}
	golden := first.run(defaultLimit)
	if v := checkGolden(golden); v != nil {
		return v
	}
	g := golden.Res.Events
	// what is there before
	lists := map[listKey][]*entry{}
	var keys []listKey
	singles := map[listKey]*entry{}
	var singleKeys []listKey
	entryOf := map[int]*entry{} // by the number of the pre call in g
	for i, e := range g {
		if e.On != "pre" {
			continue
		}
		k := listKey{e.Parent, e.Name}
		if e.Index < 0 {
			if i == 0 {
				continue // the root
			}
			x := &entry{e.Node}
			singles[k] = x
			singleKeys = append(singleKeys, k)
			entryOf[i] = x
			continue
		}
		if lists[k] == nil {
			keys = append(keys, k)
			l, ok := fieldNodes(e.Parent, e.Name)
			if !ok {
				return viol("cursor", "%s is presented as an element of something that is no list", callName(e))
			}
			for _, n := range l {
				lists[k] = append(lists[k], &entry{n})
			}
		}
		if e.Index >= len(lists[k]) {
			return viol("cursor", "%s has an index beyond its list of %d", callName(e), len(lists[k]))
		}
		entryOf[i] = lists[k][e.Index]
	}
	// every element of a list that is presented at all is presented once, in order
	next := map[listKey]int{}
	for _, e := range g {
		if e.On == "pre" && e.Index >= 0 {
			k := listKey{e.Parent, e.Name}
			if e.Index != next[k] {
				return viol("order", "%s is presented out of order, expected element %d", callName(e), next[k])
			}
			next[k]++
		}
	}
	for _, k := range keys {
		if next[k] != len(lists[k]) {
			return viol("lost", "%d of %d elements of %s.%s are presented", next[k], len(lists[k]), typeName(k.parent), k.name)
		}
	}
	want, thrown, _ := modelApply(g, op)
	r := newRun(op)
	r.tree, r.root = first.tree, first.root
	marks := map[sqlast.Node]string{}
	var made []sqlast.Node
	r.mark = func(n sqlast.Node) sqlast.Node {
		made = append(made, n)
		return n
	}
	got := r.run(defaultLimit)
	// presented: the same nodes, wherever they are by now
	if v := checkApply(want, thrown, r, got, false); v != nil {
		return v
	}
	// the same edits on plain lists
	goldenOf := mapCalls(g, got.Res.Events, op)
	rootNode := first.root
	for _, e := range r.edits {
		gi := goldenOf[r.preOf(e.Event)]
		if gi < 0 {
			return skip("call not found")
		}
		ge := g[gi]
		if gi == 0 {
			if e.Do == "replace" {
				rootNode = e.New
			}
			continue
		}
		x := entryOf[gi]
		k := listKey{ge.Parent, ge.Name}
		if ge.Index < 0 {
			x.node = e.New
			continue
		}
		l := lists[k]
		i := 0
		for i < len(l) && l[i] != x {
			i++
		}
		if i == len(l) {
			return skip("edit of a deleted node")
		}
		switch e.Do {
		case "replace":
			x.node = e.New
		case "delete":
			l = append(append([]*entry{}, l[:i]...), l[i+1:]...)
		case "before":
			l = append(append(append([]*entry{}, l[:i]...), &entry{e.New}), l[i:]...)
		case "after":
			l = append(append(append([]*entry{}, l[:i+1]...), &entry{e.New}), l[i+1:]...)
		}
		lists[k] = l
	}
	for _, k := range keys {
		l, _ := fieldNodes(k.parent, k.name)
		w := lists[k]
		same := len(l) == len(w)
		for i := 0; same && i < len(l); i++ {
			same = l[i] == w[i].node
		}
		if !same {
			return viol("list", "%s.%s is %s, expected %s (edits %s)", typeName(k.parent), k.name, nodeList(l), entryList(w), editList(r.edits))
		}
	}
	for _, k := range singleKeys {
		v := reflect.Indirect(reflect.ValueOf(k.parent)).FieldByName(k.name)
		n, _ := v.Interface().(sqlast.Node)
		w := singles[k].node
		if isNilNode(n) != isNilNode(w) || !isNilNode(n) && n != w {
			return viol("field", "%s.%s is %s, expected %s (edits %s)", typeName(k.parent), k.name, short(dump(n), 100), short(dump(w), 100), editList(r.edits))
		}
	}
	if thrown == nil && got.Res.Root != rootNode {
		return viol("root", "the rewrite returned %s, expected %s (%s)", short(dump(got.Res.Root), 200), short(dump(rootNode), 200), editList(r.edits))
	}
	_ = marks
	for _, e := range r.edits {
		if e.New != nil {
			if a, b := e.NewDump, dump(e.New); a != b {
				return viol("newnode", "the node that was put in was changed: %s", diffAt(a, b))
			}
		}
	}
	if len(r.edits) > 1 {
		probe("several-edits")
	}
	if thrown != nil && len(r.edits) > 0 {
		probe("edits-then-thrown")
	}
	return pass(len(r.edits) > 0, op.SQL, op.Node, op.NoPre, op.NoPost, editList(r.edits), brief(op.Acts))
}

// mapCalls finds, for every call made, the pre call of the same node in the
// complete traversal g.
func mapCalls(g, ev []Event, op *Op) []int {
	post := postOf(g)
	pre := make([]int, len(g))
	for i, p := range post {
		if g[i].On == "pre" {
			pre[i] = i
			pre[p] = i
		}
	}
	l := make([]int, len(ev))
	nPre, nPost := 0, 0
	j := 0
	for i := 0; i < len(g) && j < len(ev); i++ {
		e := g[i]
		if e.On == "pre" && op.NoPre || e.On == "post" && op.NoPost {
			continue
		}
		k := &nPre
		if e.On == "post" {
			k = &nPost
		}
		at := *k
		*k++
		l[j] = pre[i]
		j++
		stop := actAt(op.Acts, e.On, at, "stop") != nil
		if a := actAt(op.Acts, e.On, at, "edit"); a != nil && a.N == 1 {
			stop = true
		}
		if stop && e.On == "pre" {
			i = post[i]
		}
	}
	for ; j < len(ev); j++ {
		l[j] = -1
	}
	return l
}

func nodeList(l []sqlast.Node) string {
	var s []string
	for _, n := range l {
		s = append(s, fmt.Sprintf("%s@%p", typeName(n), n))
	}
	return "[" + short(normErr(strings.Join(s, " ")), 300) + fmt.Sprintf("](%d)", len(l))
}

func entryList(l []*entry) string {
	var n []sqlast.Node
	for _, e := range l {
		n = append(n, e.node)
	}
	return nodeList(n)
}

func editList(l []edit) string {
	var s []string
	for _, e := range l {
		s = append(s, fmt.Sprintf("%s@%d %s.%s[%d]", e.Do, e.Event, typeName(e.Parent), e.Name, e.Index))
	}
	return strings.Join(s, ", ")
}

var _ = sqlastutil.Apply
