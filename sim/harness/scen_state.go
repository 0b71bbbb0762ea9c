package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

func init() {
	scenarios["C22"] = &scenario{gen: genC22, exec: execC22, rule: "a tree with a history of random edits of its fields and lists and of rewrites, mixed with renderings, walks, position queries and comment maps that complete, fail or are cut short; or a walk or rewrite whose callback edits the node it is shown; non-trivial if an edit was made and something observed after it"}
}

func genC22(r *Rand) *Plan {
	base := &Op{Kind: "tree", Dialect: pickDialect(r)}
	base.SQL = Bytes(genScript(r, base.Dialect, r.Range(1, 2), true).String())
	if r.P(35) {
		p := &Plan{Kind: "live", Ops: []*Op{base}}
		op := &Op{Kind: r.Pick("walk", "inspect", "apply", "apply"), Dialect: base.Dialect}
		if op.Kind == "apply" {
			op.NoPost = r.P(30)
		}
		if r.P(50) {
			op.Node = r.Range(1, 300)
		}
		if r.P(60) {
			// edits all along
			op.Acts = append(op.Acts, Act{On: "visit", At: -r.Pick2(5, 15, 40, 80), Do: "mutate", N: r.Intn(1 << 30)})
			p.Ops = append(p.Ops, op)
			return p
		}
		for i := r.Range(1, 4); i > 0; i-- {
			op.Acts = append(op.Acts, Act{On: "visit", At: r.Intn(r.Pick2(3, 10, 40)), Do: "mutate", N: r.Intn(1 << 30)})
		}
		p.Ops = append(p.Ops, op)
		return p
	}
	if r.P(20) {
		base.SQL = ""
		base.Built = r.Next() | 1
	}
	p := &Plan{Kind: "history", Ops: []*Op{base}}
	focus := ""
	if r.P(50) {
		focus = r.Pick("render", "render", "string", "walk", "apply", "cmap", "positions")
	}
	n := r.Range(2, 7)
	for i := 0; i < n; i++ {
		if r.P(45) && i < n-1 {
			p.Ops = append(p.Ops, &Op{Kind: "mutate", Node: r.Intn(400), Built: r.Next() | 1})
			continue
		}
		var op *Op
		if focus != "" && r.P(70) {
			op = genTreeOp(r, focus)
		} else {
			op = genTreeOp(r)
		}
		op.SQL = ""
		if r.P(60) {
			op.Node = 0
		}
		if op.Kind == "apply" && r.P(60) {
			on := "pre"
			if op.NoPre {
				on = "post"
			}
			op.Acts = append(op.Acts, Act{On: on, At: r.Intn(30), Do: "edit", Val: genEdits(r)})
		}
		if r.P(30) {
			addFaults(r, op)
			op.Kill = 0
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

// freshCopy copies what can be seen of a tree, as a caller would who builds the
// same tree from literals.
func freshCopy(v interface{}) interface{} {
	var rec func(v reflect.Value) reflect.Value
	fields := func(dst, src reflect.Value) {
		for _, f := range infoOf(src.Type()).fields {
			dst.Field(f).Set(rec(src.Field(f)))
		}
	}
	rec = func(v reflect.Value) reflect.Value {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return v
			}
			n := reflect.New(v.Type().Elem())
			if v.Elem().Kind() == reflect.Struct {
				fields(n.Elem(), v.Elem())
			} else {
				n.Elem().Set(v.Elem())
			}
			return n
		case reflect.Interface:
			if v.IsNil() {
				return v
			}
			n := reflect.New(v.Type()).Elem()
			n.Set(rec(v.Elem()))
			return n
		case reflect.Slice:
			if v.IsNil() {
				return v
			}
			n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(rec(v.Index(i)))
			}
			return n
		case reflect.Struct:
			if v.Type() == timeType {
				return v
			}
			n := reflect.New(v.Type()).Elem()
			fields(n, v)
			return n
		}
		return v
	}
	return rec(reflect.ValueOf(v)).Interface()
}

// mutateNode makes one edit of a field of n. With keep, nothing is taken away
// that the node may need.
func mutateNode(root interface{}, n sqlast.Node, r *Rand, keep bool) string {
	v := reflect.Indirect(reflect.ValueOf(n))
	if v.Kind() != reflect.Struct {
		return ""
	}
	in := infoOf(v.Type())
	if len(in.fields) == 0 {
		return ""
	}
	var pool []sqlast.Node
	donors := func(t reflect.Type) []sqlast.Node {
		if pool == nil {
			for _, x := range allNodes(root) {
				switch x.(type) {
				case *sqlast.File, *sqlast.Comment, *sqlast.CommentGroup, *sqlast.AutoIncrement, *sqlast.MyEngine, *sqlast.MyCharset:
					continue
				}
				if keep && !walkable(x) {
					continue
				}
				pool = append(pool, x)
			}
		}
		var l []sqlast.Node
		for _, x := range pool {
			if reflect.TypeOf(x).AssignableTo(t) && (!keep || t.Kind() != reflect.Interface || sameRole(x, t)) {
				l = append(l, x)
			}
		}
		return l
	}
	donor := func(t reflect.Type) (reflect.Value, bool) {
		l := donors(t)
		if len(l) == 0 {
			return reflect.Value{}, false
		}
		x := l[r.Intn(len(l))]
		if len(allNodes(x)) > 60 {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(freshCopy(x)), true
	}
	structure := r.P(70)
	for try := 0; try < 12; try++ {
		k := r.Intn(len(in.fields))
		f := v.Field(in.fields[k])
		if kind := f.Kind(); structure && try < 8 && kind != reflect.Ptr && kind != reflect.Interface && kind != reflect.Slice {
			continue
		}
		name := typeName(n) + "." + in.names[k]
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(r.Pick("edited", "é", "x y", "n"))
			return name
		case reflect.Bool:
			if keep {
				continue
			}
			f.SetBool(!f.Bool())
			return name
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.SetInt(int64(r.Intn(9)))
			return name
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.SetUint(uint64(r.Intn(9)))
			return name
		case reflect.Float32, reflect.Float64:
			f.SetFloat(float64(r.Intn(90)) / 8)
			return name
		case reflect.Struct:
			if f.Type() == posType && f.CanSet() {
				f.Field(0).SetInt(int64(r.Range(1, 9)))
				f.Field(1).SetInt(int64(r.Range(1, 99)))
				return name
			}
			if f.Type() == timeType && f.CanSet() {
				f.Set(reflect.ValueOf(time.Date(2000+r.Intn(30), time.Month(r.Range(1, 12)), r.Range(1, 28), r.Intn(24), r.Intn(60), 0, 0, time.UTC)))
				return name
			}
		case reflect.Ptr, reflect.Interface:
			if !f.IsNil() && !keep && r.P(15) {
				f.Set(reflect.Zero(f.Type()))
				return name
			}
			if f.Kind() == reflect.Ptr && f.Type().Elem().Kind() != reflect.Struct {
				if x := reflect.New(f.Type().Elem()); x.Elem().CanUint() {
					x.Elem().SetUint(uint64(r.Intn(50)))
					f.Set(x)
					return name
				} else if x.Elem().CanInt() {
					x.Elem().SetInt(int64(r.Intn(50)))
					f.Set(x)
					return name
				}
				continue
			}
			if x, ok := donor(f.Type()); ok {
				f.Set(x)
				return name
			}
		case reflect.Slice:
			l := f.Len()
			switch r.Intn(4) {
			case 0: // one more
				x, ok := donor(f.Type().Elem())
				if !ok {
					continue
				}
				at := r.Intn(l + 1)
				s := reflect.MakeSlice(f.Type(), 0, l+1)
				s = reflect.AppendSlice(s, f.Slice(0, at))
				s = reflect.Append(s, x)
				s = reflect.AppendSlice(s, f.Slice(at, l))
				f.Set(s)
				return name
			case 1: // one less, in place
				if l == 0 || keep && l < 2 {
					continue
				}
				at := r.Intn(l)
				reflect.Copy(f.Slice(at, l), f.Slice(at+1, l))
				f.Set(f.Slice(0, l-1))
				return name
			case 2: // another one
				if l == 0 {
					continue
				}
				x, ok := donor(f.Type().Elem())
				if !ok {
					continue
				}
				f.Index(r.Intn(l)).Set(x)
				return name
			case 3: // another order
				if l < 2 {
					continue
				}
				i, j := r.Intn(l), r.Intn(l)
				a, b := f.Index(i).Interface(), f.Index(j).Interface()
				f.Index(i).Set(reflect.ValueOf(b))
				f.Index(j).Set(reflect.ValueOf(a))
				return name
			}
		}
	}
	return ""
}

// walkable tells whether traversals get through a node and everything below.
func walkable(n sqlast.Node) (ok bool) {
	defer func() { ok = recover() == nil }()
	bad := false
	sqlast.Inspect(n, func(x sqlast.Node) bool { return true })
	sqlastutil.Apply(n, func(c *sqlastutil.Cursor) bool {
		bad = bad || isNilNode(c.Node())
		return true
	}, nil)
	if bad {
		panic("nil")
	}
	return true
}

// sameRole keeps edits sensible: a plain expression takes the place of a node
// in a field of the general type.
func sameRole(x sqlast.Node, t reflect.Type) bool {
	if t != nodeType {
		return true
	}
	switch x.(type) {
	case *sqlast.Ident, *sqlast.CompoundIdent, *sqlast.LongValue, *sqlast.SingleQuotedString, *sqlast.BinaryExpr, *sqlast.Nested, *sqlast.Function, *sqlast.NullValue, *sqlast.DoubleValue, *sqlast.BooleanValue, *sqlast.Cast, *sqlast.UnaryExpr:
		return true
	}
	return false
}

// onTree runs a step of a history on a tree.
func onTree(tree interface{}, st *Op) (*Outcome, interface{}) {
	r := newRun(st)
	r.tree = tree
	if err := r.prepare(); err != nil {
		return &Outcome{Class: "skip", ErrText: normErr(err.Error()), Res: r.res, Env: r.e}, tree
	}
	out := r.run(defaultLimit)
	if st.Kind == "apply" && st.Node == 0 && !isNilNode(out.Res.Root) {
		tree = out.Res.Root
	}
	return out, tree
}

func changesTree(st *Op) bool {
	if st.Kind != "apply" {
		return false
	}
	for _, a := range st.Acts {
		if a.Do == "edit" {
			return true
		}
	}
	return false
}

func mutateTree(tree interface{}, st *Op) string {
	l := allNodes(tree)
	if len(l) == 0 {
		return ""
	}
	return mutateNode(tree, l[st.Node%len(l)], NewRand(st.Built), false)
}

// safeTree makes the tree of an operation with a step budget.
func safeTree(op *Op) interface{} {
	var t interface{}
	cl, _, _ := guarded(defaultLimit, func() {
		x, err := makeTree(op)
		if err == nil {
			t = x
		}
	})
	if cl != "ok" {
		return nil
	}
	return t
}

func execC22(p *Plan) *Verdict {
	if len(p.Ops) < 2 {
		return skip("no steps")
	}
	tree := safeTree(p.Ops[0])
	if tree == nil || len(allNodes(tree)) > 1500 {
		return skip("no tree")
	}
	if p.Kind == "live" {
		return execLive(p, tree)
	}
	edits, after := 0, 0
	var did []string
	// the references are made at once or after all steps, so that they cannot
	// disturb what the library may remember of the tree
	atOnce := p.Rand&2 == 0
	var refs []func() *Verdict
	for i, st := range p.Ops[1:] {
		if st.Kind == "mutate" {
			if e := mutateTree(tree, st); e != "" {
				edits++
				did = append(did, e)
				stats.Fired["edit"]++
			}
			continue
		}
		i, st, did0 := i, st, did[:len(did):len(did)]
		was := dump(tree)
		fresh := freshCopy(tree)
		got, next := onTree(tree, st)
		text := got.text()
		ref := func() *Verdict {
			// the same steps without the observations
			other := safeTree(p.Ops[0])
			if other == nil {
				return viol("again", "the text does not parse again")
			}
			for _, x := range p.Ops[1 : i+1] {
				if x.Kind == "mutate" {
					mutateTree(other, x)
				} else if changesTree(x) {
					_, other = onTree(other, x)
				}
			}
			if a := dump(other); a != was {
				return viol("state", "after %v and %s the tree is not what the edits alone make of it: %s", did0, kindsOf(p.Ops[1:i+1]), diffAt(a, was))
			}
			want, _ := onTree(other, st)
			if a := want.text(); a != text {
				return viol("stale", "%s after %v and %s differs from the same on a tree that was only edited: %s", st.Kind, did0, kindsOf(p.Ops[1:i+1]), diffAt(a, text))
			}
			if st.Kind == "render" || st.Kind == "string" {
				want, _ := onTree(fresh, st)
				if a := want.text(); a != text {
					return viol("stale-copy", "%s after %v and %s differs from the same on a fresh copy of the tree: %s", st.Kind, did0, kindsOf(p.Ops[1:i+1]), diffAt(a, text))
				}
			}
			return nil
		}
		if !atOnce {
			refs = append(refs, ref)
		} else if v := ref(); v != nil {
			return v
		}
		tree = next
		if changesTree(st) {
			edits++
			did = append(did, "rewrite")
		} else if edits > 0 {
			after++
		}
		probe("observe-" + st.Kind + "-" + got.Class)
	}
	for _, ref := range refs {
		if v := ref(); v != nil {
			return v
		}
	}
	return pass(after > 0, p.Ops[0].SQL, p.Ops[0].Built, kindsOf(p.Ops[1:]), did)
}

func kindsOf(ops []*Op) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.Kind)
	}
	return strings.Join(l, " ")
}

// execLive compares a traversal whose callback edits the node it is shown with
// a model: show the node, edit it, then do the same with each of its children.
func execLive(p *Plan, tree interface{}) *Verdict {
	st := p.Ops[1]
	pick := func(t interface{}) sqlast.Node {
		var l []sqlast.Node
		for _, n := range allNodes(t) {
			switch n.(type) {
			case *sqlast.Comment, *sqlast.CommentGroup, *sqlast.AutoIncrement, *sqlast.MyEngine, *sqlast.MyCharset:
			default:
				l = append(l, n)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[st.Node%len(l)]
	}
	type shown struct{ what, text string }
	type session struct {
		root  sqlast.Node
		l     []shown
		edits []string
		depth int
	}
	const most = 3000
	see := func(s *session, n sqlast.Node, where string) {
		k := len(s.l)
		if k >= most {
			panic("sim: too many nodes")
		}
		text := ""
		if !isNilNode(n) && k < 400 {
			text = fmt.Sprint(hashString(dump(n)))
		}
		s.l = append(s.l, shown{where + typeName(n), text})
		if isNilNode(n) {
			return
		}
		for _, a := range st.Acts {
			if a.At == k || a.At < 0 && k < 400 && len(s.edits) < 40 && NewRand(uint64(a.N), uint64(k)).P(-a.At) {
				if e := mutateNode(s.root, n, NewRand(uint64(a.N), uint64(k), 1), true); e != "" {
					s.edits = append(s.edits, fmt.Sprintf("%s@%d", e, k))
					stats.Fired["edit-in-callback"]++
				}
			}
		}
	}
	place := func(c *sqlastutil.Cursor) string {
		return fmt.Sprintf("%s.%s[%d] ", typeName(c.Parent()), c.Name(), c.Index())
	}
	// the traversal
	real := &session{root: pick(tree)}
	if real.root == nil {
		return skip("no tree")
	}
	cl, pv, stack := guarded(defaultLimit, func() {
		switch st.Kind {
		case "walk":
			sqlast.Walk(visitFunc(func(n sqlast.Node) bool {
				if n != nil {
					see(real, n, "")
				}
				return true
			}), real.root)
		case "inspect":
			sqlast.Inspect(real.root, func(n sqlast.Node) bool {
				if n != nil {
					see(real, n, "")
				}
				return true
			})
		case "apply":
			var post sqlastutil.ApplyFunc
			if !st.NoPost {
				post = func(*sqlastutil.Cursor) bool { return true }
			}
			sqlastutil.Apply(real.root, func(c *sqlastutil.Cursor) bool {
				see(real, c.Node(), place(c))
				return true
			}, post)
		}
	})
	// the model
	t2 := safeTree(p.Ops[0])
	if t2 == nil {
		return viol("again", "the text does not parse again")
	}
	model := &session{root: pick(t2)}
	type child struct {
		n     sqlast.Node
		where string
	}
	children := func(n sqlast.Node) (l []child) {
		first := true
		if st.Kind == "apply" {
			sqlastutil.Apply(n, func(c *sqlastutil.Cursor) bool {
				if first {
					first = false
					return true
				}
				l = append(l, child{c.Node(), place(c)})
				return false
			}, nil)
			return l
		}
		sqlast.Inspect(n, func(x sqlast.Node) bool {
			if first {
				first = false
				return true
			}
			if x != nil {
				l = append(l, child{x, ""})
			}
			return false
		})
		return l
	}
	var rec func(c child, d int)
	rec = func(c child, d int) {
		see(model, c.n, c.where)
		if isNilNode(c.n) || d > 500 {
			return
		}
		for _, x := range children(c.n) {
			rec(x, d+1)
		}
	}
	mcl, mpv, _ := guarded(defaultLimit, func() {
		rec(child{model.root, map[bool]string{true: ".Node[-1] ", false: ""}[st.Kind == "apply"]}, 0)
	})
	if mcl != "ok" {
		if fmt.Sprint(mpv) == "sim: too many nodes" || cl == mcl {
			return skip("model " + mcl)
		}
		return skip(fmt.Sprintf("model %s", mcl))
	}
	if cl != "ok" {
		if fmt.Sprint(pv) == "sim: too many nodes" {
			return skip("too many nodes")
		}
		return viol("live-"+cl, "%s with edits %v of the nodes shown ended with %s %v, showing the children one by one does not\n%s", st.Kind, real.edits, cl, pv, firstLines(stack, 20))
	}
	for i := 0; i < len(real.l) || i < len(model.l); i++ {
		a, b := shown{"nothing", ""}, shown{"nothing", ""}
		if i < len(model.l) {
			a = model.l[i]
		}
		if i < len(real.l) {
			b = real.l[i]
		}
		if a != b {
			return viol("live", "%s, edits %v of the nodes shown: call %d is about %s, expected %s", st.Kind, real.edits, i, b.what, a.what)
		}
	}
	if a, b := dump(t2), dump(tree); a != b {
		return viol("live-tree", "%s, edits %v of the nodes shown: the tree afterwards differs: %s", st.Kind, real.edits, diffAt(a, b))
	}
	return pass(len(real.edits) > 0, st.Kind, p.Ops[0].SQL, real.edits)
}

type visitFunc func(sqlast.Node) bool

func (f visitFunc) Visit(n sqlast.Node) sqlast.Visitor {
	if !f(n) {
		return nil
	}
	return f
}
