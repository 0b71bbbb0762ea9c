package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// Plan is one simulated run, complete: replaying it is a pure function of the
// plan and the code.
type Plan struct {
	Prop  string     `json:"property"`
	Kind  string     `json:"kind"`
	Ops   []*Op      `json:"ops,omitempty"`
	Sched []Decision `json:"sched,omitempty"`
	Rand  uint64     `json:"rand"`
	Rands []uint64   `json:"rands,omitempty"`
	GC    []int64    `json:"gc,omitempty"`
	A     int        `json:"a,omitempty"`
	B     int        `json:"b,omitempty"`
	C     int        `json:"c,omitempty"`
	S     Bytes      `json:"s,omitempty"`
	L     []int      `json:"l,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// Verdict is the result of a run.
type Verdict struct {
	Violation  string `json:"violation,omitempty"` // class of the violation
	Detail     string `json:"detail,omitempty"`
	Skip       string `json:"skip,omitempty"`
	NonTrivial bool   `json:"-"`
	Sig        uint64 `json:"-"` // for counting distinct runs
	Inter      uint64 `json:"-"` // interleaving
	Loc        string `json:"loc,omitempty"`
}

type scenario struct {
	gen  func(r *Rand) *Plan
	exec func(p *Plan) *Verdict
	rule string
	// processes: exec starts processes of its own
	processes bool
	race      bool // needs the race-detecting build
}

var scenarios = map[string]*scenario{}

func skip(why string) *Verdict { return &Verdict{Skip: why} }

func viol(class string, f string, a ...interface{}) *Verdict {
	return &Verdict{Violation: class, Detail: fmt.Sprintf(f, a...)}
}

func pass(nontrivial bool, sig ...interface{}) *Verdict {
	return &Verdict{NonTrivial: nontrivial, Sig: hashString(fmt.Sprint(sig...))}
}

// Stats are the measurements of a worker.
type Stats struct {
	Runs       int64            `json:"runs"`
	Evals      int64            `json:"evals"` // evaluations inside of runs
	Skipped    map[string]int64 `json:"skipped"`
	NonTrivial int64            `json:"nontrivial"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Fired      map[string]int64 `json:"fired"`
	Kinds      map[string]int64 `json:"kinds"`
	Probes     map[string]int64 `json:"probes"`
	Samples    []string         `json:"samples"`
	MaxTasks   int              `json:"max_tasks"`
	MaxWork    int64            `json:"max_work"` // permille of the work bound
	MaxWorkOf  string           `json:"max_work_of"`

	steps int64
	sigs  map[uint64]struct{}
	inter map[uint64]struct{}
}

var stats = &Stats{Skipped: map[string]int64{}, Fired: map[string]int64{}, Kinds: map[string]int64{}, Probes: map[string]int64{}, sigs: map[uint64]struct{}{}, inter: map[uint64]struct{}{}}

func (s *Stats) addFired(e *env) {
	for k, n := range e.fired {
		s.Fired[k] += int64(n)
	}
	for _, n := range e.nested {
		if n.out.Env != nil && n.out.Env != e {
			s.addFired(n.out.Env)
		}
	}
}

func probe(name string) { stats.Probes[name]++ }

// together runs operations as concurrent tasks.
type together struct {
	runs  []*opRun
	sched *Sched
}

func runTogether(ops []*Op, decisions []Decision, limit int64, setup func(i int, r *opRun)) (*together, error) {
	tg := &together{sched: &Sched{decisions: decisions}}
	for i, op := range ops {
		r := newRun(op)
		if setup != nil {
			setup(i, r)
		}
		if err := r.guardedPrepare(); err != nil {
			return nil, err
		}
		tg.runs = append(tg.runs, r)
	}
	for i, r := range tg.runs {
		t := tg.sched.AddTask(fmt.Sprintf("%d-%s", i, r.op.Kind), limit, r.body)
		if r.op.Kill > 0 {
			t.killAt = r.op.Kill
		}
		r.task = t
	}
	tg.sched.Run()
	stats.steps += tg.sched.total
	stats.Switches += int64(tg.sched.switches)
	for _, r := range tg.runs {
		if r.task.killed {
			stats.Fired["task:kill"]++
		}
		stats.addFired(r.e)
	}
	if len(ops) > stats.MaxTasks {
		stats.MaxTasks = len(ops)
	}
	return tg, nil
}

// genDecisions makes a schedule.
func genDecisions(r *Rand, tasks int) []Decision {
	var l []Decision
	if r.P(50) {
		// some way into the operations first
		for i := 0; i < tasks; i++ {
			if r.P(70) {
				l = append(l, Decision{i, int64(r.Range(1, r.Pick2(100, 2000, 20000)))})
			}
		}
	}
	switch r.Intn(6) {
	case 4: // at the calls of the caller's code
		n := r.Range(10, 300)
		top := r.Pick2(1, 1, 3, 20)
		for i := 0; i < n; i++ {
			l = append(l, Decision{r.Intn(tasks), -int64(r.Range(1, top))})
		}
	case 5: // there, and between statements
		n := r.Range(10, 300)
		for i := 0; i < n; i++ {
			if r.P(50) {
				l = append(l, Decision{r.Intn(tasks), -int64(r.Range(1, 3))})
			} else {
				l = append(l, Decision{r.Intn(tasks), int64(r.Range(1, r.Pick2(3, 30, 500)))})
			}
		}
	case 0: // fine grained
		n := r.Range(20, 400)
		top := r.Pick2(1, 3, 10)
		for i := 0; i < n; i++ {
			l = append(l, Decision{r.Intn(tasks), int64(r.Range(1, top))})
		}
	case 1: // coarse
		n := r.Range(10, 80)
		for i := 0; i < n; i++ {
			l = append(l, Decision{r.Intn(tasks), int64(r.Range(1, 200))})
		}
	case 2: // few switches at random places
		n := r.Range(1, 6)
		for i := 0; i < n; i++ {
			l = append(l, Decision{r.Intn(tasks), int64(r.Range(1, 3000))})
		}
	case 3: // mixed
		n := r.Range(20, 200)
		for i := 0; i < n; i++ {
			s := 1
			for s < 5000 && r.P(60) {
				s *= 2
			}
			l = append(l, Decision{r.Intn(tasks), int64(s)})
		}
	}
	return l
}

// source generators

type srcOpt struct {
	corrupt int // percentage of damaged texts
	pad     int // percentage of long texts
	calls   []string
	kinds   []string
	maxStmt int
	huge    int // percentage of texts longer than any buffer
}

// genOp makes an operation that reads a source: parse settokens tokenize pull scan.
func genOp(r *Rand, o srcOpt) *Op {
	if o.maxStmt == 0 {
		o.maxStmt = 3
	}
	if len(o.kinds) == 0 {
		o.kinds = []string{"parse", "parse", "parse", "parse", "tokenize", "pull", "pull", "scan", "settokens"}
	}
	if len(o.calls) == 0 {
		o.calls = []string{"statement", "sql", "sql", "file+cmap", "file", "expr", "type", "multi"}
	}
	op := &Op{Kind: o.kinds[r.Intn(len(o.kinds))], Dialect: pickDialect(r)}
	var t *text
	switch op.Kind {
	case "parse", "settokens":
		c := o.calls[r.Intn(len(o.calls))]
		switch c {
		case "expr":
			t = genExprText(r, op.Dialect)
			op.Calls = []string{"expr"}
		case "type":
			t = genTypeText(r, op.Dialect)
			op.Calls = []string{"type"}
		case "multi":
			n := r.Range(2, 5)
			for i := 0; i < n; i++ {
				op.Calls = append(op.Calls, r.Pick("statement", "statement", "sql", "file", "cmap", "expr", "type"))
				if op.Kind == "settokens" && r.P(30) {
					op.Calls = append(op.Calls, "more")
				}
			}
			op.Comments = r.P(50)
		case "file+cmap":
			op.Calls = []string{"file", "cmap"}
			op.Comments = true
		case "file":
			op.Calls = []string{"file"}
			op.Comments = r.P(80)
		default:
			op.Calls = []string{c}
			op.Comments = r.P(30)
		}
	default:
		op.NoComm = r.P(20)
		op.WithOpts = r.P(30)
	}
	op.Shared = r.P(30)
	op.Odd = r.P(15)
	if t == nil {
		t = genScript(r, op.Dialect, r.Range(1, o.maxStmt), r.P(60))
	}
	if r.P(o.pad) {
		padTo(r, t)
	}
	s := t.String()
	if r.P(o.corrupt) {
		s = corrupt(r, s)
	}
	if o.corrupt > 0 && r.P(3) {
		s, _, _ = insertForeign(r, s)
	}
	if r.P(2) && (len(op.Calls) == 0 || op.Calls[0] != "expr" && op.Calls[0] != "type") {
		// deeply nested
		s = deepText(r)
	}
	if r.P(2) {
		s = "\uFEFF" + s
	}
	if len(s) > 20 && r.P(o.huge) {
		// longer than any buffer
		for n := r.Pick2(10_000, 33_000, 66_000, 140_000); len(s) < n; {
			s += "\n" + s
		}
	}
	op.SQL = Bytes(s)
	return op
}

// genTreeOp makes an operation on a tree: render string walk inspect apply cmap positions.
func genTreeOp(r *Rand, kinds ...string) *Op {
	if len(kinds) == 0 {
		kinds = []string{"render", "render", "string", "walk", "inspect", "apply", "cmap", "positions"}
	}
	op := &Op{Kind: kinds[r.Intn(len(kinds))], Dialect: pickDialect(r)}
	op.SQL = Bytes(genScript(r, op.Dialect, r.Range(1, 3), r.P(97)).String())
	if r.P(4) {
		op.SQL = Bytes(longTree(r, op.Dialect))
	}
	if r.P(40) {
		op.Node = r.Range(1, 400)
	}
	op.Odd = r.P(15)
	if r.P(10) {
		op.Edits = r.Next() | 1
	}
	if op.Kind == "render" {
		op.Write = &WritePlan{Kind: r.Pick("plain", "string", "full"), FailAt: -1}
	}
	if op.Kind == "apply" {
		op.NoPre = r.P(15)
		op.NoPost = !op.NoPre && r.P(15)
	}
	return op
}

// genReadPlan makes a way of splitting n bytes over reads.
func genReadPlan(r *Rand, n int) *ReadPlan {
	p := &ReadPlan{FailAt: -1, StallAt: -1}
	switch r.Intn(6) {
	case 0: // byte by byte
		p.Rest = 1
	case 1: // small pieces
		p.Rest = r.Range(2, 7)
	case 2, 3: // random pieces, some of them empty
		k := r.Range(1, 60)
		top := r.Pick2(2, 5, 20, 100, 1000, magicLen(r, 2000))
		for i := 0; i < k; i++ {
			if r.P(15) {
				p.Chunks = append(p.Chunks, 0)
				for r.P(30) {
					p.Chunks = append(p.Chunks, 0)
				}
			} else {
				p.Chunks = append(p.Chunks, r.Range(1, top))
			}
		}
		p.Rest = r.Pick2(0, 1, 3, 50)
	case 4: // one split
		p.Chunks = []int{r.Range(1, n+1)}
		if r.P(30) {
			// nothing for a long while
			for k := r.Pick2(10, 17, 33, 101, 130, 300, magicLen(r, 2000)); k > 0; k-- {
				p.Chunks = append(p.Chunks, 0)
			}
			p.Rest = r.Pick2(0, 1, 50)
		}
	case 5: // everything
	}
	p.With = r.P(50)
	p.Scribble = r.P(40)
	return p
}

// genAnyOp is an operation of any kind.
func genAnyOp(r *Rand, o srcOpt) *Op {
	if r.P(50) {
		op := genOp(r, o)
		if r.P(40) {
			op.Read = genReadPlan(r, len(op.SQL))
		}
		return op
	}
	return genTreeOp(r)
}

// addFaults gives an operation some failure of the caller side.
func addFaults(r *Rand, op *Op) {
	switch op.Kind {
	case "parse", "settokens", "tokenize", "pull", "scan":
		switch r.Intn(5) {
		case 0, 1:
			if op.Read == nil {
				op.Read = genReadPlan(r, len(op.SQL))
			}
			op.Read.FailAt = r.Intn(len(op.SQL) + 1)
			op.Read.Err = errKinds[r.Intn(len(errKinds))]
		case 2:
			op.Acts = append(op.Acts, Act{On: "read", At: r.Intn(3), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]})
		case 3:
			op.Hook = true
			op.Acts = append(op.Acts, Act{On: "dialect", At: r.Intn(200), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]})
		case 4:
			op.Kill = int64(r.Range(1, r.Pick2(5, 50, 400)))
			op.Hook = op.Hook || r.P(70)
			if !op.Hook && op.Read == nil {
				op.Read = genReadPlan(r, len(op.SQL))
			}
		}
	case "render":
		switch r.Intn(3) {
		case 0:
			op.Write.FailAt = r.Intn(200)
			op.Write.Accept = r.Pick("short", "none", "full")
			op.Write.Err = errKinds[r.Intn(len(errKinds))]
		case 1:
			op.Acts = append(op.Acts, Act{On: "write", At: r.Intn(60), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]})
		case 2:
			op.Kill = int64(r.Range(1, r.Pick2(5, 30, 100)))
		}
	case "walk", "inspect":
		switch r.Intn(3) {
		case 0:
			op.Acts = append(op.Acts, Act{On: "visit", At: r.Intn(60), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]})
		case 1:
			op.Acts = append(op.Acts, Act{On: "visit", At: r.Intn(60), Do: "stop"})
		case 2:
			op.Kill = int64(r.Range(1, r.Pick2(5, 30, 100)))
		}
	case "apply":
		on := "pre"
		if op.NoPre || !op.NoPost && r.P(50) {
			on = "post"
		}
		switch r.Intn(4) {
		case 0:
			op.Acts = append(op.Acts, Act{On: on, At: r.Intn(60), Do: r.Pick("panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]})
		case 1:
			op.Acts = append(op.Acts, Act{On: on, At: r.Intn(60), Do: "stop"})
		case 2:
			op.Kill = int64(r.Range(1, r.Pick2(5, 30, 100)))
		case 3:
			op.Acts = append(op.Acts, Act{On: on, At: r.Intn(60), Do: "edit", Val: genEdits(r)})
		}
	default:
		op.Kill = int64(r.Range(1, r.Pick2(5, 30, 100)))
	}
}

func genEdits(r *Rand) string {
	var l []string
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		l = append(l, r.Pick("replace", "before", "after", "delete"))
	}
	return strings.Join(l, ",")
}

func sampleOf(p *Plan) string {
	b, _ := json.Marshal(p)
	return short(string(b), 600)
}

func sortedKeys(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = sqlast.Walk
var _ sqltoken.Kind
