package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
)

func init() {
	scenarios["C11"] = &scenario{gen: genC11, exec: execC11, rule: "one operation repeated under different seeds of every random choice of the runtime (map order, hash seeds) and with collections forced at random steps; non-trivial if the result holds a tree, comments or tokens"}
	scenarios["C12"] = &scenario{gen: genC12, exec: execC12, processes: true, rule: "a history of random sessions, many of them failing, panicking, exiting or abandoned, run in a fresh process in one order and in another fresh process in the reverse order; every session counts as an evaluation of its own; non-trivial if it was not skipped"}
	scenarios["C17"] = &scenario{gen: genC17, exec: execC17, rule: "an operation whose source, sink, dialect, visitor or callback runs other operations inside, to depth 3; non-trivial if a nested operation ran"}
	scenarios["C18"] = &scenario{gen: genC18, exec: execC18, rule: "operations of any kind with any failure while standard output, standard error and the goroutines of the process are watched; non-trivial if a fault fired or the text was damaged"}
	scenarios["C19"] = &scenario{gen: genC19, exec: execC19, rule: "results of one session overwritten completely by their owner, before, between and during other sessions; non-trivial if something was overwritten and a result compared"}
	scenarios["C21"] = &scenario{gen: genC21, exec: execC21, rule: "a panic (of 10 kinds of values) or goroutine exit in a random invocation of the caller's code, also through nested operations; non-trivial if it was thrown"}
}

// C11

func genC11(r *Rand) *Plan {
	var op *Op
	if r.P(75) {
		op = genOp(r, srcOpt{corrupt: 25, pad: 5, maxStmt: 4, calls: []string{"file+cmap", "file+cmap", "file", "sql", "statement", "multi", "expr"}, kinds: []string{"parse", "parse", "parse", "parse", "settokens", "pull", "tokenize"}})
	} else {
		op = genTreeOp(r)
	}
	p := &Plan{Kind: "seeds", Ops: []*Op{op}}
	n := r.Range(2, 4)
	for i := 0; i < n; i++ {
		p.Rands = append(p.Rands, r.Next()|1)
	}
	if r.P(25) {
		for i := r.Range(1, 5); i > 0; i-- {
			p.GC = append(p.GC, int64(r.Intn(3000)))
		}
	}
	if r.P(1) && r.P(50) {
		p.Kind = "process"
	}
	return p
}

func execC11(p *Plan) *Verdict {
	op := p.Ops[0]
	golden := alone(op)
	if golden.Class == "hang" || golden.Class == "skip" {
		return skip("reference run " + golden.Class)
	}
	if p.Kind == "process" {
		want := golden.text()
		for _, seed := range p.Rands {
			l, err := childOutcomes([]*Op{op}, seed, nil)
			if err != nil {
				return skip("child process: " + err.Error())
			}
			if l[0] != want {
				return viol("process", "another process, with other seeds: %s", diffAt(want, l[0]))
			}
		}
		probe("other-process")
		return pass(true, op.SQL, op.Kind, op.Dialect)
	}
	saved := simRandState
	defer func() { simRandState = saved }()
	for i, seed := range p.Rands {
		simRandState = seed
		got := aloneLimit(op, defaultLimit, func(r *opRun) { r.gc = gcSteps(p.GC, i) })
		if d := differ(golden, got); d != "" {
			return viol("seeds", "with other seeds or collections: %s", d)
		}
	}
	if len(p.GC) > 0 {
		// what is left of the sessions is collected, what they gave and took is not
		for i := 0; i < 2; i++ {
			collect()
		}
		if d := golden.Res.later(); d != "" {
			return viol("collected", "after a collection: %s", d)
		}
		stats.Fired["gc"] += int64(len(p.GC) * len(p.Rands))
	}
	stats.Fired["other-seeds"] += int64(len(p.Rands))
	return pass(len(golden.Res.Objs)+len(golden.Res.Toks)+len(golden.Res.Out)+len(golden.Res.Events) > 0, op.SQL, op.Kind, op.Dialect, op.Calls)
}

// collect runs the garbage collector, finalizers and cleanups.
func collect() {
	runtime.GC()
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
}

func gcSteps(l []int64, shift int) []int64 {
	var o []int64
	for _, g := range l {
		o = append(o, g+int64(shift)*37)
	}
	for i := range o {
		for j := i + 1; j < len(o); j++ {
			if o[j] < o[i] {
				o[i], o[j] = o[j], o[i]
			}
		}
	}
	return o
}

// childOutcomes runs operations one after the other in a fresh process.
func childOutcomes(ops []*Op, seed uint64, gc []int, env ...string) ([]string, error) {
	f, err := os.CreateTemp(scratchDir(), "plan")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(&Plan{Prop: "outcomes", Ops: ops, Rand: seed, L: gc})
	f.Write(b)
	f.Close()
	cmd := exec.Command(selfPath(), "outcomes", f.Name())
	cmd.Env = append(append(os.Environ(), fmt.Sprintf("SIM_RAND=%d", seed)), env...)
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var l []string
	if err := json.Unmarshal(out, &l); err != nil {
		return nil, err
	}
	if len(l) != len(ops) {
		return nil, fmt.Errorf("%d outcomes of %d", len(l), len(ops))
	}
	return l, nil
}

// outcomesMain is the fresh process.
func outcomesMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		fatalf("%v", err)
	}
	gc := map[int]bool{}
	for _, i := range p.L {
		gc[i] = true
	}
	var l []string
	freshOptions()
	for i, op := range p.Ops {
		if gc[i] {
			runtime.GC()
		}
		simRandState = p.Rand | 1
		o := alone(op)
		t := o.text()
		for n := 1; n < op.Repeat && o.Class != "hang" && o.Class != "killed"; n++ {
			if o = alone(op); n == op.Repeat-1 && o.Class != "killed" && o.text() != t {
				t = repeatDiffers + diffAt(t, o.text())
			}
		}
		simRandState = 0
		if o.Class == "killed" {
			t = "killed"
		}
		l = append(l, t)
	}
	out, _ := json.Marshal(l)
	os.Stdout.Write(out)
}

// C12

const repeatDiffers = "at last it differs: "

func genC12(r *Rand) *Plan {
	p := &Plan{Kind: "history"}
	n := r.Range(20, 50)
	for i := 0; i < n; i++ {
		if i > 0 && r.P(25) {
			// an earlier session again, or a variation of it
			c := cloneOp(p.Ops[r.Intn(i)])
			if r.P(50) {
				c.Acts, c.Kill = nil, 0
				if c.Write != nil {
					c.Write.FailAt = -1
				}
				if c.Read != nil {
					c.Read.FailAt = -1
				}
			}
			if r.P(30) && !usesTree(c.Kind) {
				c.Dialect = pickDialect(r)
			}
			if r.P(20) && !usesTree(c.Kind) {
				c.SQL = Bytes(swapCase(r, string(c.SQL)))
			}
			p.Ops = append(p.Ops, c)
			continue
		}
		op := genAnyOp(r, srcOpt{corrupt: 25, pad: 5, maxStmt: 2})
		if op.Kind == "pull" && r.P(40) {
			op.MaxPull = r.Range(1, 30) // abandoned
		}
		if r.P(40) {
			addFaults(r, op)
		} else if op.Kind == "apply" && r.P(60) {
			on := "pre"
			if op.NoPre {
				on = "post"
			}
			op.Acts = append(op.Acts, Act{On: on, At: r.Intn(30), Do: "edit", Val: genEdits(r)})
		}
		p.Ops = append(p.Ops, op)
	}
	if r.P(20) {
		// one with very many different words
		p.Ops[r.Intn(n)] = vocabulary(r)
	}
	for i := r.Range(0, 3); i > 0; i-- {
		p.L = append(p.L, r.Intn(n))
	}
	if r.P(15) {
		// a few sessions go on and on
		for i := r.Range(1, 5); i > 0; i-- {
			op := p.Ops[r.Intn(n)]
			if !usesTree(op.Kind) && r.P(60) && len(op.SQL) > 0 {
				// cut off somewhere
				op.SQL = op.SQL[:r.Intn(len(op.SQL))]
			}
			if len(op.SQL) < 400 {
				op.Repeat = r.Pick2(30, 300, 3000, magicLen(r, 5000))
			}
		}
	}
	return p
}

// vocabulary is a session in which very many different words occur.
func vocabulary(r *Rand) *Op {
	op := &Op{Kind: r.Pick("parse", "parse", "tokenize", "pull"), Dialect: pickDialect(r), Calls: []string{r.Pick("sql", "file")}, Comments: r.P(50)}
	n := r.Pick2(100, 1000, 5000, magicLen(r, 20000)+3)
	form := r.Pick("w%d", "w%d", "W%dx", "'s%d'", "\"q%d\"", "%d", "t.w%d", "f%d(1)", "1.%d", "1 -- c%d\n", "mixed")
	forms := []string{"w%d", "'s%d'", "\"q%d\"", "%d", "t.w%d", "f%d()", "CAST(a AS VARCHAR(%d))", "N'n%d'"}
	var b strings.Builder
	b.WriteString("SELECT ")
	at := r.Intn(1000)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		f := form
		if f == "mixed" {
			f = forms[r.Intn(len(forms))]
		}
		fmt.Fprintf(&b, f, at+i)
	}
	b.WriteString(" FROM t;")
	op.SQL = Bytes(b.String())
	return op
}

func swapCase(r *Rand, s string) string {
	if r.P(50) {
		return strings.ToLower(s)
	}
	return strings.ToUpper(s)
}

func execC12(p *Plan) *Verdict {
	seed := p.Rand | 1
	a, err := childOutcomes(p.Ops, seed, p.L)
	if err != nil {
		return viol("crash", "a process that ran the history died: %v", err)
	}
	n := len(p.Ops)
	rev := make([]*Op, n)
	for i, op := range p.Ops {
		rev[n-1-i] = op
	}
	b, err := childOutcomes(rev, seed, nil)
	if err != nil {
		return viol("crash", "a process that ran the history in reverse died: %v", err)
	}
	ran := 0
	for i := range a {
		x, y := a[i], b[n-1-i]
		if x == "killed" || y == "killed" {
			continue
		}
		for _, z := range []string{x, y} {
			if strings.HasPrefix(z, repeatDiffers) {
				return viol("repeat", "session %d (%s of %q), %d times in a row: %s", i, p.Ops[i].Kind, short(string(p.Ops[i].SQL), 100), p.Ops[i].Repeat, z)
			}
		}
		if x != y {
			fresh, err := childOutcomes(p.Ops[i:i+1], seed, nil)
			if err != nil {
				return skip("child process: " + err.Error())
			}
			bad, after := x, fmt.Sprintf("%d earlier sessions", i)
			if x == fresh[0] {
				bad, after = y, fmt.Sprintf("%d other sessions", n-1-i)
			}
			return viol("residue", "session %d (%s of %q) gives something else after %s than in a fresh process: %s", i, p.Ops[i].Kind, short(string(p.Ops[i].SQL), 100), after, diffAt(fresh[0], bad))
		}
		if !strings.HasPrefix(x, "class skip") && x != "killed" {
			ran++
			if stats.sigs != nil {
				stats.sigs[hashString(x)] = struct{}{}
			}
		}
	}
	stats.Evals += int64(n)
	stats.NonTrivial += int64(ran)
	v := pass(true, n, a)
	return v
}

// C17

func nestActs(r *Rand, op *Op, depth int) {
	var ons []string
	top := 10
	switch op.Kind {
	case "parse", "tokenize", "pull", "scan", "settokens":
		ons = []string{"read", "dialect"}
		top = 60
	case "render":
		ons = []string{"write"}
	case "walk", "inspect":
		ons = []string{"visit"}
	case "apply":
		if !op.NoPre {
			ons = append(ons, "pre")
		}
		if !op.NoPost {
			ons = append(ons, "post")
		}
	}
	if len(ons) == 0 {
		return
	}
	for i := r.Range(1, 2); i > 0; i-- {
		on := ons[r.Intn(len(ons))]
		if on == "dialect" {
			op.Hook = true
		}
		at := r.Intn(top)
		if on == "read" {
			at = r.Intn(4)
		}
		inner := genAnyOp(r, srcOpt{corrupt: 10, maxStmt: 1})
		if r.P(30) {
			// the very same thing again, in the middle of itself
			inner = cloneOp(op)
			inner.Acts = nil
		}
		if r.P(25) {
			addFaults(r, inner)
			inner.Kill = 0
			var keep []Act
			for _, a := range inner.Acts {
				if a.Do != "goexit" {
					keep = append(keep, a)
				}
			}
			inner.Acts = keep
		}
		if depth < 3 && r.P(35) {
			nestActs(r, inner, depth+1)
		}
		op.Acts = append(op.Acts, Act{On: on, At: at, Do: "nest", Op: inner})
	}
}

func genC17(r *Rand) *Plan {
	op := genAnyOp(r, srcOpt{corrupt: 10, maxStmt: 2, pad: 5})
	for op.Kind == "cmap" || op.Kind == "positions" || op.Kind == "string" {
		op = genAnyOp(r, srcOpt{corrupt: 10, maxStmt: 2})
	}
	nestActs(r, op, 1)
	if r.P(4) {
		// very deep
		r.small = 97
		kind := r.Pick("parse", "render", "walk", "apply", "tokens", "any")
		for i := magicLen(r, r.Pick2(12, 40, 150)); i > 0; i-- {
			outer := genFocused(r, kind)
			for !hasCallbacks(outer) {
				outer = genFocused(r, kind)
			}
			on := "read"
			switch outer.Kind {
			case "render":
				on = "write"
			case "walk", "inspect":
				on = "visit"
			case "apply":
				on = "pre"
				if outer.NoPre {
					on = "post"
				}
			default:
				if r.P(50) {
					on = "dialect"
					outer.Hook = true
				}
			}
			outer.Edits, outer.Node = 0, 0
			outer.Acts = append(outer.Acts, Act{On: on, At: r.Pick2(0, 0, 0, 1), Do: "nest", Op: op})
			op = outer
		}
	}
	return &Plan{Kind: "nest", Ops: []*Op{op}}
}

func withoutNests(op *Op) *Op {
	c := cloneOp(op)
	c.Acts = nil
	for _, a := range op.Acts {
		if a.Do != "nest" {
			c.Acts = append(c.Acts, a)
		}
	}
	return c
}

func execC17(p *Plan) *Verdict {
	op := p.Ops[0]
	// the reference comes second: what the library sets up once must be set up here
	got := aloneLimit(op, defaultLimit*int64(1+2*min(nestedOps(op), 10)), nil)
	if got.Class == "blocked" {
		return viol("blocked", "%s blocks when its caller code uses the library", op.Kind)
	}
	golden := alone(withoutNests(op))
	if golden.Class == "skip" || golden.Class == "hang" {
		return skip("reference run " + golden.Class)
	}
	if d := differ(golden, got); d != "" {
		return viol("outer", "%s gives something else when its caller code uses the library meanwhile (%s): %s", op.Kind, describe(got), d)
	}
	n := 0
	if v := checkNested(got.Env, &n, 1); v != nil {
		return v
	}
	return pass(n > 0, op.Kind, op.SQL, op.Node, brief(op.Acts))
}

// nestedOps counts the operations in the callbacks of op, at all levels.
func nestedOps(op *Op) int {
	n := 0
	for _, a := range op.Acts {
		if a.Op != nil {
			n += 1 + nestedOps(a.Op)
		}
	}
	return n
}

func checkNested(e *env, count *int, depth int) *Verdict {
	for _, nr := range e.nested {
		ref := alone(withoutNests(nr.op))
		if ref.Class == "skip" || ref.Class == "hang" {
			continue
		}
		*count++
		probe(fmt.Sprintf("nested-depth-%d", depth))
		if d := differ(ref, nr.out); d != "" {
			return viol("inner", "%s inside a callback gives something else than alone (%s, alone %s): %s", nr.op.Kind, describe(nr.out), describe(ref), d)
		}
		if nr.out.Env != nil {
			if v := checkNested(nr.out.Env, count, depth+1); v != nil {
				return v
			}
		}
	}
	return nil
}

// C18

func genC18(r *Rand) *Plan {
	p := &Plan{Kind: "watch"}
	n := r.Pick2(1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		op := genAnyOp(r, srcOpt{corrupt: 50, pad: 5, maxStmt: 2})
		if r.P(60) {
			addFaults(r, op)
		}
		p.Ops = append(p.Ops, op)
	}
	if r.P(8) {
		p.Ops[0].SQL = Bytes(deepText(r))
	}
	p.Sched = genDecisions(r, n)
	if r.P(30) {
		// in other surroundings
		m := 0
		for k := r.Range(1, 3); k > 0; k-- {
			m |= r.Pick2(amJump, amFrozen, amEnv, amEnv, amZone, amNumbers, amArgs, amIdentity)
		}
		p.L = []int{m}
		p.Rands = []uint64{r.Next() | 1}
	}
	return p
}

var watchFile *os.File

// watchOutput points the standard output and standard error of the process at
// a file, for good.
func watchOutput() {
	if watchFile == nil {
		dir := filepath.Join(scratchDir(), fmt.Sprintf("temp-%d", os.Getpid()))
		if os.Mkdir(dir, 0o700) == nil {
			os.Setenv("TMPDIR", dir)
			os.Chdir(dir)
		}
	}
	if watchFile != nil {
		return
	}
	f, err := os.CreateTemp(scratchDir(), "watch")
	if err != nil {
		fatalf("%v", err)
	}
	os.Remove(f.Name())
	watchFile = f
	syscall.Dup3(int(f.Fd()), 1, 0)
	syscall.Dup3(int(f.Fd()), 2, 0)
}

func watched() int64 {
	fi, err := watchFile.Stat()
	if err != nil {
		fatalf("%v", err)
	}
	return fi.Size()
}

func goroutines() int {
	n := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		runtime.Gosched()
		n = runtime.NumGoroutine()
	}
	return n
}

// processState describes what all code of the process shares.
func processState() string {
	dir, _ := os.Getwd()
	var fds []string
	if d, err := os.Open("/proc/self/fd"); err == nil {
		fds, _ = d.Readdirnames(-1)
		d.Close()
	}
	tables := ""
	for _, m := range []map[string]struct{}{dialect.Keywords, dialect.ReservedForTableAlias, dialect.ReservedForColumnAlias} {
		words := uint64(0)
		for k := range m {
			words += hashString(k)
		}
		tables += fmt.Sprintf(" %d:%x", len(m), words)
	}
	tmp, _ := os.ReadDir(os.TempDir())
	here, _ := os.ReadDir(".")
	stack := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(stack)
	mask := syscall.Umask(0o22)
	syscall.Umask(mask)
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	sample := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}}
	metrics.Read(sample)
	signals := ""
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "SigIgn:") || strings.HasPrefix(l, "SigCgt:") {
				signals += " " + strings.TrimSpace(l[7:])
			}
		}
	}
	return fmt.Sprintf("signals=%s seeded=%v slog=%p log=%p local=%p std=%p %p %p ", signals, rand.SimSeeded(), slog.Default(), log.Writer(), time.Local, os.Stdin, os.Stdout, os.Stderr) + fmt.Sprintf("%s files=%d env=%q log=%d %q %T zone=%s procs=%d keywords=%s eof=%v %v args=%d tempfiles=%d files=%d std=%s %s %s gc=%d %d profile=%d %d stack=%d umask=%o files<%d args=%q", dir, len(fds), os.Environ(), log.Flags(), log.Prefix(), log.Writer(), time.Local, runtime.GOMAXPROCS(0), tables, xsqlparser.EOF, io.EOF, len(os.Args), len(tmp), len(here), os.Stdin.Name(), os.Stdout.Name(), os.Stderr.Name(), sample[0].Value.Uint64(), sample[1].Value.Uint64(), runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1), stack, mask, lim.Cur, os.Args)
}

// announced tells whether what was written is the log line of a panic that an
// edited tree has led to, and nothing else.
func announced(tg *together, from, n int64) bool {
	b := make([]byte, n)
	k, _ := watchFile.ReadAt(b, from)
	text := string(b[:k])
	for _, r := range tg.runs {
		if r.op.Edits == 0 || !r.task.panicked {
			continue
		}
		v, ok := r.task.panicVal.(string)
		if v = strings.TrimRight(v, "\n"); ok && v != "" && r.e.raised == "" {
			stamp := len("2006/01/02 15:04:05 ")
			if i := strings.Index(text, v+"\n"); i >= stamp {
				text = text[:i-stamp] + text[i+len(v)+1:]
			}
		}
	}
	return text == ""
}

func execC18(p *Plan) *Verdict {
	watchOutput()
	was := watched()
	gor := runtime.NumGoroutine()
	state := processState()
	undo := func() {}
	if len(p.L) > 0 && len(p.Rands) > 0 {
		undo = setAmbient(p.L[0], p.Rands[0])
	}
	tg, err := runTogether(p.Ops, p.Sched, defaultLimit, nil)
	undo()
	if n := watched() - was; n > 0 && !announced(tg, was, n) {
		b := make([]byte, 300)
		k, _ := watchFile.ReadAt(b, was)
		return viol("output", "%d bytes were written to the standard output or error: %q", n, b[:k])
	}
	if err != nil {
		return skip("no tree")
	}
	if tg.sched.deadlock {
		return viol("blocked", "the sessions block: %v", tg.sched.blocked)
	}
	for _, t := range tg.sched.tasks {
		if t.foreign && t.state != tsDone {
			probe("library-goroutine")
		}
	}
	if n := runtime.NumGoroutine(); n > gor {
		if n = goroutines(); n > gor {
			return viol("goroutine", "%d goroutine(s) left behind by %s", n-gor, p.Ops[0].Kind)
		}
	}
	if now := processState(); now != state {
		return viol("state", "the state of the process has changed: %s", diffAt(state, now))
	}
	fired := false
	for _, r := range tg.runs {
		fired = fired || len(r.e.fired) > 0 || r.task.killed || r.res.Err != nil
	}
	return pass(fired, p.Ops[0].Kind, p.Ops[0].SQL, brief(p.Ops[0].Acts))
}

// C19

func genC19(r *Rand) *Plan {
	kinds := []string{"parse", "parse", "parse", "settokens"}
	calls := []string{"file+cmap", "file+cmap", "file", "sql", "statement", "expr", "type"}
	a := genOp(r, srcOpt{kinds: kinds, calls: calls, maxStmt: 2})
	if r.P(30) {
		// a session of several calls, each with a result of its own
		a = genOp(r, srcOpt{kinds: kinds, calls: []string{"statement+sql", "statement+statement+statement", "statement+file+cmap", "expr+sql", "type+statement", "statement+cmap+sql"}, maxStmt: 4})
		if r.P(30) {
			// tokens given in parts
			a.Kind = "settokens"
			a.Calls = strings.Split(r.Pick("sql+more+sql", "statement+more+sql", "sql+more+statement", "file+cmap+more+file+cmap", "sql+more+sql+more+sql", "expr+more+sql"), "+")
		} else if r.P(60) {
			// the same kind of statement over and over
			one := strings.TrimRight(genScript(r, a.Dialect, 1, false).String(), "; \n")
			a.SQL = Bytes(one + "\n;" + one + "\n;\n" + one + "\n;")
			a.Calls = strings.Split(r.Pick("statement+sql", "statement+statement+statement", "statement+file"), "+")
		}
	}
	b := genOp(r, srcOpt{kinds: kinds, calls: calls, maxStmt: 2})
	if r.P(60) {
		b = cloneOp(a)
		if r.P(30) {
			b.Comments = !b.Comments
		}
	}
	p := &Plan{Kind: r.Pick("sequence", "sequence", "concurrent"), Ops: []*Op{a, b}, Sched: genDecisions(r, 2)}
	return p
}

func execC19(p *Plan) *Verdict {
	a, b := p.Ops[0], p.Ops[1]
	golden := alone(a)
	if golden.Class != "ok" || len(golden.Res.Objs) == 0 {
		return skip("reference run " + golden.Class)
	}
	if d := golden.Res.later(); d != "" {
		return viol("own-later", "%s", d)
	}
	goldenText := golden.text()
	goldenObjs := dumpObjs(golden)
	n := 0
	if p.Kind == "concurrent" {
		other := alone(b)
		if other.Class != "ok" {
			return skip("other run " + other.Class)
		}
		ra := newRun(a)
		s := &Sched{decisions: p.Sched}
		ra.task = s.AddTask("session", defaultLimit, ra.body)
		s.AddTask("owner", 0, func() { n = scribbleObjs(other.Res.Objs, true) })
		s.Run()
		stats.steps += s.total
		stats.Switches += int64(s.switches)
		got := ra.outcome()
		if t := got.text(); t != goldenText {
			return viol("concurrent", "a session differs while the owner of other results overwrites them: %s", diffAt(goldenText, t))
		}
	} else {
		other := alone(b)
		if other.Class != "ok" {
			return skip("other run " + other.Class)
		}
		if d := dumpObjs(golden); d != goldenObjs {
			return viol("later-session", "results changed when another session ran: %s", diffAt(goldenObjs, d))
		}
		n = scribbleObjs(other.Res.Objs, false)
	}
	if d := dumpObjs(golden); d != goldenObjs {
		return viol("shared", "results changed when the owner of other results overwrote them: %s", diffAt(goldenObjs, d))
	}
	again := alone(a)
	if t := again.text(); t != goldenText {
		return viol("later-differs", "after the results of another session were overwritten, a session gives something else: %s", diffAt(goldenText, t))
	}
	if d := dumpObjs(golden); d != goldenObjs {
		return viol("later-session", "results changed when another session ran: %s", diffAt(goldenObjs, d))
	}
	stats.Fired["overwrite"] += int64(n)
	return pass(n > 0, p.Kind, a.SQL, b.SQL)
}

func dumpObjs(o *Outcome) string {
	var b strings.Builder
	for _, v := range o.Res.Objs {
		b.WriteString(dump(v))
		b.WriteByte('\n')
	}
	return b.String()
}

// scribbleObjs overwrites everything that can be reached from the objects.
func scribbleObjs(objs []interface{}, yield bool) int {
	var structs []reflect.Value
	var slices []reflect.Value
	var maps []reflect.Value
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if d > 2000 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), d+1)
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if v.Elem().Type().Size() > 0 {
				seen[v.Pointer()] = true
			}
			structs = append(structs, v.Elem())
			rec(v.Elem(), d+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					rec(v.Field(i), d+1)
				}
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			slices = append(slices, v.Slice(0, v.Cap()))
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), d+1)
			}
		case reflect.Map:
			maps = append(maps, v)
			for _, k := range v.MapKeys() {
				rec(k, d+1)
				rec(v.MapIndex(k), d+1)
			}
		}
	}
	for _, o := range objs {
		rec(reflect.ValueOf(o), 0)
	}
	n := 0
	for _, s := range structs {
		if yield {
			Yield()
		}
		n += scribbleValue(s)
	}
	for _, s := range slices {
		if yield {
			Yield()
		}
		for i := 0; i < s.Len(); i++ {
			e := s.Index(i)
			switch e.Kind() {
			case reflect.Ptr, reflect.Interface:
				e.Set(reflect.Zero(e.Type()))
				n++
			default:
				n += scribbleValue(e)
			}
		}
	}
	for _, m := range maps {
		for _, k := range m.MapKeys() {
			m.SetMapIndex(k, reflect.Value{})
			n++
		}
	}
	return n
}

func scribbleValue(v reflect.Value) int {
	if !v.CanSet() {
		return 0
	}
	n := 0
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n += scribbleValue(v.Field(i))
			}
		}
	case reflect.String:
		v.SetString("OVERWRITTEN")
		n++
	case reflect.Bool:
		v.SetBool(!v.Bool())
		n++
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(77)
		n++
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
		n++
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7.7)
		n++
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			v.Set(reflect.Zero(v.Type()))
			n++
		}
	}
	return n
}

// C21

func genC21(r *Rand) *Plan {
	op := genAnyOp(r, srcOpt{corrupt: 10, pad: 10, maxStmt: 2})
	for op.Kind == "cmap" || op.Kind == "positions" || op.Kind == "string" {
		op = genAnyOp(r, srcOpt{corrupt: 10, maxStmt: 2})
	}
	if usesTree(op.Kind) && op.Kind == "render" && r.P(30) {
		op.Built = r.Next() | 1
		op.SQL = ""
	}
	on := ""
	switch op.Kind {
	case "parse", "tokenize", "pull", "scan", "settokens":
		on = r.Pick("read", "dialect")
		op.Hook = on == "dialect"
		if op.Read == nil {
			op.Read = genReadPlan(r, len(op.SQL))
		}
		op.Read.Wrap = wraps(r)
	case "render":
		on = "write"
	case "walk", "inspect":
		on = "visit"
	case "apply":
		on = "pre"
		if op.NoPre || !op.NoPost && r.P(50) {
			on = "post"
		}
	}
	if r.P(15) {
		op.Extra = 2
	}
	p := &Plan{Kind: "throw", Ops: []*Op{op}, S: Bytes(on), A: r.Intn(1 << 20)}
	a := Act{On: on, Do: r.Pick("panic", "panic", "panic", "goexit"), Val: panicKinds[r.Intn(len(panicKinds))]}
	if r.P(15) {
		// through a nested operation
		inner := genTreeOp(r, "walk", "inspect", "apply", "render")
		io := map[string]string{"walk": "visit", "inspect": "visit", "render": "write", "apply": "pre"}[inner.Kind]
		if inner.Kind == "apply" && inner.NoPre {
			io = "post"
		}
		inner.Acts = []Act{{On: io, At: r.Intn(8), Do: a.Do, Val: a.Val}}
		a.Do = "through"
		a.Op = inner
	}
	op.Acts = []Act{a}
	return p
}

func execC21(p *Plan) *Verdict {
	op := p.Ops[0]
	golden := alone(calmActs(op))
	if golden.Class != "ok" {
		return skip("reference run " + golden.Class)
	}
	on := string(p.S)
	n := golden.Env.counts[on]
	if n == 0 {
		return skip("no invocation")
	}
	c := cloneOp(op)
	if len(c.Acts) == 0 {
		return skip("no act")
	}
	c.Acts[0].At = p.A % n
	do := c.Acts[0].Do
	if do == "through" {
		inner := alone(c.Acts[0].Op)
		if inner.Class != "panic" && inner.Class != "goexit" || inner.Env.raised == "" {
			return skip("the nested operation does not throw")
		}
		do = inner.Class
	}
	got := alone(c)
	if got.Env.raised == "" {
		return viol("notreached", "invocation %d of %d of %s was not made, the %s ended with %s", c.Acts[0].At, n, on, op.Kind, describe(got))
	}
	if got.Class != do {
		return viol("class", "the caller's code (%s, invocation %d) ended with %s %v but %s ended with %s", on, c.Acts[0].At, do, got.Env.val, op.Kind, describe(got))
	}
	if do == "panic" && !samePanic(got.Panic, got.Env.val) {
		return viol("value", "the panic value %v (%T) of the caller's code (%s) came back as %v (%T)", got.Env.val, got.Env.val, on, got.Panic, got.Panic)
	}
	if got.Env.after > 0 {
		return viol("after", "the caller's code (%s) was invoked %d more times after it had thrown", got.Env.afterOn, got.Env.after)
	}
	probe("thrown-" + on)
	return pass(true, op.Kind, op.SQL, op.Node, on, c.Acts[0].At, do, c.Acts[0].Val)
}

func calmActs(op *Op) *Op {
	c := cloneOp(op)
	c.Acts = nil
	return c
}

var _ sqlast.Node
