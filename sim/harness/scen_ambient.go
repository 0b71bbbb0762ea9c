package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
	_ "unsafe"
)

func init() {
	scenarios["C25"] = &scenario{gen: genC25, exec: execC25, rule: "one operation repeated while the clock jumps or stands still, timers fire at once or never, environment variables, time zone, working directory, processor, goroutine and memory numbers differ, deep in the stack, during a panic, beside other goroutines, or in another process; non-trivial if the result holds a tree, comments, tokens, text or visits"}
}

//go:linkname simClock time.SimClock
var simClock func() (wall, mono int64)

//go:linkname simTimer time.SimTimer
var simTimer func(int64) int64

//go:linkname simEnv syscall.SimEnv
var simEnv func(string) (string, bool)

//go:linkname simID syscall.SimID
var simID func(string) int

//go:linkname simNumbers runtime.SimNumbers
var simNumbers func(what string) int

//go:linkname simFrame runtime.SimFrame
var simFrame func(name, file string) (string, string)

// the surroundings of a run
const (
	amJump = 1 << iota
	amFrozen
	amTimersNow
	amTimersNever
	amEnv
	amZone
	amNumbers
	amDeep
	amPanicking
	amDir
	amCrowd
	amArgs
	amIdentity
	amStd
	amCallers
	amProcess
)

const ambients = 15 // before amProcess

var ambientNames = []string{"clock-jumps", "clock-stopped", "timers-at-once", "timers-never", "environment", "time-zone", "numbers", "deep-stack", "while-panicking", "directory", "goroutines", "arguments", "identity", "standard-files", "callers", "process"}

func genC25(r *Rand) *Plan {
	p := &Plan{Kind: "surroundings"}
	op := genAnyOp(r, srcOpt{corrupt: 12, pad: 5, maxStmt: 3})
	if r.P(5) {
		op = &Op{Kind: "parse", Dialect: op.Dialect, Calls: []string{"sql"}, SQL: Bytes(deepText(r))}
	}
	if usesTree(op.Kind) && r.P(45) {
		op.Built = r.Next() | 1
		if op.Kind == "cmap" || op.Kind == "apply" {
			op.Built = 0
		}
	}
	if r.P(20) {
		addFaults(r, op)
	}
	p.Ops = []*Op{op}
	n := r.Range(2, 4)
	for i := 0; i < n; i++ {
		m := 0
		for k := r.Range(1, 4); k > 0; k-- {
			m |= 1 << r.Intn(ambients)
		}
		if r.P(35) {
			m |= amJump
		}
		p.L = append(p.L, m)
		p.Rands = append(p.Rands, r.Next()|1)
	}
	if r.P(1) {
		p.L = []int{amProcess}
		p.Rands = p.Rands[:1]
	}
	return p
}

// ambient sets the surroundings up and returns what runs a function in them.
func ambient(mask int, seed uint64) func(func()) {
	return func(body func()) {
		f := body
		if mask&amPanicking != 0 {
			f = whilePanicking(f)
		}
		if mask&amDeep != 0 {
			g := f
			n := NewRand(seed).Range(1000, 100000)
			f = func() { deepCall(n, g) }
		}
		undo := setAmbient(mask, seed)
		defer undo()
		f()
	}
}

func setAmbient(mask int, seed uint64) (undo func()) {
	r := NewRand(seed)
	local := time.Local
	var dir string
	quit := make(chan bool)
	if mask&amCrowd != 0 {
		for i := r.Range(1, 40); i > 0; i-- {
			go func() { <-quit }()
		}
	}
	if mask&amDir != 0 {
		dir, _ = os.Getwd()
		if err := os.Chdir(r.Pick("/", "/tmp", "/proc/self", scratchDir(), filepath.Dir(selfPath()), furnished(), furnished())); err != nil {
			dir = ""
		}
	}
	if mask&amZone != 0 {
		time.Local = time.FixedZone(r.Pick("X", "", "CEST", "+05"), r.Range(-14*3600, 14*3600))
	}
	if mask&(amJump|amFrozen) != 0 {
		wall, mono := int64(1700000000e9), int64(5e9)
		wall += int64(r.Intn(1000)) * 86400e9
		simClock = func() (int64, int64) {
			stats.Fired["clock-read"]++
			if mask&amFrozen == 0 {
				step := []int64{0, 1, 1000, 1e6, 1e9, 60e9, 3600e9, 365 * 86400e9}[r.Intn(8)]
				mono += step
				wall += step
				if r.P(30) {
					wall += int64(r.Range(-1000000, 1000000)) * 1e9
				}
			}
			return wall, mono
		}
	}
	if mask&(amTimersNow|amTimersNever) != 0 {
		simTimer = func(d int64) int64 {
			stats.Fired["timer"]++
			if mask&amTimersNow != 0 {
				return 0
			}
			return 1 << 62
		}
	}
	args, flags := os.Args, flag.CommandLine
	if mask&amArgs != 0 {
		os.Args = []string{r.Pick(args[0], "/tmp/go-build1/b001/x.test", "x.test", "a.exe", "", "/usr/sbin/d", magicWord(r), magicAll(r))}
		fs := flag.NewFlagSet(os.Args[0], flag.ContinueOnError)
		if r.P(70) {
			// a test binary
			fs.Bool("test.v", true, "")
			fs.String("test.run", "x", "")
			fs.Int("test.count", 1, "")
		}
		for i := r.Intn(4); i > 0; i-- {
			w := r.Pick("-v", "--debug", "--help", "x.sql", "-", "-test.v=true", "-test.run=.", magicFlag(r), magicFlag(r), magicFlag(r), magicWord(r))
			os.Args = append(os.Args, w)
			if w = strings.TrimLeft(w, "-"); w != "" && !strings.Contains(w, "=") && fs.Lookup(w) == nil {
				fs.String(w, "1", "")
			}
		}
		if len(os.Args) > 1 && r.P(30) {
			os.Args[1] = "--" + os.Args[1]
		}
		fs.Parse(nil)
		flag.CommandLine = fs
	}
	if mask&amIdentity != 0 {
		n := r.Pick2(0, 1, 2, 3, 17, 1000, 4194303, r.Intn(100000))
		simID = func(what string) int {
			stats.Fired["identity-read"]++
			return n
		}
	}
	in, out, errs := os.Stdin, os.Stdout, os.Stderr
	if mask&amStd != 0 {
		l := []*os.File{stdFile(0), stdFile(1), stdFile(2)}
		os.Stdin, os.Stdout, os.Stderr = l[r.Intn(3)], l[r.Intn(3)], l[r.Intn(3)]
	}
	if mask&amEnv != 0 {
		if r.P(30) {
			r.Next()
		}
		fix := r.Pick(magicWord(r), magicAll(r), furnished(), "1", "0", "true", "false", "off", "/", "debug", "-1", "999999999", "C", "tr_TR.UTF-8", "x=y", "")
		simEnv = func(string) (string, bool) {
			stats.Fired["env-read"]++
			return fix, fix != "" || seed&2 == 0
		}
	}
	if mask&amCallers != 0 {
		pkg := r.Pick("main", "testing", "net/http", "database/sql", "github.com/akito0107/xsqlparser", "github.com/akito0107/xsqlparser/sqlast_test", magicWord(r), magicAll(r))
		fn := r.Pick("main", "tRunner", "TestX", "init", "init.0", "BenchmarkX", "FuzzX", "(*conn).serve", "glob..func1", magicWord(r), magicAll(r))
		file := r.Pick("x_test.go", "main.go", "/root/go/pkg/mod/x@v1/x.go", "/usr/local/go/src/testing/testing.go", "_testmain.go", "<autogenerated>", "", magicWord(r), magicAll(r), magicAll(r), magicAll(r))
		simFrame = func(name, at string) (string, string) {
			if strings.HasPrefix(name, "github.com/akito0107/xsqlparser") || strings.HasPrefix(name, "runtime.") {
				// only those who call the library are others
				return name, at
			}
			stats.Fired["caller-read"]++
			return pkg + "." + fn, file
		}
	}
	if mask&amNumbers != 0 {
		n := r.Pick2(1, 2, 3, 8, 64, 1024, 100000)
		simNumbers = func(what string) int {
			stats.Fired["number-read"]++
			if what == "memory" {
				return n << 24
			}
			return n
		}
	}
	return func() {
		simClock, simTimer, simEnv, simNumbers, simID, simFrame = nil, nil, nil, nil, nil, nil
		os.Args, flag.CommandLine = args, flags
		os.Stdin, os.Stdout, os.Stderr = in, out, errs
		time.Local = local
		if dir != "" {
			os.Chdir(dir)
		}
		close(quit)
		if mask&amCrowd != 0 {
			runtime.Gosched()
		}
	}
}

var furnishedDir string

// furnished is a directory with a file of every name that the library mentions
// and some that programs often look for.
func furnished() string {
	if furnishedDir == "" {
		d := filepath.Join(scratchDir(), fmt.Sprintf("furnished-%d", os.Getpid()))
		os.Mkdir(d, 0o700)
		for _, w := range append([]string{".env", "config.json", "config.yaml", ".xsqlparser", "xsqlparser.conf", "go.mod", "debug"}, magicWords...) {
			if len(w) < 100 && !strings.Contains(w, "/") && w != "." && w != ".." {
				os.WriteFile(filepath.Join(d, w), []byte("1\n"), 0o600)
			}
		}
		furnishedDir = d
	}
	return furnishedDir
}

var stdFiles [3]*os.File

// stdFile is what a standard file of a process may be: nothing, a device, a file.
func stdFile(i int) *os.File {
	if stdFiles[i] == nil {
		name := [3]string{"/dev/null", "/dev/zero", filepath.Join(scratchDir(), fmt.Sprintf("std-%d", os.Getpid()))}[i]
		flags := os.O_RDWR
		if i == 2 {
			flags |= os.O_CREATE
		}
		f, err := os.OpenFile(name, flags, 0o600)
		if err != nil {
			f = os.Stdin
		}
		stdFiles[i] = f
	}
	return stdFiles[i]
}

//go:noinline
func deepCall(n int, f func()) int {
	if n == 0 {
		f()
		return 0
	}
	return deepCall(n-1, f) + 1
}

type panicking struct{ n int }

// whilePanicking runs body in a deferred call of a goroutine that panics.
func whilePanicking(body func()) func() {
	return func() {
		mine := &panicking{}
		defer func() {
			if v := recover(); v != nil && v != interface{}(mine) {
				panic(v)
			}
		}()
		defer body()
		panic(mine)
	}
}

func execC25(p *Plan) *Verdict {
	op := p.Ops[0]
	golden := alone(op)
	if golden.Class == "hang" || golden.Class == "skip" {
		return skip("reference run " + golden.Class)
	}
	for i, mask := range p.L {
		seed := p.Rands[i]
		for k, name := range ambientNames {
			if mask&(1<<k) != 0 {
				stats.Fired["with:"+name]++
			}
		}
		if mask == amProcess {
			if golden.Class == "killed" {
				return skip("killed")
			}
			l, err := childOutcomes([]*Op{op}, p.Rand, nil, "SIM_AMBIENT="+strconv.FormatUint(seed, 10), "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "GODEBUG=panicnil=0", "HOME=/", "DEBUG=1")
			if err != nil {
				return skip("child process: " + err.Error())
			}
			if want := golden.text(); l[0] != want {
				return viol("process", "in a process with another clock and environment: %s", diffAt(want, l[0]))
			}
			continue
		}
		got := aloneLimit(op, defaultLimit, func(r *opRun) { r.wrap = ambient(mask, seed) })
		if d := differ(golden, got); d != "" {
			return viol("surroundings", "%s: %s", maskNames(mask), d)
		}
	}
	res := golden.Res
	return pass(len(res.Objs)+len(res.Toks)+len(res.Out)+len(res.Events) > 0, op.SQL, op.Kind, op.Dialect, op.Calls, op.Built, p.L)
}

func maskNames(mask int) string {
	s := "with"
	for k, name := range ambientNames {
		if mask&(1<<k) != 0 {
			s += " " + name
		}
	}
	return s
}
