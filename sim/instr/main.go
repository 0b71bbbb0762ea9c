// Command instr prepares a simulation build of the library under test.
//
// It reads the current sources of the repository and writes, into a scratch
// directory, copies with a yield point before every statement, a hook package,
// two patched runtime files (seeded map order instead of random map order) and
// an overlay file naming them all. The repository itself is not touched. It
// also writes registry.go for the harness: the syntax tree node types that
// exist in this tree.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/akito0107/xsqlparser"

var (
	repo    = flag.String("repo", "/repo", "repository under test")
	out     = flag.String("out", "", "scratch directory")
	harness = flag.String("harness", "", "directory of the harness copy that gets registry.go")
	hookSrc = flag.String("hook", "", "directory with the hook package sources")
	noYield = flag.Bool("noyield", false, "only the runtime patches and the hook package, no yield points")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type insertion struct {
	off  int
	text string
}

type listed struct {
	Dir     string
	GoFiles []string
}

func main() {
	flag.Parse()
	overlay := map[string]string{}
	write := func(name string, data []byte) string {
		p := filepath.Join(*out, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(p, data, 0o644); err != nil {
			die("%v", err)
		}
		return p
	}

	cmd := exec.Command("go", "list", "-mod=readonly", "-deps", "-json=Dir,GoFiles", module, module+"/sqlast", module+"/sqlastutil", module+"/sqltoken", module+"/dialect")
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	conc := false
	files := 0
	for dec.More() {
		var l listed
		if err := dec.Decode(&l); err != nil {
			die("%v", err)
		}
		if l.Dir != *repo && !strings.HasPrefix(l.Dir, *repo+"/") {
			continue
		}
		for _, f := range l.GoFiles {
			path := filepath.Join(l.Dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				die("%v", err)
			}
			res, c := instrument(path, src)
			conc = conc || c
			files++
			if *noYield {
				continue
			}
			collect(path, src)
			rel, _ := filepath.Rel(*repo, path)
			overlay[path] = write(filepath.Join("src", rel), res)
		}
	}
	if files == 0 {
		die("no library files found")
	}

	// hook package, inside the module under test so that the library may import it
	ents, err := os.ReadDir(*hookSrc)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		data, err := os.ReadFile(filepath.Join(*hookSrc, e.Name()))
		if err != nil {
			die("%v", err)
		}
		name := strings.TrimSuffix(e.Name(), ".txt")
		data = bytes.ReplaceAll(data, []byte("/*CONC*/false"), []byte(fmt.Sprint(conc)))
		overlay[filepath.Join(*repo, "verifhook", name)] = write(filepath.Join("verifhook", name), data)
	}

	// seeded randomness of the runtime
	og, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	goroot := strings.TrimSpace(string(og))
	patch := func(rel string, pairs ...string) {
		p := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) < 1 {
				die("%s: %q not found, unexpected Go version", rel, pairs[i])
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		overlay[p] = write(filepath.Join("goroot", rel), []byte(s))
	}
	patch("runtime/rand.go",
		"func rand() uint64 {\n", `func rand() uint64 {
	if SimRandState != 0 {
		SimRandState += 0x9e3779b97f4a7c15
		z := SimRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`,
		"mp.cheaprand = uint32(rand())", "mp.cheaprand = uint32(bootstrapRand())",
		"mp.cheaprand64 = rand()", "mp.cheaprand64 = bootstrapRand()",
		"// mrandinit initializes", "//go:linkname SimRandState\nvar SimRandState uint64\n\n//go:linkname SimG\nfunc SimG() uintptr { return uintptr(unsafe.Pointer(getg())) }\n\n//go:linkname SimStatus\nfunc SimStatus(p uintptr) (uint32, string) {\n\tgp := (*g)(unsafe.Pointer(p))\n\treturn readgstatus(gp) &^ _Gscan, gp.waitreason.String()\n}\n\n// mrandinit initializes")
	patch("internal/runtime/maps/runtime_alg.go",
		"key[i] = bootstrapRand()", "key[i] = 0x9e3779b97f4a7c15 * uint64(i+3)",
		"uintptr(bootstrapRand())", "uintptr(0x9e3779b97f4a7c15 * uint64(i+3) & (1<<31 - 1))")
	// dropping pooled objects is decided by the simulator (garbage collection events), not by chance
	patch("sync/pool.go", "if runtime_randn(4) == 0 {", "if false && runtime_randn(4) == 0 {")

	// what a process can learn about the world around it
	patch("time/time.go",
		"func Since(t Time) Duration {\n", "func Since(t Time) Duration {\n\tif SimClock != nil {\n\t\treturn Now().Sub(t)\n\t}\n",
		"func Until(t Time) Duration {\n", "func Until(t Time) Duration {\n\tif SimClock != nil {\n\t\treturn t.Sub(Now())\n\t}\n",
		"func Now() Time {\n", `func Now() Time {
	if f := SimClock; f != nil {
		wall, mono := f()
		t := Unix(0, wall)
		sec := t.unixSec() + unixToInternal - minWall
		return Time{hasMonotonic | uint64(sec)<<nsecShift | uint64(t.nsec()), mono, Local}
	}
`,
		"//go:linkname runtimeNano\n", "//go:linkname SimClock\nvar SimClock func() (wall, mono int64)\n\n//go:linkname SimTimer\nvar SimTimer func(int64) int64\n\n//go:linkname runtimeNano\n")
	patch("time/sleep.go", "func when(d Duration) int64 {\n", "func when(d Duration) int64 {\n\tif f := SimTimer; f != nil {\n\t\td = Duration(f(int64(d)))\n\t}\n")
	patch("syscall/env_unix.go",
		"	\"sync\"\n)", "	\"sync\"\n	_ \"unsafe\"\n)",
		"func Getenv(key string) (value string, found bool) {\n", "//go:linkname SimEnv\nvar SimEnv func(string) (string, bool)\n\n//go:linkname SimID\nvar SimID func(what string) int\n\nfunc Getenv(key string) (value string, found bool) {\n\tif f := SimEnv; f != nil {\n\t\treturn f(key)\n\t}\n",
		"func Environ() []string {\n", "func Environ() []string {\n\tif f := SimEnv; f != nil {\n\t\tv, _ := f(\"*\")\n\t\treturn []string{\"SIM=\" + v, v + \"=1\"}\n\t}\n")
	ids := []string{}
	for _, f := range []string{"pid", "ppid", "uid", "euid", "gid", "egid"} {
		sig := "func Get" + f + "() (" + f + " int) {\n"
		ids = append(ids, sig, sig+"\tif f := SimID; f != nil {\n\t\treturn f(\""+f+"\")\n\t}\n")
	}
	patch("syscall/zsyscall_linux_"+runtime.GOARCH+".go", ids...)
	patch("os/sys_linux.go", "func hostname() (name string, err error) {\n", "func hostname() (name string, err error) {\n\tif f := syscall.SimID; f != nil {\n\t\treturn []string{\"build\", \"localhost\", \"ci\", \"a.example.com\"}[f(\"host\")&3], nil\n\t}\n")
	patch("runtime/debug.go",
		"func GOMAXPROCS(n int) int {\n", "//go:linkname SimNumbers\nvar SimNumbers func(what string) int\n\nfunc GOMAXPROCS(n int) int {\n\tif f := SimNumbers; f != nil && n <= 0 {\n\t\treturn f(\"procs\")\n\t}\n",
		"func NumCPU() int {\n", "func NumCPU() int {\n\tif f := SimNumbers; f != nil {\n\t\treturn f(\"cpus\")\n\t}\n",
		"func NumGoroutine() int {\n", "func NumGoroutine() int {\n\tif f := SimNumbers; f != nil {\n\t\treturn f(\"goroutines\")\n\t}\n")
	patch("math/rand/rand.go", "var globalRandGenerator atomic.Pointer[Rand]\n", `var globalRandGenerator atomic.Pointer[Rand]

// SimSeeded tells whether the generator that all code shares was seeded.
func SimSeeded() bool {
	r := globalRandGenerator.Load()
	if r == nil {
		return false
	}
	_, ok := r.src.(*runtimeSource)
	return !ok
}
`)
	patch("runtime/symtab.go",
		"func (ci *Frames) Next() (frame Frame, more bool) {\n", "//go:linkname SimFrame\nvar SimFrame func(name, file string) (string, string)\n\nfunc (ci *Frames) Next() (frame Frame, more bool) {\n\tframe, more = ci.next0()\n\tif f := SimFrame; f != nil && frame.PC != 0 {\n\t\tframe.Function, frame.File = f(frame.Function, frame.File)\n\t}\n\treturn\n}\n\nfunc (ci *Frames) next0() (frame Frame, more bool) {\n",
		"func (f *Func) Name() string {\n", "func (f *Func) Name() string {\n\ts := f.name0()\n\tif f := SimFrame; f != nil {\n\t\ts, _ = f(s, \"\")\n\t}\n\treturn s\n}\n\nfunc (f *Func) name0() string {\n")
	patch("runtime/mprof.go", "func Stack(buf []byte, all bool) int {\n", "func Stack(buf []byte, all bool) int {\n\tif f := SimFrame; f != nil {\n\t\tname, file := f(\"main.main\", \"main.go\")\n\t\treturn copy(buf, \"goroutine 1 [running]:\\n\"+name+\"()\\n\\t\"+file+\":1\\n\")\n\t}\n")
	patch("testing/testing.go", "func Testing() bool {\n", "func Testing() bool {\n\tif f := runtime.SimNumbers; f != nil {\n\t\treturn f(\"testing\")&1 == 0\n\t}\n")
	patch("runtime/mstats.go",
		"	startTheWorld(stw)\n}\n\n// doubleCheckReadMemStats", "	startTheWorld(stw)\n\tif f := SimNumbers; f != nil {\n\t\tm.Alloc = uint64(f(\"memory\"))\n\t\tm.HeapAlloc, m.Sys, m.HeapInuse, m.HeapSys = m.Alloc, m.Alloc*2, m.Alloc, m.Alloc*2\n\t\tm.NumGC = uint32(f(\"collections\"))\n\t}\n}\n\n// doubleCheckReadMemStats")

	// how much the standard library's string functions do
	for _, pkg := range []string{"strings", "bytes"} {
		dir := filepath.Join(goroot, "src", pkg)
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		found := false
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			p := filepath.Join(dir, e.Name())
			src, err := os.ReadFile(p)
			if err != nil {
				die("%v", err)
			}
			res := countWork(p, src, e.Name() == pkg+".go")
			found = found || e.Name() == pkg+".go"
			if res != nil {
				overlay[p] = write(filepath.Join("goroot", pkg, e.Name()), res)
			}
		}
		if !found {
			die("package %s has no %s.go, unexpected Go version", pkg, pkg)
		}
	}

	ov, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	write("overlay.json", ov)

	if *harness != "" {
		if err := os.WriteFile(filepath.Join(*harness, "registry.go"), registry(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

// instrument inserts the yield points; it also tells whether the file can make
// a goroutine block or start one.
func instrument(path string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	conc := false
	for _, im := range f.Imports {
		switch strings.Trim(im.Path.Value, `"`) {
		case "sync", "sync/atomic", "runtime", "time", "context", "os/exec", "net", "iter":
			conc = true
		}
	}
	var ins []insertion
	const y = "verifhook.Y(); "
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), y})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
			conc = true
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.BlockStmt:
			clauses := false
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if !clauses {
				list(n.List)
			}
		case *ast.FuncDecl:
			if n.Body != nil {
				ins = append(ins, insertion{off(n.Body.Lbrace) + 1, y})
			}
		case *ast.FuncLit:
			ins = append(ins, insertion{off(n.Body.Lbrace) + 1, y})
		case *ast.ForStmt:
			ins = append(ins, insertion{off(n.Body.Lbrace) + 1, y})
		case *ast.RangeStmt:
			ins = append(ins, insertion{off(n.Body.Lbrace) + 1, y})
		case *ast.CallExpr:
			// how much is copied
			fn, ok := n.Fun.(*ast.Ident)
			if !ok || fn.Obj != nil {
				break
			}
			if fn.Name == "copy" && len(n.Args) == 2 {
				ins = append(ins, insertion{off(n.Pos()), "verifhook.Copied("}, insertion{off(n.End()), ")"})
			}
			if fn.Name == "append" && len(n.Args) == 2 && n.Ellipsis.IsValid() {
				// evaluated twice, so only what has no effects
				pure := true
				ast.Inspect(n.Args[1], func(x ast.Node) bool {
					switch x := x.(type) {
					case nil, *ast.SelectorExpr, *ast.SliceExpr, *ast.IndexExpr, *ast.BasicLit, *ast.BinaryExpr, *ast.ParenExpr:
					case *ast.Ident:
						pure = pure && x.Name != "nil"
					default:
						pure = false
					}
					return pure
				})
				switch n.Args[1].(type) {
				case *ast.BasicLit, *ast.BinaryExpr:
					pure = false
				}
				if pure {
					y := string(src[off(n.Args[1].Pos()):off(n.Args[1].End())])
					ins = append(ins, insertion{off(n.Args[1].End()), "[:verifhook.Copied(len(" + y + "))]"})
				}
			}
		}
		return true
	})
	if len(ins) > 0 {
		ins = append(ins, insertion{off(f.Name.End()), "; import verifhook \"" + module + "/verifhook\""})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b bytes.Buffer
	prev := 0
	for _, i := range ins {
		b.Write(src[prev:i.off])
		b.WriteString(i.text)
		prev = i.off
	}
	b.Write(src[prev:])
	return b.Bytes(), conc
}

// countWork makes the exported functions of a package tell how long the texts
// are that they are given.
func countWork(path string, src []byte, decl bool) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		die("%v", err)
	}
	var ins []insertion
	for _, d := range f.Decls {
		d, ok := d.(*ast.FuncDecl)
		if !ok || d.Body == nil || d.Recv != nil || !ast.IsExported(d.Name.Name) {
			continue
		}
		sum := ""
		for _, p := range d.Type.Params.List {
			switch t := p.Type.(type) {
			case *ast.Ident:
				if t.Name != "string" {
					continue
				}
			case *ast.ArrayType:
				if id, ok := t.Elt.(*ast.Ident); !ok || t.Len != nil || id.Name != "byte" && id.Name != "rune" && id.Name != "string" {
					continue
				}
			default:
				continue
			}
			for _, n := range p.Names {
				if n.Name != "_" {
					sum += " + len(" + n.Name + ")"
				}
			}
		}
		if sum != "" {
			ins = append(ins, insertion{fset.Position(d.Body.Lbrace).Offset + 1, " if SimWork != nil { *SimWork += int64(" + strings.TrimPrefix(sum, " + ") + ") }; "})
		}
	}
	if len(ins) == 0 && !decl {
		return nil
	}
	var b bytes.Buffer
	prev := 0
	for _, i := range ins {
		b.Write(src[prev:i.off])
		b.WriteString(i.text)
		prev = i.off
	}
	b.Write(src[prev:])
	if decl {
		b.WriteString("\n//go:linkname SimWork\nvar SimWork *int64\n")
		return bytes.Replace(b.Bytes(), []byte("\nimport ("), []byte("\nimport (\n\t_ \"unsafe\""), 1)
	}
	return b.Bytes()
}

// registry lists the exported types of package sqlast with a WriteTo method.
// words and numbers are the literals of the library: texts and lengths that it
// treats specially are among them.
var (
	words   = map[string]bool{}
	numbers = map[int64]bool{}
	fields  = map[string]bool{}
)

// collect notes the literals of a file.
func collect(path string, src []byte) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		die("%v", err)
	}
	word := func(s string) {
		if len(s) < 2 || len(s) > 40 || strings.Contains(s, "%") {
			return
		}
		for _, c := range []byte(s) {
			if c <= ' ' || c > '~' {
				return
			}
		}
		words[s] = true
	}
	generated := bytes.HasPrefix(src, []byte("// Code generated"))
	number := func(n int64) {
		if !generated && n > 2 && n < 2_000_000 {
			numbers[n] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.StructType:
			for _, l := range n.Fields.List {
				for _, id := range l.Names {
					fields[id.Name] = true
				}
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(n.Value); err == nil {
					word(s)
					for _, w := range strings.Fields(s) {
						if strings.ContainsAny(w, "=@#$") {
							word(w)
						}
					}
				}
			case token.INT:
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					number(v)
				}
			}
		case *ast.BinaryExpr:
			v := constant.MakeUnknown()
			x, y := constOf(n.X), constOf(n.Y)
			if x.Kind() == constant.Int && y.Kind() == constant.Int {
				switch n.Op {
				case token.SHL:
					if k, ok := constant.Uint64Val(y); ok && k < 40 {
						v = constant.Shift(x, token.SHL, uint(k))
					}
				case token.MUL, token.ADD, token.SUB:
					v = constant.BinaryOp(x, n.Op, y)
				}
			}
			if v.Kind() == constant.Int {
				if k, ok := constant.Int64Val(v); ok {
					number(k)
				}
			}
		}
		return true
	})
}

func constOf(e ast.Expr) constant.Value {
	if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.INT {
		return constant.MakeFromLiteral(l.Value, l.Kind, 0)
	}
	return constant.MakeUnknown()
}

func registry() []byte {
	dir := filepath.Join(*repo, "sqlast")
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		die("%v", err)
	}
	structs := map[string]bool{}
	meth := map[string]bool{}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if t, ok := s.(*ast.TypeSpec); ok && t.TypeParams == nil {
							if _, ok := t.Type.(*ast.InterfaceType); !ok && ast.IsExported(t.Name.Name) {
								structs[t.Name.Name] = true
							}
						}
					}
				case *ast.FuncDecl:
					if d.Recv == nil || d.Name.Name != "WriteTo" {
						continue
					}
					t := d.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if id, ok := t.(*ast.Ident); ok {
						meth[id.Name] = true
					}
				}
			}
		}
	}
	var names []string
	for n := range meth {
		if structs[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var b bytes.Buffer
	b.WriteString("// Code generated by instr. DO NOT EDIT.\n\npackage main\n\nimport (\n\t\"reflect\"\n\n\t\"" + module + "/sqlast\"\n)\n\nvar nodeTypes = []reflect.Type{\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\treflect.TypeOf((*sqlast.%s)(nil)),\n", n)
	}
	b.WriteString("}\n\n// literals of the library\nvar libWords = []string{\n")
	var l []string
	for w := range words {
		if !fields[w] {
			l = append(l, w)
		}
	}
	sort.Strings(l)
	for _, w := range l {
		fmt.Fprintf(&b, "\t%q,\n", w)
	}
	b.WriteString("}\n\nvar libNumbers = []int{\n")
	var k []int
	for n := range numbers {
		k = append(k, int(n))
	}
	sort.Ints(k)
	for _, n := range k {
		fmt.Fprintf(&b, "\t%d,\n", n)
	}
	b.WriteString("}\n")
	return b.Bytes()
}
