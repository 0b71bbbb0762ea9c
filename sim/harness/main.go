package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var realStderr = func() *os.File {
	fd, err := syscall.Dup(2)
	if err != nil {
		return os.Stderr
	}
	syscall.CloseOnExec(fd)
	return os.NewFile(uintptr(fd), "stderr")
}()

func selfPath() string {
	p, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	return p
}

func scratchDir() string {
	if d := os.Getenv("SIM_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: sim check|worker|exec|outcomes|show ...")
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	mode, args := os.Args[1], os.Args[2:]
	if mode != "check" && mode != "replay" {
		runtime.GOMAXPROCS(1)
	} else {
		debug.SetGCPercent(100)
	}
	switch mode {
	case "check":
		checkMain(args)
	case "worker":
		workerMain(args)
	case "exec":
		execMain(args[0])
	case "outcomes":
		outcomesMain(args[0])
	case "replay":
		replayMain(args)
	case "gen":
		// print generated plans, for looking at
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		n, _ := strconv.ParseUint(args[2], 10, 64)
		for i := uint64(0); i < n; i++ {
			b, _ := json.Marshal(genPlan(args[0], seed, i))
			fmt.Println(string(b))
		}
	case "accept":
		seed, _ := strconv.ParseUint(args[0], 10, 64)
		n, _ := strconv.ParseUint(args[1], 10, 64)
		acceptance(seed, n)
	default:
		fatalf("unknown mode %s", mode)
	}
}

// genPlan is the only place where a run is decided.
func genPlan(prop string, seed, index uint64) *Plan {
	r := NewRand(seed, hashString(prop), index)
	p := genOnce(scenarios[prop], r)
	for k := uint64(1); p == nil && k < 10; k++ {
		// a mistake of the generator, not of the library
		probe("generator-failed")
		r = NewRand(seed, hashString(prop), index, k)
		p = genOnce(scenarios[prop], r)
	}
	p.Prop = prop
	p.Rand = r.Next() | 1
	return p
}

func genOnce(s *scenario, r *Rand) (p *Plan) {
	defer func() {
		if e := recover(); e != nil && os.Getenv("SIM_GENPANIC") != "" {
			panic(e)
		}
	}()
	return s.gen(r)
}

// runPlan executes one plan.
func runPlan(p *Plan) *Verdict {
	s := scenarios[p.Prop]
	if s == nil {
		fatalf("unknown property %q", p.Prop)
	}
	simRandState = p.Rand | 1
	freshOptions()
	edgeHung, edgeSteps = false, 0
	v := s.exec(p)
	if v != nil && v.Violation != "" && edgeHung && edgeSteps > defaultLimit/8 {
		v = skip("too long for the step limit")
	}
	simRandState = 0
	return v
}

// workerReport is what a worker writes at its end.
type workerReport struct {
	Stats    *Stats   `json:"stats"`
	Index    uint64   `json:"index"` // of the violation
	Verdict  *Verdict `json:"verdict,omitempty"`
	Sigs     []uint64 `json:"sigs"`
	Inters   []uint64 `json:"inters"`
	Digests  []uint64 `json:"digests"` // of the first runs
	Complete bool     `json:"complete"`
}

const digestRuns = 40

type workerArgs struct {
	prop     string
	seed     uint64
	start    uint64
	stride   uint64
	max      uint64
	deadline time.Duration
	status   string
	report   string
	list     string
	until    int64
}

func parseWorker(args []string) *workerArgs {
	w := &workerArgs{}
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	fs.StringVar(&w.prop, "prop", "", "")
	fs.Uint64Var(&w.seed, "seed", 1, "")
	fs.Uint64Var(&w.start, "start", 0, "")
	fs.Uint64Var(&w.stride, "stride", 1, "")
	fs.Uint64Var(&w.max, "max", 0, "")
	fs.DurationVar(&w.deadline, "time", 10*time.Second, "")
	fs.StringVar(&w.status, "status", "", "")
	fs.StringVar(&w.report, "report", "", "")
	fs.StringVar(&w.list, "list", "", "run these indices only, for histories")
	fs.Parse(args)
	return w
}

func workerMain(args []string) {
	w := parseWorker(args)
	rep := &workerReport{Stats: stats}
	stats.sigs = map[uint64]struct{}{}
	end := time.Now().Add(w.deadline)
	var status *os.File
	if w.status != "" {
		var err error
		if status, err = os.OpenFile(w.status, os.O_CREATE|os.O_RDWR, 0o644); err != nil {
			fatalf("%v", err)
		}
	}
	var list []uint64
	if w.list != "" {
		for _, s := range strings.Split(w.list, ",") {
			n, _ := strconv.ParseUint(s, 10, 64)
			list = append(list, n)
		}
		w.max = uint64(len(list))
	}
	samples := 0
	for k := uint64(0); ; k++ {
		if w.max > 0 && k >= w.max || w.max == 0 && time.Now().After(end) {
			break
		}
		index := w.start + k*w.stride
		if list != nil {
			index = list[k]
		}
		if k%64 == 0 {
			runtime.GC()
		}
		if status != nil {
			status.WriteAt([]byte(fmt.Sprintf("%-20d", index)), 0)
		}
		plan := genPlan(w.prop, w.seed, index)
		v := runPlan(plan)
		stats.Runs++
		stats.Kinds[plan.Kind]++
		if v.Skip != "" {
			stats.Skipped[v.Skip]++
		}
		if k < digestRuns {
			rep.Digests = append(rep.Digests, v.Sig^v.Inter*31^hashString(v.Skip+v.Violation+v.Detail))
		}
		if v.Violation != "" {
			rep.Index = index
			rep.Verdict = v
			break
		}
		if v.NonTrivial && !scenarios[w.prop].processes {
			stats.NonTrivial++
			stats.sigs[v.Sig] = struct{}{}
			if samples < 3 && (k%17 == 3 || samples == 0) {
				samples++
				stats.Samples = append(stats.Samples, fmt.Sprintf("run %d: %s", index, sampleOf(plan)))
			}
		}
		if v.NonTrivial && scenarios[w.prop].processes && samples < 2 {
			samples++
			stats.Samples = append(stats.Samples, fmt.Sprintf("run %d: %s", index, sampleOf(plan)))
		}
		if v.Inter != 0 && v.NonTrivial {
			stats.inter[v.Inter] = struct{}{}
		}
	}
	stats.Steps = stats.steps
	for s := range stats.sigs {
		rep.Sigs = append(rep.Sigs, s)
	}
	for s := range stats.inter {
		rep.Inters = append(rep.Inters, s)
	}
	rep.Complete = true
	b, err := json.Marshal(rep)
	if err != nil {
		fatalf("%v", err)
	}
	if w.report != "" {
		if err := os.WriteFile(w.report, b, 0o644); err != nil {
			fatalf("%v", err)
		}
	} else {
		os.Stdout.Write(b)
	}
	os.Exit(0)
}

// Replay is a replay file.
type Replay struct {
	Property  string   `json:"property"`
	Violation string   `json:"violation"`
	Detail    string   `json:"detail"`
	Seed      uint64   `json:"seed"`
	Index     uint64   `json:"index"`
	Plan      *Plan    `json:"plan,omitempty"`
	History   []uint64 `json:"history,omitempty"` // runs of this seed in one process, if one run alone does not show it
	Minimised bool     `json:"minimised"`
	Note      string   `json:"note,omitempty"`
}

// execMain runs one replay file in this process and writes the verdict.
func execMain(file string) {
	out := os.NewFile(3, "verdict")
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatalf("%v", err)
	}
	stats.sigs = map[uint64]struct{}{}
	var v *Verdict
	if rp.Plan != nil {
		runtime.GC()
		v = runPlan(rp.Plan)
	} else {
		for k, i := range rp.History {
			if k%64 == 0 {
				runtime.GC()
			}
			v = runPlan(genPlan(rp.Property, rp.Seed, i))
			if v.Violation != "" {
				break
			}
		}
	}
	j, _ := json.Marshal(v)
	out.Write(j)
	os.Exit(0)
}

type runner struct {
	prop     string
	tier     string
	seed     uint64
	scratch  string
	replays  string
	evidence string
	known    string
	self     string
	race     string
	level    string
	timeout  time.Duration
	workers  int
	perProc  uint64
	mu       sync.Mutex
	running  map[int]bool // worker processes
}

func (c *runner) bin() string {
	if scenarios[c.prop].race && c.race != "" {
		return c.race
	}
	return c.self
}

func (c *runner) env() []string {
	e := append(os.Environ(), "SIM_SCRATCH="+c.scratch, "SIM_RAND=1")
	if scenarios[c.prop].race {
		e = append(e, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(c.scratch, "race"))
	}
	return e
}

// fresh runs a replay file in a fresh process. err is set if the process died.
func (c *runner) fresh(rp *Replay, limit time.Duration) (v *Verdict, err error) {
	f, e := os.CreateTemp(c.scratch, "exec")
	if e != nil {
		return nil, e
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	pr, pw, e := os.Pipe()
	if e != nil {
		return nil, e
	}
	cmd := exec.Command(c.bin(), "exec", f.Name())
	cmd.Env = c.env()
	cmd.ExtraFiles = []*os.File{pw}
	var serr tail
	cmd.Stderr = &serr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if e := cmd.Start(); e != nil {
		pr.Close()
		pw.Close()
		return nil, e
	}
	pw.Close()
	timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	var out []byte
	buf := make([]byte, 65536)
	for {
		n, e := pr.Read(buf)
		out = append(out, buf[:n]...)
		if e != nil {
			break
		}
	}
	pr.Close()
	werr := cmd.Wait()
	if !timer.Stop() && werr != nil {
		return nil, errWatchdog
	}
	var got Verdict
	if json.Unmarshal(out, &got) != nil {
		return nil, fmt.Errorf("process ended: %v: %s", werr, serr.String())
	}
	return &got, nil
}

var errWatchdog = fmt.Errorf("watchdog: no answer in time")

// tail keeps the first and last bytes written.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string { return short(string(t.b), 1500) }

type workerEnd struct {
	rep   *workerReport
	died  string
	index uint64
	hung  bool
}

func (c *runner) worker(id int, start, stride, max uint64, d time.Duration, list []uint64) *workerEnd {
	status := filepath.Join(c.scratch, fmt.Sprintf("status-%d-%d", id, start))
	report := filepath.Join(c.scratch, fmt.Sprintf("report-%d-%d", id, start))
	os.Remove(status)
	os.Remove(report)
	args := []string{"worker", "-prop", c.prop, "-seed", fmt.Sprint(c.seed), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(stride), "-time", d.String(), "-status", status, "-report", report, "-max", fmt.Sprint(max)}
	if list != nil {
		var s []string
		for _, i := range list {
			s = append(s, fmt.Sprint(i))
		}
		args = append(args, "-list", strings.Join(s, ","))
	}
	cmd := exec.Command(c.bin(), args...)
	cmd.Env = c.env()
	var serr tail
	cmd.Stderr = &serr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return &workerEnd{died: err.Error()}
	}
	c.mu.Lock()
	if c.running == nil {
		c.running = map[int]bool{}
	}
	c.running[cmd.Process.Pid] = true
	c.mu.Unlock()
	done := make(chan error, 1)
	go func() {
		err := cmd.Wait()
		c.mu.Lock()
		delete(c.running, cmd.Process.Pid)
		c.mu.Unlock()
		done <- err
	}()
	hung := false
	var werr error
	last, lastChange := "", time.Now()
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-time.After(500 * time.Millisecond):
			b, _ := os.ReadFile(status)
			if string(b) != last {
				last, lastChange = string(b), time.Now()
			}
			if time.Since(lastChange) > 90*time.Second {
				hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				werr = <-done
				break wait
			}
		}
	}
	e := &workerEnd{hung: hung}
	b, _ := os.ReadFile(report)
	var rep workerReport
	if json.Unmarshal(b, &rep) == nil && rep.Complete {
		rep.Stats.sigs = nil
		e.rep = &rep
		os.Remove(report)
		os.Remove(status)
		return e
	}
	s, _ := os.ReadFile(status)
	e.index, _ = strconv.ParseUint(strings.TrimSpace(string(s)), 10, 64)
	e.died = fmt.Sprintf("%v: %s", werr, serr.String())
	if werr == nil {
		e.died = "the process exited: " + serr.String()
	}
	return e
}

// killWorkers ends the workers that are still searching.
func (c *runner) killWorkers() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for pid := range c.running {
		syscall.Kill(-pid, syscall.SIGKILL)
	}
}

func checkMain(args []string) {
	c := &runner{self: selfPath()}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	fs.StringVar(&c.prop, "prop", "", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.Uint64Var(&c.seed, "seed", 1, "")
	fs.StringVar(&c.scratch, "scratch", "", "")
	fs.StringVar(&c.replays, "replays", "", "")
	fs.StringVar(&c.evidence, "evidence", "", "")
	fs.StringVar(&c.known, "known", "", "")
	fs.StringVar(&c.race, "race", "", "")
	fs.DurationVar(&c.timeout, "time", 20*time.Second, "")
	fs.IntVar(&c.workers, "workers", 8, "")
	fs.Uint64Var(&c.perProc, "perproc", 0, "runs per worker process, 0 for no limit")
	fs.Parse(args)
	os.Exit(c.check())
}

func (c *runner) check() int {
	sc := scenarios[c.prop]
	if sc == nil {
		fatalf("unknown property %q", c.prop)
	}
	begin := time.Now()
	total := &Stats{Skipped: map[string]int64{}, Fired: map[string]int64{}, Kinds: map[string]int64{}, Probes: map[string]int64{}}
	sigs := map[uint64]struct{}{}
	inters := map[uint64]struct{}{}
	digests := map[uint64]uint64{}
	var mu sync.Mutex
	var found *workerEnd
	var foundArgs []uint64 // start, stride
	processes := 0
	failed := ""
	stop := false
	var wg sync.WaitGroup
	deadline := begin.Add(c.timeout)
	for i := 0; i < c.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			start := uint64(i)
			stride := uint64(c.workers)
			perProc := c.perProc
			if perProc == 0 && i%4 == 3 && c.prop != "C12" && c.prop != "C23" {
				// what is set up once in a process is set up often here
				perProc = 40
			}
			for {
				left := time.Until(deadline)
				mu.Lock()
				quit := stop || left < 50*time.Millisecond
				mu.Unlock()
				if quit && start != uint64(i) {
					return
				}
				e := c.worker(i, start, stride, perProc, left, nil)
				mu.Lock()
				processes++
				if e.rep == nil {
					if !stop {
						found = e
						foundArgs = []uint64{start, stride}
						stop = true
						c.killWorkers()
					}
					mu.Unlock()
					return
				}
				merge(total, e.rep.Stats)
				for _, s := range e.rep.Sigs {
					sigs[s] = struct{}{}
				}
				for _, s := range e.rep.Inters {
					inters[s] = struct{}{}
				}
				for k, d := range e.rep.Digests {
					digests[start+uint64(k)*stride] = d
				}
				if e.rep.Verdict != nil {
					if !stop {
						found = e
						foundArgs = []uint64{start, stride}
						stop = true
						c.killWorkers()
					}
				}
				mu.Unlock()
				if perProc == 0 || e.rep.Verdict != nil {
					return
				}
				start += stride * perProc
			}
		}(i)
	}
	wg.Wait()
	wall := time.Since(begin).Seconds()
	violations := 0
	var rp *Replay
	if found != nil {
		rp, failed = c.reproduce(found, foundArgs[0], foundArgs[1])
		if rp != nil {
			violations = 1
		}
	}
	selfTest := c.selfTest(digests, found == nil)
	c.writeEvidence(total, sigs, inters, wall, violations, processes, selfTest)
	if failed != "" {
		fmt.Fprintf(os.Stderr, "sim: %s\n", failed)
		return 3
	}
	if rp != nil {
		name := filepath.Join(c.replays, fmt.Sprintf("%s-%d-%d.json", c.prop, rp.Seed, rp.Index))
		os.MkdirAll(c.replays, 0o755)
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(name, b, 0o644); err != nil {
			fmt.Fprintf(os.Stderr, "sim: %v\n", err)
			return 3
		}
		if k := c.isKnown(rp); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
			return 0
		}
		fmt.Printf("found after %.1f s and about %d runs, minimised in %.1f s\n", wall, total.Runs, time.Since(begin).Seconds()-wall)
		fmt.Printf("property %s is violated (%s): %s\n", c.prop, rp.Violation, rp.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, name)
		return 1
	}
	if total.Runs == 0 {
		fmt.Fprintf(os.Stderr, "sim: nothing was run\n")
		return 3
	}
	fmt.Printf("property %s: %d runs, %d non-trivial, %.1f s, no violation\n", c.prop, total.Runs, total.NonTrivial, wall)
	return 0
}

func merge(t, s *Stats) {
	t.Runs += s.Runs
	t.Evals += s.Evals
	t.NonTrivial += s.NonTrivial
	t.Steps += s.Steps
	t.Switches += s.Switches
	for k, n := range s.Skipped {
		t.Skipped[k] += n
	}
	for k, n := range s.Fired {
		t.Fired[k] += n
	}
	for k, n := range s.Kinds {
		t.Kinds[k] += n
	}
	for k, n := range s.Probes {
		t.Probes[k] += n
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, s.Samples...)
	}
	if s.MaxTasks > t.MaxTasks {
		t.MaxTasks = s.MaxTasks
	}
	if s.MaxWork > t.MaxWork {
		t.MaxWork, t.MaxWorkOf = s.MaxWork, s.MaxWorkOf
	}
}

// selfTest runs the first runs of the seed again, in one other process in
// another order, and compares.
func (c *runner) selfTest(digests map[uint64]uint64, clean bool) map[string]interface{} {
	if !clean {
		return map[string]interface{}{"done": false}
	}
	var list []uint64
	for i := range digests {
		if i < uint64(c.workers)*12 {
			list = append(list, i)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i] > list[j] })
	if len(list) > 40 {
		list = list[len(list)-40:]
	}
	e := c.worker(99, 0, 1, 0, time.Minute, list)
	if e.rep == nil {
		return map[string]interface{}{"done": false, "why": e.died}
	}
	same, diff := 0, 0
	for k, d := range e.rep.Digests {
		if digests[list[k]] == d {
			same++
		} else {
			diff++
		}
	}
	return map[string]interface{}{"done": true, "runs_repeated_in_another_process_and_order": same + diff, "identical": same, "different": diff}
}

func (c *runner) writeEvidence(t *Stats, sigs, inters map[uint64]struct{}, wall float64, violations, processes int, selfTest map[string]interface{}) {
	sc := scenarios[c.prop]
	evals := t.Runs
	if t.Evals > 0 {
		evals = t.Evals
	}
	perHour := int64(0)
	if wall > 0 {
		perHour = int64(float64(t.Runs) / wall * 3600)
	}
	cov := map[string]interface{}{
		"evaluations":            evals,
		"distinct_nontrivial":    len(sigs),
		"rule":                   sc.rule,
		"samples":                t.Samples,
		"simulated_runs":         t.Runs,
		"nontrivial_runs":        t.NonTrivial,
		"runs_per_hour":          perHour,
		"seeds_per_hour":         perHour,
		"seeds_note":             "every run has its own seed, derived from VERIF_SEED, the property and the run number",
		"simulated_steps":        t.Steps,
		"simulated_time_note":    "the library reads no clock and has no timers; simulated time is counted in steps, one per statement of library code executed",
		"scheduler_switches":     t.Switches,
		"distinct_interleavings": len(inters),
		"interleaving_measure":   "distinct sequences of (task switched to, global step of the switch) in non-trivial runs",
		"max_concurrent_tasks":   t.MaxTasks,
		"faults_fired":           t.Fired,
		"scenario_kinds":         t.Kinds,
		"skipped":                t.Skipped,
		"probes":                 t.Probes,
		"worker_processes":       processes,
		"determinism_self_test":  selfTest,
		"real_components":        []string{"packages xsqlparser, sqltoken, sqlast, sqlastutil and dialect of /repo's working tree, with a yield point before every statement (build overlay)", "golang.org/x/xerrors", "the Go runtime, with its random choices (map order, hash seeds) driven by the seed"},
		"stub_components":        []string{"io.Reader sources", "io.Writer sinks", "pipes", "visitors and rewrite callbacks", "dialects that report to the simulator (the four dialects themselves are real)", "goroutine scheduling", "garbage collection times"},
	}
	if sc.race {
		cov["race_detector"] = true
	}
	if t.MaxWork > 0 {
		cov["largest_work_permille_of_bound"] = t.MaxWork
		cov["largest_work_of"] = t.MaxWorkOf
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{"yield points lie between statements of the library, not inside one; smaller interleavings are left to the race detector (C10)", "the standard library is trusted"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(c.evidence), 0o755)
	if err := os.WriteFile(c.evidence, append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
}

// isKnown looks the violation up among the known findings. A line is
// "known: property=<id> class=<class> <json string that the plan contains> <text>".
func (c *runner) isKnown(rp *Replay) string {
	b, err := os.ReadFile(c.known)
	if err != nil {
		return ""
	}
	plan, _ := json.Marshal(rp.Plan)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 5)
		if len(f) < 5 || f[0] != "known:" || f[1] != "property="+c.prop || f[2] != "class="+rp.Violation {
			continue
		}
		if strings.Contains(string(plan), f[3]) || strings.Contains(rp.Detail, f[3]) {
			return f[4]
		}
	}
	return ""
}

func replayMain(args []string) {
	c := &runner{self: selfPath()}
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	fs.StringVar(&c.scratch, "scratch", "", "")
	fs.StringVar(&c.race, "race", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatalf("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatalf("%v", err)
	}
	c.prop = rp.Property
	v, err := c.fresh(&rp, 2*time.Minute)
	switch {
	case err != nil && rp.Violation == "crash" && err != errWatchdog:
		fmt.Printf("replayed: %v\n", err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fs.Arg(0))
		os.Exit(1)
	case err != nil:
		fatalf("%v", err)
	case v.Violation != "":
		fmt.Printf("replayed: %s: %s\n", v.Violation, v.Detail)
		if v.Violation != rp.Violation || v.Detail != rp.Detail {
			fmt.Printf("note: recorded as %s: %s\n", rp.Violation, rp.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fs.Arg(0))
		os.Exit(1)
	}
	fmt.Printf("the replay shows no violation on this tree\n")
}
