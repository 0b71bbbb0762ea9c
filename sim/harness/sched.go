package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	_ "unsafe"

	"github.com/akito0107/xsqlparser/verifhook"
)

// not the simulated clock
//
//go:linkname nanotime runtime.nanotime
func nanotime() int64

//go:linkname simRandState runtime.SimRandState
var simRandState uint64

// Decision is one choice of the scheduler: run task Pick (modulo the number of
// runnable tasks) for at most Steps steps, or, if Steps is negative, until it
// comes to the -Steps'th call of caller code (source, sink, visitor, dialect).
type Decision struct {
	Pick  int   `json:"pick"`
	Steps int64 `json:"steps"`
}

type taskState int

const (
	tsReady   taskState = iota
	tsParked            // parked at a yield point, runnable
	tsWaiting           // waiting for cond
	tsRunning
	tsStuck // blocked inside the Go runtime, or ended without telling (foreign)
	tsDone
)

// Task is one simulated goroutine of the caller.
type Task struct {
	Name    string
	fn      func()
	wake    chan struct{}
	state   taskState
	cond    func() bool
	g       uintptr
	foreign bool
	why     string // why it is stuck

	steps   int64 // steps taken
	limit   int64 // step budget; beyond it the task counts as hung
	killAt  int64 // end the task (runtime.Goexit) in this call of caller code, 0 never
	calls   int64 // calls of caller code so far
	quantum int64
	bound   int64   // caller calls until the task is parked, 0 for none
	gcAt    []int64 // run the garbage collector at these steps of the task

	killed   bool
	hung     bool
	aborting bool
	panicked bool
	panicVal interface{}
	stack    string
	goexit   bool
	ended    chan struct{}
}

// Sched runs tasks one at a time. Every switch is decided by the decision list.
type Sched struct {
	tasks     []*Task
	cur       *Task
	decisions []Decision
	di        int
	switches  int
	total     int64
	trace     []byte
	traceHash uint64
	deadlock  bool
	blocked   []string
	abandoned bool
}

var theSched *Sched

// A plan whose work comes near the step limit with one part and exceeds it
// with another says nothing: a hang shows where the same work done otherwise
// ends far below the limit.
var (
	edgeHung  bool
	edgeSteps int64
)

func init() {
	verifhook.Slow = hookSlow
	verifhook.Foreign = hookForeign
}

const idleSteps = int64(1) << 62

//go:norace
func hookSlow() {
	s := theSched
	if s == nil || s.cur == nil {
		verifhook.Ctr = idleSteps
		return
	}
	t := s.cur
	s.account(t)
	if t.limit > 0 && t.steps >= t.limit && !t.aborting {
		t.hung = true
		if t.limit == defaultLimit {
			edgeHung = true
		}
		t.aborting = true
		buf := make([]byte, 4096)
		t.stack = string(buf[:runtime.Stack(buf, false)])
		s.arm(t)
		runtime.Goexit()
	}
	for len(t.gcAt) > 0 && t.steps >= t.gcAt[0] {
		t.gcAt = t.gcAt[1:]
		collect()
	}
	if t.quantum > 0 {
		// budget, kill or GC point inside the quantum: go on
		s.arm(t)
		return
	}
	t.state = tsParked
	s.park(t)
}

// account books the steps taken since arm.
//
//go:norace
func (s *Sched) account(t *Task) {
	used := t.armed() - verifhook.Ctr
	t.steps += used
	t.quantum -= used
	s.total += used
	verifhook.Ctr = idleSteps
	armedSteps = idleSteps
}

var armedSteps int64

//go:norace
func (t *Task) armed() int64 { return armedSteps }

// arm sets the counter to the next event of the task.
//
//go:norace
func (s *Sched) arm(t *Task) {
	n := t.quantum
	if n < 1 {
		n = 1
	}
	if !t.aborting {
		if t.limit > 0 && t.limit-t.steps < n {
			n = t.limit - t.steps
		}
	}
	if len(t.gcAt) > 0 && t.gcAt[0]-t.steps < n {
		n = t.gcAt[0] - t.steps
	}
	if n < 0 {
		n = 0
	}
	verifhook.Ctr = n
	armedSteps = n
}

// park gives control back to the scheduler and waits to be picked again.
//
//go:norace
func (s *Sched) park(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	s.arm(t)
}

// Yield is a yield point of the simulated caller code.
//
//go:norace
func Yield() {
	// A task never ends or is thrown out of the middle of library code: Go has no
	// way to do that. It may only be held up there.
	if s := theSched; s != nil && s.cur != nil && (s.cur.bound > 0 || s.cur.killAt > 0) && verifhook.G() == s.cur.g {
		t := s.cur
		t.calls++
		if t.killAt > 0 && t.calls >= t.killAt && !t.aborting {
			t.killed = true
			t.aborting = true
			s.account(t)
			s.arm(t)
			runtime.Goexit()
		}
		if t.bound > 0 {
			t.bound--
			if t.bound == 0 && !t.aborting {
				s.account(t)
				t.quantum = 0
				t.state = tsParked
				s.park(t)
				return
			}
		}
	}
	verifhook.Y()
}

// Block parks the current task until cond holds.
//
//go:norace
func Block(cond func() bool) {
	s := theSched
	if s == nil || s.cur == nil {
		panic("sim: Block outside of a simulation")
	}
	Yield()
	t := s.cur
	for !cond() {
		s.account(t)
		t.cond = cond
		t.state = tsWaiting
		s.park(t)
		t.cond = nil
	}
}

// hookForeign is called by a goroutine that is not scheduled now: one started by
// the library, or one that the library unblocked. It waits for its turn.
//
//go:norace
func hookForeign() {
	s := theSched
	if s == nil {
		return
	}
	g := verifhook.G()
	var t *Task
	for _, x := range s.tasks {
		if x.g == g && x.state != tsDone {
			t = x
		}
	}
	if t == nil {
		t = &Task{Name: fmt.Sprintf("library-%d", len(s.tasks)), wake: make(chan struct{}), g: g, foreign: true, limit: foreignLimit}
		s.tasks = append(s.tasks, t)
	}
	if t.state == tsRunning {
		return
	}
	t.state = tsParked
	raceDisable()
	<-t.wake
	raceEnable()
	// the scheduler armed the counter
}

const foreignLimit = 50_000_000

// AddTask adds a task before Run.
func (s *Sched) AddTask(name string, limit int64, fn func()) *Task {
	t := &Task{Name: name, fn: fn, wake: make(chan struct{}), limit: limit, ended: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	return t
}

func (s *Sched) taskMain(t *Task, wg *sync.WaitGroup) {
	normal := false
	defer func() {
		taskEnd(s, t, normal)
		wg.Done()
	}()
	taskStart(s, t)
	func() {
		defer func() {
			if normal {
				return
			}
			if r := recover(); r != nil {
				notePanic(t, r)
			}
		}()
		t.fn()
		normal = true
	}()
}

//go:norace
func notePanic(t *Task, r interface{}) {
	t.panicked = true
	t.panicVal = r
	buf := make([]byte, 8192)
	t.stack = string(buf[:runtime.Stack(buf, false)])
}

//go:norace
func taskStart(s *Sched, t *Task) {
	t.g = verifhook.G()
	raceDisable()
	<-t.wake
	raceEnable()
	s.arm(t)
}

//go:norace
func taskEnd(s *Sched, t *Task, normal bool) {
	if s.cur == t {
		s.account(t)
	}
	if !normal && !t.panicked {
		t.goexit = true
	}
	t.state = tsDone
	if t.limit == defaultLimit && !t.hung && t.steps > edgeSteps {
		edgeSteps = t.steps
	}
}

const stuckSpins = 50

// Run runs all tasks to their end.
func (s *Sched) Run() {
	if theSched != nil {
		panic("sim: nested simulation")
	}
	var wg sync.WaitGroup
	for _, t := range s.tasks {
		wg.Add(1)
		go s.taskMain(t, &wg)
	}
	// let every task reach its start
	for _, t := range s.tasks {
		waitStarted(t)
	}
	theSched = s
	s.loop()
	theSched = nil
	verifhook.Cur = 0
	verifhook.Ctr = idleSteps
	s.cur = nil
	if !s.deadlock && !s.abandoned {
		wg.Wait()
	}
}

//go:norace
func waitStarted(t *Task) {
	for t.g == 0 {
		runtime.Gosched()
	}
	runtime.Gosched()
}

//go:norace
func (s *Sched) loop() {
	s.traceHash = 14695981039346656037
	for {
		var runnable []*Task
		live := 0
		for _, t := range s.tasks {
			switch t.state {
			case tsReady, tsParked:
				runnable = append(runnable, t)
			case tsWaiting:
				if t.cond() {
					runnable = append(runnable, t)
				}
			}
			if !t.foreign && t.state != tsDone {
				live++
			}
		}
		if len(runnable) == 0 {
			if live == 0 {
				return
			}
			// a goroutine unblocked by the library may still be on its way to a yield point
			again := false
			start := nanotime()
			for i := 0; !again; i++ {
				runtime.Gosched()
				again = s.liveCount() == 0
				for _, t := range s.tasks {
					again = again || t.state == tsParked || t.state == tsReady
				}
				if i >= 3*stuckSpins && (!s.timed() || nanotime()-start > 3e9) {
					break
				}
			}
			if again {
				continue
			}
			s.deadlock = true
			for _, t := range s.tasks {
				if t.state != tsDone {
					s.blocked = append(s.blocked, t.Name+" ("+t.why+")")
				}
			}
			return
		}
		if live == 0 && s.onlyForeignLong() {
			s.abandoned = false
			return
		}
		var d Decision
		if s.di < len(s.decisions) {
			d = s.decisions[s.di]
			s.di++
		} else {
			d = Decision{0, 1 << 40}
			if verifhook.Conc {
				d.Pick = s.switches
				d.Steps = 5000
			}
		}
		t := runnable[d.Pick%len(runnable)]
		bound := int64(0)
		if d.Steps < 0 {
			bound = -d.Steps
			d.Steps = 1 << 40
		}
		if d.Steps < 1 {
			d.Steps = 1
		}
		s.switches++
		for i, x := range s.tasks {
			if x == t {
				s.traceHash = (s.traceHash ^ uint64(i+1)) * 1099511628211
			}
		}
		s.traceHash = (s.traceHash ^ uint64(s.total)) * 1099511628211
		t.state = tsRunning
		t.quantum = d.Steps
		t.bound = bound
		s.cur = t
		verifhook.Cur = t.g
		s.arm(t)
		raceDisable()
		t.wake <- struct{}{}
		raceEnable()
		last := verifhook.Ctr
		spins := 0
		for t.state == tsRunning {
			runtime.Gosched()
			if verifhook.Ctr != last {
				last = verifhook.Ctr
				spins = 0
			} else {
				spins++
			}
			if spins%stuckSpins != stuckSpins-1 || t.state != tsRunning {
				continue
			}
			dead, blocked, why := verifhook.Status(t.g)
			if blocked && t.state == tsRunning && spins > 3*stuckSpins {
				s.account(t)
				s.cur = nil
				t.state = tsStuck
				t.why = why
			}
			if dead && t.state == tsRunning {
				s.account(t)
				s.cur = nil
				t.state = tsDone
			}
		}
		s.cur = nil
		verifhook.Cur = 1
		verifhook.Ctr = idleSteps
	}
}

// timed tells whether a stuck task waits for something other than another task,
// or is on its way to a yield point.
//
//go:norace
func (s *Sched) timed() bool {
	for _, t := range s.tasks {
		if t.state != tsStuck {
			continue
		}
		dead, blocked, why := verifhook.Status(t.g)
		if !dead && (!blocked || why == "sleep" || why == "IO wait") {
			return true
		}
	}
	return false
}

//go:norace
func (s *Sched) liveCount() int {
	n := 0
	for _, t := range s.tasks {
		if !t.foreign && t.state != tsDone && t.state != tsStuck {
			n++
		}
		if !t.foreign && t.state == tsStuck {
			n++
		}
	}
	return n
}

// onlyForeignLong tells whether goroutines started by the library have gone on
// for very long after all tasks of the caller ended.
//
//go:norace
func (s *Sched) onlyForeignLong() bool { return s.switches > 2_000_000 }

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(realStderr, "sim: "+f+"\n", a...)
	os.Exit(3)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
