package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// reproduce confirms what a worker found in a fresh process and minimises it.
// It returns the replay, or why there is none.
func (c *runner) reproduce(e *workerEnd, start, stride uint64) (*Replay, string) {
	if e.hung {
		return nil, fmt.Sprintf("watchdog: run %d gave no answer", e.index)
	}
	crash := e.rep == nil
	index := e.index
	class := "crash"
	if !crash {
		index = e.rep.Index
		class = e.rep.Verdict.Violation
	}
	rp := &Replay{Property: c.prop, Seed: c.seed, Index: index, Violation: class, Plan: genPlan(c.prop, c.seed, index)}
	m := &minimizer{c: c, class: class, until: time.Now().Add(25 * time.Second), left: 600}
	if m.try(rp.Plan) {
		p := m.shrink(rp.Plan)
		// once more, twice, to be sure
		if !m.force(p) || !m.force(p) {
			p = rp.Plan
		}
		if !m.force(p) {
			return nil, fmt.Sprintf("run %d (%s) does not replay reliably", index, class)
		}
		rp.Plan = p
		rp.Detail = m.detail
		rp.Minimised = true
		rp.Note = fmt.Sprintf("minimised with %d evaluations", m.tried)
		return rp, ""
	}
	// it takes earlier runs in the same process
	var hist []uint64
	for i := start; i <= index; i += stride {
		hist = append(hist, i)
	}
	h := &Replay{Property: c.prop, Seed: c.seed, Index: index, Violation: class, History: hist}
	check := func(l []uint64) bool {
		h2 := *h
		h2.History = l
		v, err := c.fresh(&h2, 2*time.Minute)
		if crash {
			return err != nil && err != errWatchdog
		}
		if err == nil && v.Violation != "" {
			h.Detail, h.Violation = v.Detail, v.Violation
			return true
		}
		return false
	}
	if !check(hist) {
		why := "process died"
		if !crash {
			why = e.rep.Verdict.Violation + ": " + e.rep.Verdict.Detail
		} else {
			why += ": " + e.died
		}
		return nil, fmt.Sprintf("run %d (%s) could not be reproduced", index, why)
	}
	until := time.Now().Add(60 * time.Second)
	// drop runs from the history, in halving chunks
	for size := len(hist) / 2; size >= 1 && time.Now().Before(until); size /= 2 {
		for i := 0; i+size < len(hist) && time.Now().Before(until); {
			cand := append(append([]uint64{}, hist[:i]...), hist[i+size:]...)
			if check(cand) {
				hist = cand
			} else {
				i += size
			}
		}
	}
	h.History = hist
	if !check(hist) {
		return nil, fmt.Sprintf("the history of run %d does not replay reliably", index)
	}
	h.Minimised = true
	h.Note = "one run alone does not show it: these runs, one after the other in one process, do"
	return h, ""
}

type minimizer struct {
	c      *runner
	class  string
	until  time.Time
	left   int
	tried  int
	detail string
}

// force evaluates without regard to the budget.
func (m *minimizer) force(p *Plan) bool {
	v, err := m.c.fresh(&Replay{Property: p.Prop, Plan: p}, 60*time.Second)
	m.tried++
	if m.class == "crash" {
		if err != nil && err != errWatchdog {
			m.detail = err.Error()
			return true
		}
		return false
	}
	if err == nil && v.Violation == m.class {
		m.detail = v.Detail
		return true
	}
	return false
}

func (m *minimizer) try(p *Plan) bool {
	if m.left <= 0 || time.Now().After(m.until) {
		return false
	}
	m.left--
	return m.force(p)
}

// shrink makes the plan smaller as long as it shows the same violation.
func (m *minimizer) shrink(p *Plan) *Plan {
	best := p.clone()
	attempt := func(f func(q *Plan) bool) bool {
		q := best.clone()
		if !f(q) {
			return false
		}
		if m.try(q) {
			best = q
			return true
		}
		return false
	}
	for round := 0; round < 3; round++ {
		before := size(best)
		// whole operations
		if best.Kind == "history" || best.Kind == "sessions" || strings.HasPrefix(best.Kind, "shared") || best.Kind == "tree" || best.Kind == "sinks" || best.Kind == "watch" || best.Kind == "tokens" && best.Prop == "C09" {
			for n := len(best.Ops) / 2; n >= 1; n /= 2 {
				for i := 0; i+n <= len(best.Ops) && len(best.Ops) > n; {
					if !attempt(func(q *Plan) bool {
						q.Ops = append(append([]*Op{}, q.Ops[:i]...), q.Ops[i+n:]...)
						return true
					}) {
						i += n
					}
				}
			}
		}
		// schedule
		attempt(func(q *Plan) bool { ok := len(q.Sched) > 0; q.Sched = nil; return ok })
		for n := len(best.Sched) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best.Sched); {
				if !attempt(func(q *Plan) bool {
					q.Sched = append(append([]Decision{}, q.Sched[:i]...), q.Sched[i+n:]...)
					return true
				}) {
					i += n
				}
			}
			if n == 1 {
				break
			}
		}
		attempt(func(q *Plan) bool { ok := len(q.GC) > 0; q.GC = nil; return ok })
		attempt(func(q *Plan) bool {
			ok := len(q.Rands) > 1
			if ok {
				q.Rands = q.Rands[:1]
			}
			return ok
		})
		attempt(func(q *Plan) bool { ok := len(q.L) > 0 && q.Prop == "C12"; q.L = nil; return ok })
		for i := range best.Ops {
			m.shrinkOp(attempt, func(q *Plan) *Op { return q.Ops[i] }, 0)
		}
		if len(best.Ops) > 1 && best.Prop != "C04" {
			m.shrinkSQL(attempt, &best, -1)
		}
		for i := range best.Ops {
			m.shrinkSQL(attempt, &best, i)
		}
		if size(best) >= before {
			break
		}
	}
	return best
}

func size(p *Plan) int {
	n := len(p.Sched)*3 + len(p.GC)
	for _, o := range p.Ops {
		n += opSize(o)
	}
	return n
}

func opSize(o *Op) int {
	n := 20 + len(o.SQL) + len(o.Calls)*3 + len(o.Acts)*10
	if o.Read != nil {
		n += 5 + len(o.Read.Chunks)
	}
	for _, a := range o.Acts {
		if a.Op != nil {
			n += opSize(a.Op)
		}
	}
	return n
}

func (m *minimizer) shrinkOp(attempt func(func(*Plan) bool) bool, get func(*Plan) *Op, depth int) {
	do := func(f func(o *Op) bool) { attempt(func(q *Plan) bool { return f(get(q)) }) }
	do(func(o *Op) bool { ok := o.Kill != 0; o.Kill = 0; return ok })
	do(func(o *Op) bool { ok := o.Read != nil; o.Read = nil; return ok })
	do(func(o *Op) bool {
		if o.Read == nil || len(o.Read.Chunks) == 0 {
			return false
		}
		o.Read.Chunks = nil
		return true
	})
	do(func(o *Op) bool {
		if o.Read == nil || o.Read.Rest == 0 {
			return false
		}
		o.Read.Rest = 0
		return true
	})
	do(func(o *Op) bool {
		if o.Read == nil || !o.Read.With {
			return false
		}
		o.Read.With = false
		return true
	})
	do(func(o *Op) bool {
		if o.Read == nil || !o.Read.Scribble {
			return false
		}
		o.Read.Scribble = false
		return true
	})
	do(func(o *Op) bool {
		if o.Read == nil || o.Read.Wrap == "" {
			return false
		}
		o.Read.Wrap = ""
		return true
	})
	do(func(o *Op) bool { ok := o.Repeat > 1; o.Repeat = 0; return ok })
	do(func(o *Op) bool { ok := o.Extra > 1; o.Extra = 1; return ok })
	do(func(o *Op) bool { ok := o.Comments; o.Comments = false; return ok })
	do(func(o *Op) bool { ok := o.Node != 0; o.Node = 0; return ok })
	do(func(o *Op) bool { ok := o.Edits != 0; o.Edits = 0; return ok })
	do(func(o *Op) bool { ok := o.Odd; o.Odd = false; return ok })
	do(func(o *Op) bool { ok := o.Shared; o.Shared = false; return ok })
	do(func(o *Op) bool { ok := o.Dialect != "generic"; o.Dialect = "generic"; return ok })
	for {
		n := 0
		do(func(o *Op) bool { n = len(o.Acts); return false })
		removed := false
		for i := 0; i < n; i++ {
			i := i
			if attempt(func(q *Plan) bool {
				o := get(q)
				if i >= len(o.Acts) || m.c.prop == "C21" && depth == 0 {
					return false
				}
				o.Acts = append(append([]Act{}, o.Acts[:i]...), o.Acts[i+1:]...)
				return true
			}) {
				removed = true
				break
			}
		}
		if !removed {
			break
		}
	}
	// calls after the first
	for i := 5; i >= 1; i-- {
		i := i
		do(func(o *Op) bool {
			if i >= len(o.Calls) {
				return false
			}
			o.Calls = append(append([]string{}, o.Calls[:i]...), o.Calls[i+1:]...)
			return true
		})
	}
	if depth < 3 {
		for i := 0; i < 3; i++ {
			i := i
			has := false
			do(func(o *Op) bool { has = i < len(o.Acts) && o.Acts[i].Op != nil; return false })
			if has {
				m.shrinkOp(attempt, func(q *Plan) *Op { return get(q).Acts[i].Op }, depth+1)
			}
		}
	}
}

// shrinkSQL drops parts of the text of one operation, or with which < 0 the
// same parts of all operations that have the same text.
func (m *minimizer) shrinkSQL(attempt func(func(*Plan) bool) bool, best **Plan, which int) {
	idx := which
	if idx < 0 {
		idx = 0
	}
	for n := len((*best).Ops[idx].SQL) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len((*best).Ops[idx].SQL); {
			if m.left <= 0 || time.Now().After(m.until) {
				return
			}
			if !attempt(func(q *Plan) bool {
				s := q.Ops[idx].SQL
				for j, o := range q.Ops {
					if j != idx && (which >= 0 || o.SQL != s) {
						continue
					}
					cutOp(o, i, n)
				}
				if q.Prop == "C04" || q.Prop == "C20" {
					// offsets into the text
					return false
				}
				return true
			}) {
				i += n
			}
		}
	}
}

func cutOp(o *Op, i, n int) {
	o.SQL = o.SQL[:i] + o.SQL[i+n:]
	if o.Read != nil {
		for _, p := range []*int{&o.Read.FailAt, &o.Read.StallAt} {
			if *p >= i+n {
				*p -= n
			} else if *p > i {
				*p = i
			}
		}
	}
}

// raceReport is the text of the race reports written since the last call.
func raceReport() string {
	f := filepath.Join(scratchDir(), fmt.Sprintf("race.%d", os.Getpid()))
	b, err := os.ReadFile(f)
	if err != nil {
		return ""
	}
	s := string(b[raceRead:])
	raceRead = len(b)
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") || strings.Contains(l, "xsqlparser") {
			if i := strings.Index(l, " by goroutine"); i >= 0 {
				l = l[:i]
			}
			if i := strings.Index(l, " at 0x"); i >= 0 {
				l = l[:i]
			}
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			keep = append(keep, l)
			if len(keep) > 14 {
				break
			}
		}
	}
	return strings.Join(keep, " | ")
}

var raceRead int
