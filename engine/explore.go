package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Harness string         `json:"harness"`
	Label   string         `json:"label"`
	Known   string         `json:"known,omitempty"`
	Vars    map[string]any `json:"vars"`
	Detail  string         `json:"detail,omitempty"`
	mapOrd  bool
}

type Obs struct {
	label string
	v     Value
}


type knownRegion struct {
	id   string
	cond Value
}

type PathRun struct {
	harness    string
	violations []Violation
	asserts    int
	queried    int
	undecided  int
	covers     map[string]bool
	obs        []Obs
	known      []knownRegion
}

type Trace struct {
	Harness string         `json:"h"`
	Vars    map[string]any `json:"vars"`
	Obs     []string       `json:"obs"`
	Ended   string         `json:"ended"` // ok, panic, unsupported, limit
	mapOrd  bool
}

type HarnessResult struct {
	Name        string
	Paths       int
	Ended       map[string]int
	Unsup       map[string]int
	Violations  []Violation
	Asserts     int
	Discharged  int
	Undecided   int
	Covers      map[string]int
	Branches    int
	Forks       int
	QuickHits   int
	Queries     int
	Sat         int
	Unsat       int
	Unknown     int
	SolverTime  time.Duration
	Wall        time.Duration
	Unexplored  int
	Funcs       map[string]int
	Traces      []Trace
	MaxSteps    int
	SolverErrs  []string
	Vars        int
	UnknownPath int
	knownSeen   map[string]int
}

type Explorer struct {
	eng      *Engine
	fn       *ssa.Function
	name     string
	tier     int
	workers  int
	budget   time.Duration
	maxPaths int
	maxSteps int
	maxTrace int
	knownIDs map[string]string
	seed     int64
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []WorkItem
	active   int
	stop     bool
	res      *HarnessResult
	vioCount map[string]int
	deadline time.Time
	timedOut atomic.Bool
}

func (x *Explorer) Run() *HarnessResult {
	x.cond = sync.NewCond(&x.mu)
	x.res = &HarnessResult{Name: x.name, Ended: map[string]int{}, Unsup: map[string]int{}, Covers: map[string]int{}, Funcs: map[string]int{}, knownSeen: map[string]int{}}
	x.vioCount = map[string]int{}
	x.stack = []WorkItem{{}}
	t0 := time.Now()
	x.deadline = t0.Add(x.budget)
	var wg sync.WaitGroup
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.worker(i)
		}(i)
	}
	wg.Wait()
	x.res.Unexplored = len(x.stack)
	x.res.Wall = time.Since(t0)
	return x.res
}

func (x *Explorer) worker(id int) {
	var st *TermStore
	var sol *Solver
	fin := func() {
		if sol == nil {
			return
		}
		sol.Close()
		x.mu.Lock()
		x.res.Queries += sol.Queries
		x.res.Sat += sol.Sat
		x.res.Unsat += sol.Unsat
		x.res.Unknown += sol.Unknown
		x.res.SolverTime += sol.Time
		x.res.SolverErrs = append(x.res.SolverErrs, sol.errs...)
		if len(st.vars) > x.res.Vars {
			x.res.Vars = len(st.vars)
		}
		x.mu.Unlock()
		sol = nil
	}
	defer fin()
	for {
		x.mu.Lock()
		for len(x.stack) == 0 && x.active > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.stack) == 0 {
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		if time.Now().After(x.deadline) || x.res.Paths >= x.maxPaths {
			x.stop = true
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		it := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.active++
		x.mu.Unlock()

		if st == nil || st.n > 1_500_000 {
			fin()
			st = NewTermStore()
			sol = NewSolver(st, 20000)
		}
		x.runPath(st, sol, it)
	}
}

func (x *Explorer) runPath(st *TermStore, sol *Solver, it WorkItem) {
	stats := &Stats{}
	p := newPath(st, sol, it.prefix, stats)
	run := &PathRun{harness: x.name, covers: map[string]bool{}}
	m := &Machine{eng: x.eng, st: st, p: p, globals: map[*ssa.Global]*Value{}, clone: newCloner(), maxSteps: x.maxSteps,
		names: map[string]int{}, run: run, hit: map[*ssa.Function]int{}, prov: map[int]Value{}, side: map[any]any{}}
	if profile != nil {
		p.where = m.where
	}
	m.side["tier"] = x.tier
	m.side["known"] = x.knownIDs
	m.side["deadline"] = x.deadline
	ended, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			m.killCoros()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				ended, msg = r.reason, r.msg
			case targetPanic:
				ended = "panic"
				msg = m.describePanic(r.v) + " at " + m.where()
				func() {
					defer func() {
						if r := recover(); r != nil {
							if pe, ok := r.(pathEnd); ok {
								ended, msg = pe.reason, pe.msg
								return
							}
							panic(r)
						}
					}()
					m.doAssert(false, "no panic", msg)
				}()
			default:
				ended = "engine"
				msg = fmt.Sprint(r) + " at " + m.where()
				if os.Getenv("VX_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "ENGINE", msg, string(debug.Stack()))
				}
			}
		}()
		m.callSSA(nil, x.fn, nil, nil)
	}()
	if os.Getenv("VX_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "PATH %s ended=%s msg=%s decisions=%d alts=%d steps=%d queries=%d model=%v\n", x.name, ended, msg, len(p.taken), len(p.alts), m.steps, p.queries, modelByName(p, p.model))
	}
	x.mu.Lock()
	want := ended != "assume" && ended != "infeasible" && len(x.res.Traces) < x.maxTrace
	x.mu.Unlock()
	var tr *Trace
	if want {
		mdl := Assign{}
		r := SAT
		if len(p.vars) > 0 {
			r = sol.Check(p.pc, nil, mdl, p.vars)
		}
		if r == SAT {
			t := Trace{Harness: x.name, Vars: modelByName(p, mdl), Ended: ended}
			ev := &evaluator{m: m, as: func(v int32) uint64 { return mdl[v] }, memo: map[int]uint64{}}
			for _, o := range run.obs {
				t.Obs = append(t.Obs, o.label+"="+ev.show(o.v))
			}
			for k := range t.Vars {
				if strings.HasPrefix(k, "maporder") {
					t.mapOrd = true
				}
			}
			tr = &t
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	r := x.res
	r.Paths++
	r.Ended[ended]++
	if ended == "unsupported" || ended == "limit" || ended == "engine" {
		r.Unsup[ended+": "+msg]++
	}
	if p.unknown {
		r.UnknownPath++
	}
	for _, v := range run.violations {
		k := v.Label + "|" + v.Known
		x.vioCount[k]++
		if v.Known != "" {
			r.knownSeen[v.Known]++
		}
		if x.vioCount[k] <= 6 {
			r.Violations = append(r.Violations, v)
		}
	}
	r.Asserts += run.asserts
	r.Discharged += run.queried
	r.Undecided += run.undecided
	for c := range run.covers {
		r.Covers[c]++
	}
	r.Branches += stats.Branches
	r.Forks += stats.Forks
	r.QuickHits += stats.QuickHits
	if m.steps > r.MaxSteps {
		r.MaxSteps = m.steps
	}
	for f, n := range m.hit {
		r.Funcs[f.String()] += n
	}
	if tr != nil && len(r.Traces) < x.maxTrace {
		r.Traces = append(r.Traces, *tr)
	}
	for _, a := range p.alts {
		x.stack = append(x.stack, a)
	}
	x.active--
	x.cond.Broadcast()
}

func modelByName(p *Path, mdl Assign) map[string]any {
	out := map[string]any{}
	for _, v := range p.vars {
		info := p.st.vars[v]
		if info.w == SF64 {
			out[info.name] = fmt.Sprintf("f%x", mdl[v])
			continue
		}
		out[info.name] = fmt.Sprintf("%d", mdl[v])
	}
	return out
}

func (m *Machine) describePanic(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.V.(string); ok {
			return s
		}
		if i.T == nil {
			return "nil"
		}
		return fmt.Sprintf("value of type %v", i.T)
	}
	return fmt.Sprint(v)
}

// doAssert checks a condition on the current path.
func (m *Machine) doAssert(cond Value, label, detail string) {
	p := m.p
	r := m.run
	ids, _ := m.side["known"].(map[string]string)
	var act []knownRegion
	for _, k := range r.known {
		if _, ok := ids[k.id]; ok {
			if b, isB := k.cond.(bool); isB && !b {
				continue
			}
			act = append(act, k)
		}
	}
	if d, ok := p.next(); ok {
		if d.K != DAssert {
			panic(fmt.Sprintf("decision mismatch: assert vs %v (%s)", d, label))
		}
		if d.V == 2 {
			panic(pathEnd{"assertfail", label})
		}
		if d.V == 1 {
			p.add(cond.(*Term))
		}
		return
	}
	r.asserts++
	var neg *Term
	switch c := cond.(type) {
	case bool:
		if c {
			p.taken = append(p.taken, Decision{DAssert, 0})
			r.queried++
			return
		}
		neg = m.st.True
	case *Term:
		neg = m.st.Not(c)
	}
	mapOrd := false
	for n := range m.names {
		if n == "maporder" {
			mapOrd = true
		}
	}
	ask := func(extra []*Term, known string) SatResult {
		mdl := Assign{}
		var res SatResult
		res = p.sol.Check(p.pc, extra, mdl, p.vars)
		p.queries++
		if res == SAT {
			r.violations = append(r.violations, Violation{Harness: r.harness, Label: label, Known: known, Vars: modelByName(p, mdl), Detail: detail, mapOrd: mapOrd})
		}
		return res
	}
	// outside every known region
	extra := []*Term{neg}
	var regs []*Term
	for _, k := range act {
		switch c := k.cond.(type) {
		case bool:
			regs = append(regs, m.st.Bool(c))
		case *Term:
			regs = append(regs, c)
		}
	}
	if len(regs) > 0 {
		extra = append(extra, m.st.Not(m.st.Or(regs...)))
	}
	sat := false
	switch ask(extra, "") {
	case SAT:
		sat = true
	case UNKNOWN:
		r.undecided++
		sat = true
	default:
		if len(regs) == 0 {
			r.queried++
		}
	}
	if len(regs) > 0 {
		for i, k := range act {
			if ask([]*Term{neg, regs[i]}, k.id) != UNSAT {
				sat = true
			}
		}
		r.queried++
	}
	if !sat {
		p.taken = append(p.taken, Decision{DAssert, 0})
		return
	}
	// continue on the side where the assertion holds
	c, isT := cond.(*Term)
	if !isT {
		p.taken = append(p.taken, Decision{DAssert, 2})
		panic(pathEnd{"assertfail", label})
	}
	if p.feasible(c) == UNSAT {
		p.taken = append(p.taken, Decision{DAssert, 2})
		panic(pathEnd{"assertfail", label})
	}
	p.taken = append(p.taken, Decision{DAssert, 1})
	p.add(c)
}

// evaluator renders values under a model, in the format of the native side.
type evaluator struct {
	m    *Machine
	as   func(int32) uint64
	memo map[int]uint64
}

func (e *evaluator) str(v Value) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i, x := range b {
		switch x := x.(type) {
		case uint64:
			out[i] = byte(x)
		case *Term:
			out[i] = byte(x.eval(e.as, e.memo))
		}
	}
	return string(out)
}

func (e *evaluator) show(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(v)
	case uint64:
		return fmt.Sprint(int64(v))
	case float64:
		return fmt.Sprintf("f%x", math.Float64bits(v))
	case string, *SymStr:
		return fmt.Sprintf("%q", e.str(v))
	case *Term:
		x := v.eval(e.as, e.memo)
		switch {
		case v.w == SBool:
			return fmt.Sprint(x == 1)
		case v.w == SF64:
			return fmt.Sprintf("f%x", x)
		}
		return fmt.Sprint(sext64(x, v.w))
	case Iface:
		if v.T == nil {
			return "nil"
		}
		if w, s, ok := typeIntWidth(v.T); ok {
			switch x := v.V.(type) {
			case uint64:
				return fmt.Sprint(int64(x))
			case *Term:
				y := x.eval(e.as, e.memo)
				return fmt.Sprint(int64(normInt(y, w, s)))
			}
		}
		return e.show(v.V)
	case Slice:
		if len(v) > 0 {
			if _, ok := v[0].(uint64); ok {
				return fmt.Sprintf("%q", e.str(mkStr(v)))
			}
			if t, ok := v[0].(*Term); ok && t.w == 8 {
				return fmt.Sprintf("%q", e.str(mkStr(v)))
			}
		} else {
			return "\"\""
		}
	}
	return fmt.Sprintf("%T", v)
}

func (r *HarnessResult) Summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: paths=%d ended=%v asserts=%d discharged=%d undecided=%d violations=%d branches=%d forks=%d quick=%d queries=%d(sat %d unsat %d unk %d) solver=%.1fs wall=%.1fs unexplored=%d maxsteps=%d covers=%d",
		r.Name, r.Paths, r.Ended, r.Asserts, r.Discharged, r.Undecided, len(r.Violations), r.Branches, r.Forks, r.QuickHits, r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverTime.Seconds(), r.Wall.Seconds(), r.Unexplored, r.MaxSteps, len(r.Covers))
	for _, k := range sortedKeys(r.Unsup) {
		fmt.Fprintf(&sb, "\n   [%d] %s", r.Unsup[k], k)
	}
	seen := map[string]int{}
	for _, v := range r.Violations {
		k := v.Label + "|" + v.Known
		seen[k]++
		if seen[k] > 2 {
			continue
		}
		b, _ := json.Marshal(v.Vars)
		fmt.Fprintf(&sb, "\n   VIOL label=%s known=%s %s %s", v.Label, v.Known, v.Detail, b)
	}
	if len(r.SolverErrs) > 0 {
		fmt.Fprintf(&sb, "\n   solver errors: %v", r.SolverErrs[0])
	}
	return sb.String()
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
