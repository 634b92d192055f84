package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

type DKind uint8

const (
	DBranch DKind = iota // v: 0/1, constraint added
	DForced              // v: 0/1, implied by the path condition
	DVal                 // concretised value v, equality added
	DValForced
	DAssert // v=1: condition added after a violation query
)

type Decision struct {
	K DKind
	V uint64
}

type WorkItem struct {
	prefix []Decision
}

// Path is the symbolic state that belongs to one execution path.
type Path struct {
	st      *TermStore
	sol     *Solver
	prefix  []Decision
	taken   []Decision
	pc      []*Term
	dom     map[int32]*[4]uint64
	rel     map[int32]bool
	relAll  bool
	vars    []int32
	model   Assign
	alts    []WorkItem
	where   func() string
	unknown bool // a feasibility query was not decided
	stats   *Stats
	queries int
}

// VX_PROFILE=1 reports where solver queries come from.
var (
	profile  map[string]*profEnt
	profLock sync.Mutex
)

type profEnt struct {
	n int
	d time.Duration
}

func profileAdd(where string, d time.Duration) {
	profLock.Lock()
	defer profLock.Unlock()
	e := profile[where]
	if e == nil {
		e = &profEnt{}
		profile[where] = e
	}
	e.n++
	e.d += d
}

func profileDump() {
	var ks []string
	for k := range profile {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profile[ks[i]].d > profile[ks[j]].d })
	for i, k := range ks {
		if i == 25 {
			break
		}
		fmt.Fprintf(os.Stderr, "%8d %8.1fs %s\n", profile[k].n, profile[k].d.Seconds(), k)
	}
}

func init() {
	if os.Getenv("VX_PROFILE") != "" {
		profile = map[string]*profEnt{}
	}
}

type Stats struct {
	Branches  int
	Forced    int
	QuickHits int
	Forks     int
}

type pathEnd struct {
	reason string // "assume", "unsupported", "limit", "infeasible"
	msg    string
}

func newPath(st *TermStore, sol *Solver, prefix []Decision, stats *Stats) *Path {
	return &Path{st: st, sol: sol, prefix: prefix, dom: map[int32]*[4]uint64{}, rel: map[int32]bool{}, model: Assign{}, stats: stats}
}

func (p *Path) replaying() bool { return len(p.taken) < len(p.prefix) }

func (p *Path) next() (Decision, bool) {
	if len(p.taken) < len(p.prefix) {
		d := p.prefix[len(p.taken)]
		p.taken = append(p.taken, d)
		return d, true
	}
	return Decision{}, false
}

func (p *Path) newVar(name string, w int, allowed []uint64) *Term {
	if len(allowed) > 0 && w == 8 {
		lo, hi := allowed[0], allowed[0]
		for _, v := range allowed {
			lo, hi = min(lo, v), max(hi, v)
		}
		return p.addVar(p.st.VarIn(name, w, int64(lo), int64(hi)), name, w, allowed)
	}
	return p.addVar(p.st.Var(name, w), name, w, allowed)
}

// newInt is a 64-bit variable within lo..hi (signed).
func (p *Path) newInt(name string, lo, hi int64) *Term {
	t := p.addVar(p.st.VarIn(name, 64, lo, hi), name, 64, nil)
	if p.model != nil {
		p.model[int32(t.val)] = uint64(lo)
	}
	// built directly: the comparisons would be simplified away by the range
	st := p.st
	p.Assume(st.And(st.mk(ONot, SBool, 0, st.mk(OSlt, SBool, 0, t, st.BV(uint64(lo), 64))), st.mk(ONot, SBool, 0, st.mk(OSlt, SBool, 0, st.BV(uint64(hi), 64), t))))
	return t
}

func (p *Path) addVar(t *Term, name string, w int, allowed []uint64) *Term {
	id := int32(t.val)
	if _, ok := p.dom[id]; ok {
		panic("variable created twice on a path: " + name)
	}
	p.vars = append(p.vars, id)
	if w <= 8 && w >= 0 {
		n := 1 << uint(w)
		if w == SBool {
			n = 2
		}
		var d [4]uint64
		if allowed == nil {
			for i := 0; i < n; i++ {
				d[i>>6] |= 1 << uint(i&63)
			}
		} else {
			for _, v := range allowed {
				d[v>>6] |= 1 << uint(v&63)
			}
		}
		p.dom[id] = &d
		if allowed != nil && len(allowed) < n {
			p.pc = append(p.pc, p.domTerm(t, allowed))
		}
	} else {
		p.dom[id] = nil
		p.rel[id] = true
	}
	if p.model != nil {
		if allowed != nil {
			p.model[id] = allowed[0]
		} else {
			p.model[id] = 0
		}
	}
	return t
}

// membership of a byte variable in a set, as ranges
func (p *Path) domTerm(t *Term, allowed []uint64) *Term {
	a := append([]uint64(nil), allowed...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	var ors []*Term
	st := p.st
	for i := 0; i < len(a); {
		j := i
		for j+1 < len(a) && a[j+1] <= a[j]+1 {
			j++
		}
		if a[i] == a[j] {
			ors = append(ors, st.Eq(t, st.BV(a[i], t.w)))
		} else {
			ors = append(ors, st.And(st.Cmp(OUle, st.BV(a[i], t.w), t), st.Cmp(OUle, t, st.BV(a[j], t.w))))
		}
		i = j + 1
	}
	return st.Or(ors...)
}

func (p *Path) add(c *Term) {
	if c.isTrue() {
		return
	}
	p.pc = append(p.pc, c)
	p.absorb(c)
	if p.model != nil && p.evalModel(c) == 0 {
		p.model = nil
	}
}

func (p *Path) absorb(c *Term) {
	if c.op == OAnd {
		for _, a := range c.args {
			p.absorb(a)
		}
		return
	}
	if c.op == ONot && c.args[0].op == OOr {
		for _, a := range c.args[0].args {
			p.absorb(p.st.Not(a))
		}
		return
	}
	if tab := p.st.table(c); tab != nil {
		v := c.vars[0]
		d := *p.dom[v]
		for i := range d {
			d[i] &= tab[i]
		}
		p.dom[v] = &d
		return
	}
	if c.many {
		p.relAll = true
		return
	}
	for _, v := range c.vars {
		p.rel[v] = true
	}
}

func (p *Path) evalModel(t *Term) uint64 {
	memo := map[int]uint64{}
	return t.eval(func(v int32) uint64 { return p.model[v] }, memo)
}

// quick decides a condition with the per-variable domains.
// mayT/mayF are over-approximations; exact says they are precise.
func (p *Path) quick(c *Term) (mayT, mayF, exact bool) {
	if c.isConst() {
		return c.val == 1, c.val == 0, true
	}
	if tab := p.st.table(c); tab != nil {
		v := c.vars[0]
		d := p.dom[v]
		if d == nil {
			return true, true, false
		}
		for i := range d {
			if d[i]&tab[i] != 0 {
				mayT = true
			}
			if d[i]&^tab[i] != 0 {
				mayF = true
			}
		}
		exact = !p.relAll && !p.rel[v]
		if mayT != mayF {
			exact = true
		}
		return
	}
	switch c.op {
	case ONot:
		f, t, e := p.quick(c.args[0])
		return t, f, e
	case OAnd, OOr:
		if len(c.args) > 600 {
			return true, true, false
		}
		isAnd := c.op == OAnd
		allT, anyF := true, false
		ex := !c.many
		seen := map[int32]bool{}
		for _, a := range c.args {
			t, f, e := p.quick(a)
			if !isAnd {
				t, f = f, t
			}
			if !t {
				// conjunct impossible
				if isAnd {
					return false, true, true
				}
				return true, false, true
			}
			if f {
				anyF = true
			}
			if !e {
				ex = false
			}
			for _, v := range a.vars {
				if seen[v] {
					ex = false
				}
				seen[v] = true
			}
		}
		if !anyF {
			ex = true
		}
		if isAnd {
			return allT, anyF, ex
		}
		return anyF, allT, ex
	}
	return true, true, false
}

// decided replaces a condition that the variable domains decide by its value.
func (p *Path) decided(c *Term) *Term {
	t, f, _ := p.quick(c)
	if !t && f {
		return p.st.False
	}
	if t && !f {
		return p.st.True
	}
	return c
}

// feasible asks whether the path condition plus c can hold.
func (p *Path) feasible(c *Term) SatResult {
	t, _, exact := p.quick(c)
	if !t {
		return UNSAT
	}
	if exact {
		p.stats.QuickHits++
		return SAT
	}
	if p.model != nil && p.evalModel(c) == 1 {
		return SAT
	}
	m := Assign{}
	t0 := time.Now()
	r := p.sol.Check(p.pc, []*Term{c}, m, p.vars)
	p.queries++
	if profile != nil && p.where != nil {
		profileAdd(p.where(), time.Since(t0))
	}
	if r == SAT && p.model == nil {
		p.model = m
	}
	return r
}

// Branch decides a symbolic condition, forking if both outcomes are possible.
func (p *Path) Branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if d, ok := p.next(); ok {
		switch d.K {
		case DBranch:
			if d.V == 1 {
				p.add(c)
			} else {
				p.add(p.st.Not(c))
			}
		case DForced:
		default:
			panic(fmt.Sprintf("decision mismatch: branch vs %v at %d", d, len(p.taken)))
		}
		return d.V == 1
	}
	p.stats.Branches++
	ft := p.feasible(c)
	if ft == UNSAT {
		p.stats.Forced++
		p.taken = append(p.taken, Decision{DForced, 0})
		return false
	}
	nc := p.st.Not(c)
	ff := p.feasible(nc)
	if ff == UNSAT {
		p.stats.Forced++
		p.taken = append(p.taken, Decision{DForced, 1})
		return true
	}
	if ft == UNKNOWN || ff == UNKNOWN {
		p.unknown = true
	}
	p.stats.Forks++
	// prefer the side of the current model so that it stays valid
	first := true
	if p.model != nil && p.evalModel(c) == 0 {
		first = false
	}
	alt := append(append([]Decision(nil), p.taken...), Decision{DBranch, b2u(!first)})
	p.alts = append(p.alts, WorkItem{alt})
	p.taken = append(p.taken, Decision{DBranch, b2u(first)})
	if first {
		p.add(c)
	} else {
		p.add(nc)
	}
	return first
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Concretize forks over all values of t.
func (p *Path) Concretize(t *Term, limit int) uint64 {
	if t.isConst() {
		return t.val
	}
	if d, ok := p.next(); ok {
		switch d.K {
		case DVal:
			p.add(p.eqv(t, d.V))
		case DValForced:
		default:
			panic(fmt.Sprintf("decision mismatch: value vs %v", d))
		}
		return d.V
	}
	var vals []uint64
	done := false
	if !t.many && len(t.vars) == 1 {
		v := t.vars[0]
		if d := p.dom[v]; d != nil && !p.relAll && !p.rel[v] {
			seen := map[uint64]bool{}
			for i := 0; i < 256; i++ {
				if d[i>>6]>>(uint(i)&63)&1 == 1 {
					x := t.eval(func(int32) uint64 { return uint64(i) }, nil)
					if !seen[x] {
						seen[x] = true
						vals = append(vals, x)
					}
				}
			}
			p.stats.QuickHits++
			done = true
		}
	}
	if !done {
		var block []*Term
		for {
			m := Assign{}
			r := p.sol.Check(p.pc, block, m, p.vars)
			p.queries++
			if r == UNKNOWN {
				panic(pathEnd{"unsupported", "solver undecided while enumerating a value"})
			}
			if r == UNSAT {
				break
			}
			memo := map[int]uint64{}
			x := t.eval(func(v int32) uint64 { return m[v] }, memo)
			vals = append(vals, x)
			block = append(block, p.st.Not(p.eqv(t, x)))
			if len(vals) > limit {
				panic(pathEnd{"unsupported", fmt.Sprintf("more than %d values to enumerate", limit)})
			}
		}
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible", ""})
	}
	if len(vals) > limit {
		panic(pathEnd{"unsupported", fmt.Sprintf("more than %d values to enumerate", limit)})
	}
	if len(vals) == 1 {
		p.taken = append(p.taken, Decision{DValForced, vals[0]})
		return vals[0]
	}
	pick := 0
	if p.model != nil {
		x := p.evalModel(t)
		for i, v := range vals {
			if v == x {
				pick = i
			}
		}
	}
	for i := len(vals) - 1; i >= 0; i-- {
		if i == pick {
			continue
		}
		alt := append(append([]Decision(nil), p.taken...), Decision{DVal, vals[i]})
		p.alts = append(p.alts, WorkItem{alt})
	}
	p.stats.Forks++
	p.taken = append(p.taken, Decision{DVal, vals[pick]})
	p.add(p.eqv(t, vals[pick]))
	return vals[pick]
}

func (p *Path) eqv(t *Term, v uint64) *Term {
	if t.w == SBool {
		if v == 1 {
			return t
		}
		return p.st.Not(t)
	}
	if t.w == SF64 {
		return p.st.mk(OEq, SBool, 0, t, p.st.mk(OConst, SF64, v))
	}
	return p.st.Eq(t, p.st.BV(v, t.w))
}

// Assume restricts the path; ends it when the condition cannot hold.
func (p *Path) Assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	if !p.replaying() {
		if p.feasible(c) == UNSAT {
			panic(pathEnd{"assume", ""})
		}
	}
	p.add(c)
}
