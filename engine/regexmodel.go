package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Model of package regexp. A compiled expression is an Opaque holding the
// compiled program of regexp/syntax. Symbolic pattern bytes are either
// concretised (when they can be metacharacters) or stand as placeholder runes
// in the program; matching a symbolic subject runs the program's NFA with
// one Boolean term per (position, instruction).

type reModel struct {
	src  Value // pattern text
	prog *syntax.Prog
	conc *regexp.Regexp // when the pattern is concrete
	ph   []*Term        // placeholders
}

const phBase = 0xE000
const phMax = 0xE800

type reCacheEnt struct {
	re  *regexp.Regexp
	pr  *syntax.Prog
	err error
}

var reCache sync.Map

func compileCached(pat string) *reCacheEnt {
	if e, ok := reCache.Load(pat); ok {
		return e.(*reCacheEnt)
	}
	e := &reCacheEnt{}
	e.re, e.err = regexp.Compile(pat)
	if e.err == nil {
		p, err := syntax.Parse(pat, syntax.Perl)
		if err == nil {
			e.pr, err = syntax.Compile(p.Simplify())
		}
		e.err = err
	}
	reCache.Store(pat, e)
	return e
}

const reMeta = `\.+*?()|[]{}^$`

func (m *Machine) reCompile(src Value) (*reModel, error) {
	if s, ok := src.(string); ok {
		e := compileCached(s)
		if e.err != nil {
			return nil, e.err
		}
		return &reModel{src: src, prog: e.pr, conc: e.re}, nil
	}
	bs := append([]Value(nil), strBytes(src)...)
	// metacharacters and non-ASCII bytes are made concrete
	for i, b := range bs {
		t, ok := b.(*Term)
		if !ok {
			continue
		}
		var cs []*Term
		for k := 0; k < len(reMeta); k++ {
			cs = append(cs, m.st.Eq(t, m.st.BV(uint64(reMeta[k]), 8)))
		}
		cs = append(cs, m.st.Cmp(OUle, m.st.BV(0x80, 8), t), m.st.Cmp(OUlt, t, m.st.BV(0x20, 8)))
		if m.p.Branch(m.st.Or(cs...)) {
			bs[i] = m.p.Concretize(t, 300)
		}
	}
	// contexts in which a literal is not just a literal
	inClass, inBrace, esc, grp := false, false, false, 0
	fold, neg, alt := false, false, false
	for i := range bs {
		c, isC := bs[i].(uint64)
		if !isC && (esc || inClass || inBrace || grp > 0) {
			bs[i] = m.p.Concretize(bs[i].(*Term), 300)
			c, isC = bs[i].(uint64), true
		}
		if !isC {
			continue
		}
		if esc {
			esc = false
			switch c {
			case 'D', 'W', 'S', 'P', 'p', 'Q':
				neg = true
			}
			continue
		}
		switch c {
		case '\\':
			esc = true
		case '[':
			if !inClass && i+1 < len(bs) {
				if n, ok := bs[i+1].(uint64); ok && n == '^' {
					neg = true
				}
			}
			inClass = true
		case ']':
			inClass = false
		case '{':
			inBrace = true
		case '}':
			inBrace = false
		case '(':
			if i+1 < len(bs) {
				if n, ok := bs[i+1].(uint64); !ok {
					// a symbolic byte known not to be '?'
				} else if n == '?' {
					grp = 1
				}
			}
		case ')', ':', '>':
			if grp > 0 {
				grp = 0
			}
		case 'i', 'm', 'U': // s only changes what a dot stands for
			if grp > 0 {
				fold = true
			}
		case '|':
			alt = true
		}
	}
	if fold || (neg && alt) {
		for i := range bs {
			if t, ok := bs[i].(*Term); ok {
				bs[i] = m.p.Concretize(t, 300)
			}
		}
	}
	var sb strings.Builder
	var ph []*Term
	idx := map[int]int{}
	for _, b := range bs {
		switch b := b.(type) {
		case uint64:
			sb.WriteByte(byte(b))
		case *Term:
			k, ok := idx[b.id]
			if !ok {
				k = len(ph)
				idx[b.id] = k
				ph = append(ph, b)
			}
			sb.WriteRune(rune(phBase + k))
		}
	}
	e := compileCached(sb.String())
	if e.err != nil {
		return nil, e.err
	}
	r := &reModel{src: mkStr(bs), prog: e.pr, ph: ph}
	if len(ph) == 0 {
		r.conc = e.re
	}
	return r, nil
}

// a subject position: concrete rune or ASCII byte term
type reChar struct {
	r rune
	t *Term
}

func (m *Machine) reSubject(bs []Value) []reChar {
	for i, b := range bs {
		if t, ok := b.(*Term); ok {
			if !m.p.Branch(m.st.Cmp(OUlt, t, m.st.BV(0x80, 8))) {
				nb := append([]Value(nil), bs...)
				nb[i] = m.p.Concretize(t, 300)
				bs = nb
			}
		}
	}
	var out []reChar
	for i := 0; i < len(bs); {
		if t, ok := bs[i].(*Term); ok {
			out = append(out, reChar{t: t})
			i++
			continue
		}
		c := bs[i].(uint64)
		if c < 0x80 {
			out = append(out, reChar{r: rune(c)})
			i++
			continue
		}
		var buf []byte
		for j := i; j < len(bs) && j < i+4; j++ {
			u, ok := bs[j].(uint64)
			if !ok {
				break
			}
			buf = append(buf, byte(u))
		}
		r, n := utf8.DecodeRune(buf)
		out = append(out, reChar{r: r})
		i += n
	}
	return out
}

func (m *Machine) reInRange(re *reModel, c reChar, lo, hi rune) *Term {
	st := m.st
	npha := len(re.ph)
	if lo >= phBase && hi < phMax && npha > 0 && lo < rune(phBase+npha) {
		// placeholders
		var ors []*Term
		for k := lo; k <= hi && k < rune(phBase+npha); k++ {
			ph := re.ph[k-phBase]
			if c.t != nil {
				ors = append(ors, st.Eq(c.t, ph))
			} else if c.r < 0x80 {
				ors = append(ors, st.Eq(ph, st.BV(uint64(c.r), 8)))
			}
		}
		return st.Or(ors...)
	}
	if c.t == nil {
		return st.Bool(c.r >= lo && c.r <= hi)
	}
	if lo > 0x7f {
		return st.False
	}
	if hi > 0x7f {
		hi = 0x7f
	}
	if lo == hi {
		return st.Eq(c.t, st.BV(uint64(lo), 8))
	}
	return st.And(st.Cmp(OUle, st.BV(uint64(lo), 8), c.t), st.Cmp(OUle, c.t, st.BV(uint64(hi), 8)))
}

func (m *Machine) reStep(re *reModel, in *syntax.Inst, c reChar) *Term {
	st := m.st
	switch in.Op {
	case syntax.InstRuneAny:
		return st.True
	case syntax.InstRuneAnyNotNL:
		return st.Not(m.reInRange(re, c, '\n', '\n'))
	}
	rs := in.Rune
	if len(rs) == 1 {
		r0 := rs[0]
		ors := []*Term{m.reInRange(re, c, r0, r0)}
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for r := unicode.SimpleFold(r0); r != r0; r = unicode.SimpleFold(r) {
				ors = append(ors, m.reInRange(re, c, r, r))
			}
		}
		return st.Or(ors...)
	}
	var ors []*Term
	for j := 0; j+1 < len(rs); j += 2 {
		ors = append(ors, m.reInRange(re, c, rs[j], rs[j+1]))
	}
	return st.Or(ors...)
}

func (m *Machine) reWord(re *reModel, s []reChar, i int) *Term {
	if i < 0 || i >= len(s) {
		return m.st.False
	}
	return m.st.Or(m.reInRange(re, s[i], '0', '9'), m.reInRange(re, s[i], 'A', 'Z'), m.reInRange(re, s[i], '_', '_'), m.reInRange(re, s[i], 'a', 'z'))
}

func (m *Machine) reMatch(re *reModel, bs []Value) Value {
	if re.conc != nil {
		if s, ok := mkStr(bs).(string); ok {
			return re.conc.MatchString(s)
		}
	}
	s := m.reSubject(bs)
	st := m.st
	prog := re.prog
	n := len(prog.Inst)
	cur := make([]*Term, n)
	matched := st.False
	var add func(tab []*Term, pc uint32, c *Term, pos int)
	emptyCond := func(op syntax.EmptyOp, pos int) *Term {
		var as []*Term
		if op&syntax.EmptyBeginText != 0 {
			as = append(as, st.Bool(pos == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			as = append(as, st.Bool(pos == len(s)))
		}
		if op&syntax.EmptyBeginLine != 0 && pos != 0 {
			as = append(as, m.reInRange(re, s[pos-1], '\n', '\n'))
		}
		if op&syntax.EmptyEndLine != 0 && pos != len(s) {
			as = append(as, m.reInRange(re, s[pos], '\n', '\n'))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			eq := st.Eq(m.reWord(re, s, pos-1), m.reWord(re, s, pos))
			if op&syntax.EmptyWordBoundary != 0 {
				as = append(as, st.Not(eq))
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				as = append(as, eq)
			}
		}
		return st.And(as...)
	}
	add = func(tab []*Term, pc uint32, c *Term, pos int) {
		if c.isFalse() {
			return
		}
		old := tab[pc]
		if old == nil {
			tab[pc] = c
		} else {
			nw := st.Or(old, c)
			if nw == old {
				return
			}
			tab[pc] = nw
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(tab, in.Out, c, pos)
			add(tab, in.Arg, c, pos)
		case syntax.InstNop, syntax.InstCapture:
			add(tab, in.Out, c, pos)
		case syntax.InstEmptyWidth:
			add(tab, in.Out, st.And(c, emptyCond(syntax.EmptyOp(in.Arg), pos)), pos)
		}
	}
	anchored := prog.StartCond()&syntax.EmptyBeginText != 0
	for pos := 0; ; pos++ {
		if pos == 0 || !anchored {
			add(cur, uint32(prog.Start), st.True, pos)
		}
		next := make([]*Term, n)
		for pc := 0; pc < n; pc++ {
			if cur[pc] == nil {
				continue
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstMatch:
				matched = st.Or(matched, cur[pc])
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos < len(s) {
					add(next, in.Out, st.And(cur[pc], m.reStep(re, in, s[pos])), pos+1)
				}
			}
		}
		if matched.isTrue() || pos >= len(s) {
			break
		}
		cur = next
	}
	return lowerBool(matched)
}

func (m *Machine) reOf(v Value) *reModel {
	p := m.deref(v)
	o, ok := (*p).(*Opaque)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return o.v.(*reModel)
}

func (m *Machine) reVal(r *reModel) Value {
	p := new(Value)
	*p = &Opaque{"regexp", r}
	return p
}

func init() {
	comp := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		r, err := m.reCompile(a[0])
		if err != nil {
			return Tuple{nilPtr, m.mkErr(fmt.Sprintf("error parsing regexp: %v", err))}, true
		}
		return Tuple{m.reVal(r), Iface{}}, true
	}
	reg("regexp.Compile", comp)
	reg("regexp.MustCompile", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		r, err := m.reCompile(a[0])
		if err != nil {
			panic(targetPanic{Iface{types.Typ[types.String], "regexp: Compile: " + err.Error()}})
		}
		return m.reVal(r), true
	})
	regv(func(m *Machine, a []Value) Value { return m.reMatch(m.reOf(a[0]), strBytes(a[1])) }, "(*regexp.Regexp).MatchString")
	regv(func(m *Machine, a []Value) Value { return m.reMatch(m.reOf(a[0]), a[1].(Slice)) }, "(*regexp.Regexp).Match")
	reg("regexp.MatchString", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		r, err := m.reCompile(a[0])
		if err != nil {
			return Tuple{false, m.mkErr(fmt.Sprintf("error parsing regexp: %v", err))}, true
		}
		return Tuple{m.reMatch(r, strBytes(a[1])), Iface{}}, true
	})
	regv(func(m *Machine, a []Value) Value { return m.reOf(a[0]).src }, "(*regexp.Regexp).String")
	regv(func(m *Machine, a []Value) Value { return m.reVal(m.reOf(a[0])) }, "(*regexp.Regexp).Copy")
	regv(func(m *Machine, a []Value) Value { return nil }, "(*regexp.Regexp).Longest")
	regv(func(m *Machine, a []Value) Value {
		return Tuple{Slice(strBytes(m.reOf(a[0]).src)), Iface{}}
	}, "(*regexp.Regexp).MarshalText")
	reg("(*regexp.Regexp).UnmarshalText", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		r, err := m.reCompile(mkStr(a[1].(Slice)))
		if err != nil {
			return m.mkErr(fmt.Sprintf("error parsing regexp: %v", err)), true
		}
		*m.deref(a[0]) = &Opaque{"regexp", r}
		return Iface{}, true
	})
	// operations on concrete text only
	conc := func(m *Machine, re Value, s Value) (*regexp.Regexp, string) {
		r := m.reOf(re)
		if r.conc == nil {
			m.unsupported("regexp operation with a symbolic pattern")
		}
		str, ok := s.(string)
		if !ok {
			str = m.concretizeStr(s)
		}
		return r.conc, str
	}
	strs := func(x []string) Value {
		if x == nil {
			return Slice(nil)
		}
		r := make(Slice, len(x))
		for i := range x {
			r[i] = x[i]
		}
		return r
	}
	regv(func(m *Machine, a []Value) Value {
		r, s := conc(m, a[0], a[1])
		return strs(r.FindAllString(s, int(int64(a[2].(uint64)))))
	}, "(*regexp.Regexp).FindAllString")
	regv(func(m *Machine, a []Value) Value {
		r, s := conc(m, a[0], a[1])
		return r.FindString(s)
	}, "(*regexp.Regexp).FindString")
	regv(func(m *Machine, a []Value) Value {
		r, s := conc(m, a[0], a[1])
		return strs(r.FindStringSubmatch(s))
	}, "(*regexp.Regexp).FindStringSubmatch")
	regv(func(m *Machine, a []Value) Value {
		r, s := conc(m, a[0], a[1])
		rep, ok := a[2].(string)
		if !ok {
			m.unsupported("symbolic replacement")
		}
		return r.ReplaceAllString(s, rep)
	}, "(*regexp.Regexp).ReplaceAllString")
	regv(func(m *Machine, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return regexp.QuoteMeta(s)
		}
		var out []Value
		for _, b := range strBytes(a[0]) {
			var cs []*Term
			t := m.byteTerm(b)
			for k := 0; k < len(reMeta); k++ {
				cs = append(cs, m.st.Eq(t, m.st.BV(uint64(reMeta[k]), 8)))
			}
			if m.p.Branch(m.st.Or(cs...)) {
				out = append(out, uint64('\\'))
			}
			out = append(out, b)
		}
		return mkStr(out)
	}, "regexp.QuoteMeta")
}
