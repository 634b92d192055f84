package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Terms are hash-consed, per worker. Sorts: Bool (w=0), BV (w=1..64), Float64 (w=-64).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OTrunc
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromS
	OFFromU
	OFToS
	OFIsNaN
)

const (
	SBool = 0
	SF64  = -64
)

type Term struct {
	id   int
	op   Op
	w    int
	val  uint64 // constants (bool 0/1, bv, float bits); var index for OVar
	name string
	args []*Term
	vars []int32 // sorted variable ids, nil if none; manyVars if too many
	many bool
	tab  *[4]uint64 // truth table for Bool terms over a single <=8 bit variable
	vtab *[256]uint64

	ranged     bool // variables: value is within slo..shi (signed)
	slo, shi   int64
	urk, srk   uint8
	ulo, uhi   uint64
	slo2, shi2 int64
	canon      *Term
	rat        *ratInfo
}

type termKey struct {
	op   Op
	w    int
	val  uint64
	a, b int
	c    int
	rest string
}

type VarInfo struct {
	t    *Term
	name string
	w    int
}

type TermStore struct {
	tab    map[termKey]*Term
	n      int
	vars   []*VarInfo
	byName map[string]*Term
	True   *Term
	False  *Term
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: map[termKey]*Term{}, byName: map[string]*Term{}}
	s.True = s.mk(OConst, SBool, 1)
	s.False = s.mk(OConst, SBool, 0)
	return s
}

const maxVarSet = 24

func (s *TermStore) mk(op Op, w int, val uint64, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, a: -1, b: -1, c: -1}
	switch len(args) {
	case 0:
	case 1:
		k.a = args[0].id
	case 2:
		k.a, k.b = args[0].id, args[1].id
	case 3:
		k.a, k.b, k.c = args[0].id, args[1].id, args[2].id
	default:
		var sb strings.Builder
		for _, a := range args {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		k.rest = sb.String()
	}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{id: s.n, op: op, w: w, val: val, args: append([]*Term(nil), args...)}
	s.n++
	for _, a := range args {
		if a.many {
			t.many = true
		}
	}
	if !t.many {
		t.vars = mergeVars(args)
		if len(t.vars) > maxVarSet {
			t.many = true
			t.vars = nil
		}
	}
	s.tab[k] = t
	return t
}

func mergeVars(args []*Term) []int32 {
	var out []int32
	for _, a := range args {
		if len(a.vars) == 0 {
			continue
		}
		if out == nil {
			out = a.vars
			continue
		}
		// subset fast path
		i, j := 0, 0
		var res []int32
		for i < len(out) || j < len(a.vars) {
			switch {
			case j >= len(a.vars) || (i < len(out) && out[i] < a.vars[j]):
				res = append(res, out[i])
				i++
			case i >= len(out) || a.vars[j] < out[i]:
				res = append(res, a.vars[j])
				j++
			default:
				res = append(res, out[i])
				i++
				j++
			}
		}
		if len(res) == len(out) {
			continue
		}
		out = res
	}
	return out
}

func (s *TermStore) Var(name string, w int) *Term {
	if t, ok := s.byName[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	id := len(s.vars)
	t := &Term{id: s.n, op: OVar, w: w, val: uint64(id), name: name}
	s.n++
	t.vars = []int32{int32(id)}
	s.vars = append(s.vars, &VarInfo{t, name, w})
	s.byName[name] = t
	return t
}

// VarIn is a variable with a known range. The same name with another range is
// another variable.
func (s *TermStore) VarIn(name string, w int, lo, hi int64) *Term {
	key := fmt.Sprintf("%s|%d|%d..%d", name, w, lo, hi)
	if t, ok := s.byName[key]; ok {
		return t
	}
	t := s.Var(key, w)
	t.name = name
	s.vars[t.val].name = name
	t.ranged, t.slo, t.shi = true, lo, hi
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.True
	}
	return s.False
}
func (s *TermStore) BV(v uint64, w int) *Term { return s.mk(OConst, w, v&mask(w)) }
func (s *TermStore) F64(f float64) *Term {
	if f != f {
		f = math.NaN()
	}
	return s.mk(OConst, SF64, math.Float64bits(f))
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == SBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == SBool && t.val == 0 }

func (s *TermStore) Not(a *Term) *Term {
	if a.isConst() {
		return s.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return s.mk(ONot, SBool, 0, a)
}

func (s *TermStore) And(as ...*Term) *Term { return s.nary(OAnd, as) }
func (s *TermStore) Or(as ...*Term) *Term  { return s.nary(OOr, as) }

func (s *TermStore) nary(op Op, as []*Term) *Term {
	unit, zero := s.True, s.False
	if op == OOr {
		unit, zero = s.False, s.True
	}
	out := make([]*Term, 0, len(as))
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if a.op == ONot && seen[a.args[0].id] {
			return false
		}
		if n, ok := s.tab[termKey{op: ONot, w: SBool, a: a.id, b: -1, c: -1}]; ok && seen[n.id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return s.mk(op, SBool, 0, out...)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return s.Not(c)
		}
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
	}
	return s.mk(OIte, a.w, 0, c, a, b)
}

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.val == b.val)
	}
	if a.w == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return s.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			iw := a.args[0].w
			if b.val>>uint(iw) != 0 {
				return s.False
			}
			return s.Eq(a.args[0], s.BV(b.val, iw))
		case OSext:
			iw := a.args[0].w
			if uint64(sext64(b.val&mask(iw), iw))&mask(a.w) != b.val {
				return s.False
			}
			return s.Eq(a.args[0], s.BV(b.val, iw))
		case OIte:
			if a.args[1].isConst() && a.args[2].isConst() {
				return s.Ite(a.args[0], s.Eq(a.args[1], b), s.Eq(a.args[2], b))
			}
			if a.args[1].isConst() || a.args[2].isConst() {
				return s.Ite(a.args[0], s.Eq(a.args[1], b), s.Eq(a.args[2], b))
			}
		case OAdd:
			if a.args[1].isConst() {
				return s.Eq(a.args[0], s.BV(b.val-a.args[1].val, a.w))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return s.Eq(a.args[0], b.args[0])
	}
	if a.w > 8 {
		if al, ah, ok := s.urng(a); ok {
			if bl, bh, ok := s.urng(b); ok && (ah < bl || bh < al) {
				return s.False
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, SBool, 0, a, b)
}

func evalBin(op Op, w int, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		sx := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	if a.isConst() && b.isConst() {
		return s.BV(evalBin(op, w, a.val, b.val), w)
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return s.Bin(OAdd, a.args[0], s.BV(a.args[1].val+b.val, w))
			}
		}
	case OSub:
		if b.isConst() {
			return s.Bin(OAdd, a, s.BV(-b.val, w))
		}
		if a == b {
			return s.BV(0, w)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OUDiv, OURem, OSDiv, OSRem:
		if b.isConst() && w == 64 && b.val < 1<<40 {
			signed := op == OSDiv || op == OSRem
			if l, _, ok := s.srng(a); !signed || ok && l >= 0 {
				if q, r, ok := s.divmod(a, b.val); ok {
					if op == OUDiv || op == OSDiv {
						return q
					}
					return r
				}
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val&(b.val+1) == 0 {
				// a mask of low bits that covers the range of a
				if _, h, ok := s.urng(a); ok && h <= b.val {
					return a
				}
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZext && a.args[0].w < 64 && b.val&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if op != OAshr && b.isConst() && b.val >= uint64(w) {
			return s.BV(0, w)
		}
		if op == OLshr && a.op == OZext && b.isConst() && b.val >= uint64(a.args[0].w) {
			return s.BV(0, w)
		}
	}
	// push through ite with constants when the other side is constant
	if b.isConst() && a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return s.Ite(a.args[0], s.Bin(op, a.args[1], b), s.Bin(op, a.args[2], b))
	}
	t := s.mk(op, w, 0, a, b)
	if w > 8 {
		if lo, hi, ok := s.urng(t); ok && lo == hi {
			return s.BV(lo, w)
		}
	}
	return t
}

func (s *TermStore) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic("cmp width mismatch")
	}
	if a.isConst() && b.isConst() {
		return s.Bool(evalCmp(op, w, a.val, b.val))
	}
	if a == b {
		return s.Bool(op == OUle || op == OSle)
	}
	if w > 8 {
		if op == OUlt && a.op == OAdd && (a.args[0] == b || a.args[1] == b) {
			// overflow test of an unsigned addition
			_, xh, ok1 := s.urng(a.args[0])
			_, yh, ok2 := s.urng(a.args[1])
			if ok1 && ok2 && xh <= mask(w)-yh {
				return s.False
			}
		}
		if op == OUlt || op == OUle {
			al, ah, ok1 := s.urng(a)
			bl, bh, ok2 := s.urng(b)
			if ok1 && ok2 {
				if ah < bl || op == OUle && ah <= bl {
					return s.True
				}
				if al > bh || op == OUlt && al >= bh {
					return s.False
				}
			}
		} else {
			al, ah, ok1 := s.srng(a)
			bl, bh, ok2 := s.srng(b)
			if ok1 && ok2 {
				if ah < bl || op == OSle && ah <= bl {
					return s.True
				}
				if al > bh || op == OSlt && al >= bh {
					return s.False
				}
			}
		}
	}
	// comparisons of zero-extended values
	za, zb := a.op == OZext, b.op == OZext
	signedAsUnsigned := false
	if op == OSlt || op == OSle {
		nonneg := func(t *Term) bool {
			if t.isConst() {
				return sext64(t.val, w) >= 0
			}
			return t.op == OZext
		}
		if nonneg(a) && nonneg(b) {
			signedAsUnsigned = true
		} else if b.isConst() && za {
			// b negative
			return s.False
		} else if a.isConst() && zb {
			return s.True
		}
	}
	if op == OUlt || op == OUle || signedAsUnsigned {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		if za && b.isConst() {
			iw := a.args[0].w
			if b.val > mask(iw) {
				return s.True
			}
			return s.Cmp(uop, a.args[0], s.BV(b.val, iw))
		}
		if zb && a.isConst() {
			iw := b.args[0].w
			if a.val > mask(iw) {
				return s.False
			}
			return s.Cmp(uop, s.BV(a.val, iw), b.args[0])
		}
		if za && zb && a.args[0].w == b.args[0].w {
			return s.Cmp(uop, a.args[0], b.args[0])
		}
		if signedAsUnsigned {
			op = uop
		}
	}
	if op == OUlt {
		if b.isConst() && b.val == 0 {
			return s.False
		}
		if a.isConst() && a.val == mask(w) {
			return s.False
		}
	}
	if op == OUle {
		if a.isConst() && a.val == 0 {
			return s.True
		}
		if b.isConst() && b.val == mask(w) {
			return s.True
		}
		// a <= b  ==  not (b < a)
		return s.Not(s.Cmp(OUlt, b, a))
	}
	if op == OSle {
		return s.Not(s.Cmp(OSlt, b, a))
	}
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return s.Ite(a.args[0], s.Cmp(op, a.args[1], b), s.Cmp(op, a.args[2], b))
	}
	if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return s.Ite(b.args[0], s.Cmp(op, a, b.args[1]), s.Cmp(op, a, b.args[2]))
	}
	return s.mk(op, SBool, 0, a, b)
}

func evalCmp(op Op, w int, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext64(x, w) < sext64(y, w)
	case OSle:
		return sext64(x, w) <= sext64(y, w)
	}
	panic("evalCmp")
}

func (s *TermStore) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.BV(a.val, w)
	}
	if a.op == OZext {
		return s.Zext(a.args[0], w)
	}
	if a.op == OTrunc && a.args[0].w == w {
		if _, h, ok := s.urng(a.args[0]); ok && h <= mask(a.w) {
			return a.args[0]
		}
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return s.Ite(a.args[0], s.Zext(a.args[1], w), s.Zext(a.args[2], w))
	}
	return s.mk(OZext, w, 0, a)
}
func (s *TermStore) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.BV(uint64(sext64(a.val, a.w)), w)
	}
	if a.op == OZext {
		return s.Zext(a.args[0], w)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return s.Ite(a.args[0], s.Sext(a.args[1], w), s.Sext(a.args[2], w))
	}
	return s.mk(OSext, w, 0, a)
}
func (s *TermStore) Trunc(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.BV(a.val, w)
	}
	if a.op == OZext || a.op == OSext {
		in := a.args[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return s.Trunc(in, w)
		}
		if a.op == OZext {
			return s.Zext(in, w)
		}
		return s.Sext(in, w)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return s.Ite(a.args[0], s.Trunc(a.args[1], w), s.Trunc(a.args[2], w))
	}
	switch a.op {
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		return s.Bin(a.op, s.Trunc(a.args[0], w), s.Trunc(a.args[1], w))
	}
	return s.mk(OTrunc, w, 0, a)
}

func fl(v uint64) float64 { return math.Float64frombits(v) }

func (s *TermStore) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fl(a.val), fl(b.val)
		switch op {
		case OFAdd:
			return s.F64(x + y)
		case OFSub:
			return s.F64(x - y)
		case OFMul:
			return s.F64(x * y)
		case OFDiv:
			return s.F64(x / y)
		}
	}
	if (op == OFMul || op == OFDiv) && b.isConst() && fl(b.val) == 1 {
		return a
	}
	if op == OFMul && a.isConst() && fl(a.val) == 1 {
		return b
	}
	if op == OFMul || op == OFDiv {
		if a.op == OFNeg && b.isConst() {
			return s.FNeg(s.FBin(op, a.args[0], b))
		}
		if b.op == OFNeg && a.isConst() {
			return s.FNeg(s.FBin(op, a, b.args[0]))
		}
	}
	t := s.mk(op, SF64, 0, a, b)
	if t.rat == nil {
		s.annotateBin(op, t, a, b)
	}
	return t
}
func (s *TermStore) FNeg(a *Term) *Term {
	if a.isConst() {
		return s.F64(-fl(a.val))
	}
	if a.op == OFNeg {
		return a.args[0]
	}
	t := s.mk(OFNeg, SF64, 0, a)
	if a.rat != nil && t.rat == nil {
		q := *a.rat
		q.k = s.canonical(s.Bin(OSub, s.BV(0, 64), q.k))
		q.lo, q.hi = -q.hi, -q.lo
		t.rat = &q
	}
	return t
}
func (s *TermStore) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fl(a.val), fl(b.val)
		switch op {
		case OFLt:
			return s.Bool(x < y)
		case OFLe:
			return s.Bool(x <= y)
		case OFEq:
			return s.Bool(x == y)
		}
	}
	if a.rat != nil || b.rat != nil {
		if a == b {
			return s.Bool(op != OFLt)
		}
		if t := s.ratCmp(op, a, b); t != nil {
			return t
		}
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return s.mk(op, SBool, 0, a, b)
}
func (s *TermStore) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return s.Bool(fl(a.val) != fl(a.val))
	}
	if a.op == OFFromS || a.op == OFFromU || a.rat != nil {
		return s.False
	}
	return s.mk(OFIsNaN, SBool, 0, a)
}
func (s *TermStore) FFromInt(a *Term, signed bool) *Term {
	if a.isConst() {
		if signed {
			return s.F64(float64(sext64(a.val, a.w)))
		}
		return s.F64(float64(a.val))
	}
	if a.w == 64 {
		if lo, hi, ok := s.srng(a); ok && small(lo, hi) && (signed || lo >= 0) {
			a = s.canonical(a)
			if a.isConst() {
				return s.F64(float64(sext64(a.val, 64)))
			}
			if lo >= 0 { // convert from few bits
				b := bits.Len64(uint64(hi))
				t := s.mk(OFFromU, SF64, 0, s.Trunc(a, b))
				s.annotateInt(t, a, true)
				return t
			}
		}
	}
	if signed && a.op == OZext {
		signed = false
	}
	op := OFFromU
	if signed {
		op = OFFromS
	}
	t := s.mk(op, SF64, 0, a)
	s.annotateInt(t, a, signed)
	return t
}
func (s *TermStore) FToInt(a *Term, w int) *Term {
	if a.isConst() {
		return s.BV(uint64(int64(fl(a.val))), w)
	}
	return s.mk(OFToS, w, 0, a)
}

// ---- evaluation under a full assignment ----

type Assign map[int32]uint64

func (t *Term) eval(as func(int32) uint64, memo map[int]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return as(int32(t.val))
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(i int) uint64 { return t.args[i].eval(as, memo) }
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - ev(0)
	case OAnd:
		r = 1
		for i := range t.args {
			if ev(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if ev(i) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OEq:
		r = b2u(ev(0) == ev(1))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, t.args[0].w, ev(0), ev(1)))
	case OZext:
		r = ev(0)
	case OSext:
		r = uint64(sext64(ev(0), t.args[0].w)) & mask(t.w)
	case OTrunc:
		r = ev(0) & mask(t.w)
	case OFAdd:
		r = math.Float64bits(fl(ev(0)) + fl(ev(1)))
	case OFSub:
		r = math.Float64bits(fl(ev(0)) - fl(ev(1)))
	case OFMul:
		r = math.Float64bits(fl(ev(0)) * fl(ev(1)))
	case OFDiv:
		r = math.Float64bits(fl(ev(0)) / fl(ev(1)))
	case OFNeg:
		r = math.Float64bits(-fl(ev(0)))
	case OFLt:
		r = b2u(fl(ev(0)) < fl(ev(1)))
	case OFLe:
		r = b2u(fl(ev(0)) <= fl(ev(1)))
	case OFEq:
		r = b2u(fl(ev(0)) == fl(ev(1)))
	case OFIsNaN:
		f := fl(ev(0))
		r = b2u(f != f)
	case OFFromS:
		r = math.Float64bits(float64(sext64(ev(0), t.args[0].w)))
	case OFFromU:
		r = math.Float64bits(float64(ev(0)))
	case OFToS:
		r = uint64(int64(fl(ev(0)))) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, ev(0), ev(1))
	}
	if memo != nil {
		memo[t.id] = r
	}
	return r
}

// truth table of a Bool term over its single variable (width <= 8), or nil
func (s *TermStore) table(t *Term) *[4]uint64 {
	if t.tab != nil {
		return t.tab
	}
	if t.w != SBool || t.many || len(t.vars) != 1 {
		return nil
	}
	v := s.vars[t.vars[0]]
	if v.w > 8 || v.w < 0 {
		return nil
	}
	n := 1 << uint(v.w)
	if v.w == SBool {
		n = 2
	}
	var r [4]uint64
	all := func() [4]uint64 {
		var x [4]uint64
		for i := 0; i < n; i++ {
			x[i>>6] |= 1 << uint(i&63)
		}
		return x
	}
	switch t.op {
	case ONot:
		a := s.table(t.args[0])
		al := all()
		for i := range r {
			r[i] = al[i] &^ a[i]
		}
	case OAnd:
		r = all()
		for _, x := range t.args {
			a := s.table(x)
			for i := range r {
				r[i] &= a[i]
			}
		}
	case OOr:
		for _, x := range t.args {
			a := s.table(x)
			for i := range r {
				r[i] |= a[i]
			}
		}
	default:
		for i := 0; i < n; i++ {
			if t.eval(func(int32) uint64 { return uint64(i) }, nil) == 1 {
				r[i>>6] |= 1 << uint(i&63)
			}
		}
	}
	t.tab = &r
	return t.tab
}

func popcount(a *[4]uint64) int {
	return bits.OnesCount64(a[0]) + bits.OnesCount64(a[1]) + bits.OnesCount64(a[2]) + bits.OnesCount64(a[3])
}

// ---- SMT-LIB printing ----

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN"}

func varSym(i uint64) string { return "v" + strconv.FormatUint(i, 10) }

func sortName(w int) string {
	switch {
	case w == SBool:
		return "Bool"
	case w == SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	switch {
	case t.w == SBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case t.w == SF64:
		f := fl(t.val)
		if f != f {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", t.val>>63, (t.val>>52)&0x7ff, t.val&(1<<52-1))
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

// SMT prints t as an SMT-LIB expression, sharing repeated subterms with let.
func (t *Term) SMT() string {
	refs := map[int]int{}
	var count func(*Term)
	count = func(x *Term) {
		if x.op == OConst || x.op == OVar {
			return
		}
		refs[x.id]++
		if refs[x.id] == 1 {
			for _, a := range x.args {
				count(a)
			}
		}
	}
	count(t)
	names := map[int]string{}
	var lets []string
	var pr func(*Term) string
	pr = func(x *Term) string {
		if x.op == OConst {
			return constSMT(x)
		}
		if x.op == OVar {
			return varSym(x.val)
		}
		if n, ok := names[x.id]; ok {
			return n
		}
		var sb strings.Builder
		sb.WriteByte('(')
		switch x.op {
		case OZext:
			fmt.Fprintf(&sb, "(_ zero_extend %d)", x.w-x.args[0].w)
		case OSext:
			fmt.Fprintf(&sb, "(_ sign_extend %d)", x.w-x.args[0].w)
		case OTrunc:
			fmt.Fprintf(&sb, "(_ extract %d 0)", x.w-1)
		case OFFromS:
			sb.WriteString("(_ to_fp 11 53) RNE")
		case OFFromU:
			sb.WriteString("(_ to_fp_unsigned 11 53) RNE")
		case OFToS:
			fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", x.w)
		default:
			sb.WriteString(opName[x.op])
		}
		for _, a := range x.args {
			sb.WriteByte(' ')
			sb.WriteString(pr(a))
		}
		sb.WriteByte(')')
		r := sb.String()
		if refs[x.id] > 1 && len(r) > 12 {
			n := "t" + strconv.Itoa(x.id)
			lets = append(lets, "(let (("+n+" "+r+")) ")
			names[x.id] = n
			return n
		}
		return r
	}
	body := pr(t)
	return strings.Join(lets, "") + body + strings.Repeat(")", len(lets))
}
