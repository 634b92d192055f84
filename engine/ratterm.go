package main

import (
	"math"
	"sort"
)

// Exact integer reasoning about floats that come from bounded integers.
//
// A float term made from an integer term k of known range by conversion,
// multiplication or division with positive constants carries an annotation that
// gives its value as a monotone function of k. Comparisons of such terms are
// turned into integer comparisons, which the solver decides far faster than
// floating point arithmetic.

type ratInfo struct {
	k      *Term // signed, 64 bit
	lo, hi int64 // range of k
	f      func(int64) float64
	exact  bool // f(k) is k*num/den rounded once
	num    int64
	den    int64
}

const two52 = int64(1) << 52

// urng is the range of a bit vector read as unsigned.
func (s *TermStore) urng(t *Term) (lo, hi uint64, ok bool) {
	if t.w <= 0 {
		return 0, 0, false
	}
	if t.op == OConst {
		return t.val, t.val, true
	}
	if t.urk == 0 {
		t.ulo, t.uhi, ok = s.urng1(t)
		t.urk = 1
		if ok {
			t.urk = 2
		}
	}
	return t.ulo, t.uhi, t.urk == 2
}

func mulOK(a, b uint64) bool { return a == 0 || b <= math.MaxUint64/a }

func (s *TermStore) urng1(t *Term) (lo, hi uint64, ok bool) {
	m := mask(t.w)
	switch t.op {
	case OVar:
		if t.ranged && t.slo >= 0 {
			return uint64(t.slo), uint64(t.shi), true
		}
	case OZext:
		if l, h, ok := s.urng(t.args[0]); ok {
			return l, h, true
		}
		return 0, mask(t.args[0].w), true
	case OAdd:
		al, ah, ok1 := s.urng(t.args[0])
		bl, bh, ok2 := s.urng(t.args[1])
		if !ok1 || !ok2 {
			break
		}
		if t.w < 64 {
			l, h := al+bl, ah+bh
			if l > m && h > m {
				l -= m + 1
				h -= m + 1
			}
			if h <= m {
				return l, h, true
			}
			break
		}
		if ah+bh >= ah {
			return al + bl, ah + bh, true
		}
		if al+bl < al { // both ends wrap
			return al + bl, ah + bh, true
		}
	case OSub:
		al, ah, ok1 := s.urng(t.args[0])
		bl, bh, ok2 := s.urng(t.args[1])
		if ok1 && ok2 && al >= bh {
			return al - bh, ah - bl, true
		}
	case OMul:
		al, ah, ok1 := s.urng(t.args[0])
		bl, bh, ok2 := s.urng(t.args[1])
		if ok1 && ok2 && mulOK(ah, bh) && ah*bh <= m {
			return al * bl, ah * bh, true
		}
	case OIte:
		al, ah, ok1 := s.urng(t.args[1])
		bl, bh, ok2 := s.urng(t.args[2])
		if ok1 && ok2 {
			return min(al, bl), max(ah, bh), true
		}
	case OLshr:
		l, h, ok := s.urng(t.args[0])
		if ok && t.args[1].isConst() && t.args[1].val < 64 {
			return l >> t.args[1].val, h >> t.args[1].val, true
		}
	case OUDiv, OURem, OSDiv, OSRem:
		l, h, ok := s.urng(t.args[0])
		if !ok || !t.args[1].isConst() || t.args[1].val == 0 {
			break
		}
		c := t.args[1].val
		if (t.op == OSDiv || t.op == OSRem) && (h > m>>1 || c > m>>1) {
			break
		}
		if t.op == OUDiv || t.op == OSDiv {
			return l / c, h / c, true
		}
		if h < c {
			return l, h, true
		}
		return 0, c - 1, true
	case OTrunc:
		l, h, ok := s.urng(t.args[0])
		if ok && h <= m {
			return l, h, true
		}
	}
	return 0, 0, false
}

// divmod gives quotient and remainder of a 64-bit term by a constant as linear
// terms, if the linear form and the ranges decide them.
func (s *TermStore) divmod(t *Term, c uint64) (q, r *Term, ok bool) {
	if t.w != 64 || c < 2 || c > 1<<40 {
		return nil, nil, false
	}
	lo, hi, ok := s.srng(t)
	if !ok || lo < 0 || !small(lo, hi) {
		// a large constant added to a small term
		ul, uh, ok := s.urng(t)
		if !ok || t.op != OAdd || !t.args[1].isConst() || uh-ul > uint64(sBound) {
			return nil, nil, false
		}
		x := t.args[0]
		xl, xh, ok := s.srng(x)
		if !ok || !small(xl, xh) || uint64(xh-xl) != uh-ul || ul < c {
			return nil, nil, false
		}
		y := s.canonical(s.Bin(OAdd, x, s.BV(ul%c-uint64(xl), 64)))
		if y.isConst() {
			return s.BV(ul/c+y.val/c, 64), s.BV(y.val%c, 64), true
		}
		if yl, _, ok := s.srng(y); !ok || yl < 0 {
			return nil, nil, false
		}
		q, r, ok := s.divmod(y, c)
		if !ok {
			q, r = s.mk(OUDiv, 64, 0, y, s.BV(c, 64)), s.mk(OURem, 64, 0, y, s.BV(c, 64))
		}
		return s.Bin(OAdd, q, s.BV(ul/c, 64)), r, true
	}
	if uint64(hi) < c {
		return s.BV(0, 64), t, true
	}
	m := map[*Term]int64{}
	k := s.linear(t, 1, m)
	s.joinDigits(m, &k)
	d := int64(c)
	var whole, rest []*Term
	for a, n := range m {
		if n == 0 {
			continue
		}
		if n%d == 0 {
			whole = append(whole, a)
		} else {
			rest = append(rest, a)
		}
	}
	kr := k % d
	if kr < 0 {
		kr += d
	}
	rl, rh := kr, kr
	for _, a := range rest {
		l, h, ok := s.srng(a)
		n := m[a]
		if !ok || !small(l, h) || n > 1<<40 || n < -(1<<40) || math.Abs(float64(n))*math.Max(math.Abs(float64(l)), math.Abs(float64(h))) > float64(sBound) {
			return nil, nil, false
		}
		l, h = n*l, n*h
		if l > h {
			l, h = h, l
		}
		rl, rh = rl+l, rh+h
	}
	if rl < 0 || rh >= d {
		return nil, nil, false
	}
	sum := func(atoms []*Term, div, k int64) *Term {
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		r := s.BV(uint64(k), 64)
		for _, a := range atoms {
			r = s.Bin(OAdd, s.Bin(OMul, a, s.BV(uint64(m[a]/div), 64)), r)
		}
		return r
	}
	return sum(whole, d, (k-kr)/d), sum(rest, 1, kr), true
}

// joinDigits replaces c*(x/c) + x%c by x in a linear form.
func (s *TermStore) joinDigits(m map[*Term]int64, k *int64) {
	for again := true; again; {
		again = false
		for a, n := range m {
			if n == 0 || a.op != OUDiv && a.op != OSDiv || !a.args[1].isConst() {
				continue
			}
			rem := OURem
			if a.op == OSDiv {
				rem = OSRem
			}
			c := int64(a.args[1].val)
			b := s.mk(rem, a.w, 0, a.args[0], a.args[1])
			if mb := m[b]; mb != 0 && c > 1 && n == mb*c {
				delete(m, a)
				delete(m, b)
				*k += s.linear(a.args[0], mb, m)
				again = true
				break
			}
		}
	}
}

// srng is the range of a bit vector read as signed.
func (s *TermStore) srng(t *Term) (lo, hi int64, ok bool) {
	if t.w <= 0 {
		return 0, 0, false
	}
	if t.op == OConst {
		v := sext64(t.val, t.w)
		return v, v, true
	}
	if t.srk == 0 {
		t.slo2, t.shi2, ok = s.srng1(t)
		t.srk = 1
		if ok {
			t.srk = 2
		}
	}
	return t.slo2, t.shi2, t.srk == 2
}

const sBound = int64(1) << 61

func small(xs ...int64) bool {
	for _, x := range xs {
		if x < -sBound || x > sBound {
			return false
		}
	}
	return true
}

func (s *TermStore) srng1(t *Term) (lo, hi int64, ok bool) {
	if l, h, ok := s.urng(t); ok && h <= mask(t.w)>>1 {
		return int64(l), int64(h), true
	}
	fits := func(l, h int64) (int64, int64, bool) {
		if t.w < 64 && (l < -(int64(1)<<uint(t.w-1)) || h >= int64(1)<<uint(t.w-1)) {
			return 0, 0, false
		}
		return l, h, true
	}
	switch t.op {
	case OVar:
		if t.ranged {
			return t.slo, t.shi, true
		}
	case OSext:
		return s.srng(t.args[0])
	case OAdd, OSub, OMul:
		al, ah, ok1 := s.srng(t.args[0])
		bl, bh, ok2 := s.srng(t.args[1])
		if !ok1 || !ok2 || !small(al, ah, bl, bh) {
			break
		}
		switch t.op {
		case OAdd:
			return fits(al+bl, ah+bh)
		case OSub:
			return fits(al-bh, ah-bl)
		}
		big := math.Max(math.Abs(float64(al)), math.Abs(float64(ah))) * math.Max(math.Abs(float64(bl)), math.Abs(float64(bh)))
		if big > float64(sBound) {
			break
		}
		p := []int64{al * bl, al * bh, ah * bl, ah * bh}
		sort.Slice(p, func(i, j int) bool { return p[i] < p[j] })
		return fits(p[0], p[3])
	case OIte:
		al, ah, ok1 := s.srng(t.args[1])
		bl, bh, ok2 := s.srng(t.args[2])
		if ok1 && ok2 {
			return min(al, bl), max(ah, bh), true
		}
	}
	return 0, 0, false
}

// linear writes a 64-bit term as a sum of atoms with coefficients; overflow is
// excluded by the ranges.
func (s *TermStore) linear(t *Term, c int64, out map[*Term]int64) int64 {
	lo, hi, ok := s.srng(t)
	if ok && small(lo, hi) {
		switch t.op {
		case OConst:
			return c * sext64(t.val, t.w)
		case OAdd, OSub:
			_, _, ok1 := s.srng(t.args[0])
			_, _, ok2 := s.srng(t.args[1])
			if ok1 && ok2 && t.w == 64 {
				sg := int64(1)
				if t.op == OSub {
					sg = -1
				}
				return s.linear(t.args[0], c, out) + s.linear(t.args[1], sg*c, out)
			}
		case OMul:
			if t.args[1].isConst() && t.w == 64 {
				k := sext64(t.args[1].val, 64)
				if _, _, ok := s.srng(t.args[0]); ok && math.Abs(float64(k))*math.Abs(float64(c)) < 1<<50 {
					return s.linear(t.args[0], c*k, out)
				}
			}
		case OZext, OSext:
			in := t.args[0]
			if _, h, ok := s.urng(in); t.op == OSext && (!ok || h > mask(in.w)>>1) {
				break
			}
			// products and sums that do not wrap in a narrow type
			if t.w == 64 && (in.op == OMul || in.op == OAdd) {
				_, ah, ok1 := s.urng(in.args[0])
				_, bh, ok2 := s.urng(in.args[1])
				m := mask(in.w)
				if ok1 && ok2 && in.op == OMul && in.args[1].isConst() && mulOK(ah, bh) && ah*bh <= m && math.Abs(float64(bh))*math.Abs(float64(c)) < 1<<50 {
					return s.linear(s.Zext(in.args[0], 64), c*int64(bh), out)
				}
				if ok1 && ok2 && in.op == OAdd && in.w < 64 && ah+bh <= m {
					return s.linear(s.Zext(in.args[0], 64), c, out) + s.linear(s.Zext(in.args[1], 64), c, out)
				}
			}
			// digit - '0' computed in a narrow type
			if in.op == OAdd && in.args[1].isConst() && t.w == 64 {
				l, h, ok := s.urng(in)
				al, ah, ok2 := s.urng(in.args[0])
				if ok && ok2 && h-l == ah-al {
					return s.linear(s.Zext(in.args[0], 64), c, out) + c*(int64(l)-int64(al))
				}
			}
		}
	}
	out[t] += c
	return 0
}

// canonical rebuilds an integer term from its linear form, so that the same
// number computed in two ways becomes the same term.
func (s *TermStore) canonical(t *Term) *Term {
	lo, hi, ok := s.srng(t)
	if !ok || !small(lo, hi) || t.w != 64 {
		return t
	}
	if t.canon != nil {
		return t.canon
	}
	m := map[*Term]int64{}
	k := s.linear(t, 1, m)
	s.joinDigits(m, &k)
	var atoms []*Term
	for a, c := range m {
		if c != 0 {
			atoms = append(atoms, a)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	r := s.BV(uint64(k), 64)
	for _, a := range atoms {
		r = s.Bin(OAdd, s.Bin(OMul, a, s.BV(uint64(m[a]), 64)), r)
	}
	t.canon = r
	// the range of the original term also holds for the rebuilt one
	if !r.isConst() {
		if l, h, ok := s.srng(r); !ok || l < lo || h > hi {
			r.slo2, r.shi2, r.srk = lo, hi, 2
		}
		r.canon = r
	}
	return r
}

func (s *TermStore) annotateInt(t, a *Term, signed bool) {
	k := a
	if a.w < 64 {
		if signed {
			k = s.Sext(a, 64)
		} else {
			k = s.Zext(a, 64)
		}
	}
	lo, hi, ok := s.srng(k)
	if !ok || lo < -(1<<53) || hi > 1<<53 {
		return
	}
	t.rat = &ratInfo{k: k, lo: lo, hi: hi, f: func(x int64) float64 { return float64(x) }, exact: true, num: 1, den: 1}
}

func (s *TermStore) annotateBin(op Op, t, a, b *Term) {
	if a.isConst() && op == OFMul {
		a, b = b, a
	}
	if a.rat == nil || !b.isConst() || op != OFMul && op != OFDiv {
		return
	}
	c := fl(b.val)
	if !(c > 0) || math.IsInf(c, 0) {
		return
	}
	q := *a.rat
	f := q.f
	if op == OFMul {
		q.f = func(x int64) float64 { return f(x) * c }
	} else {
		q.f = func(x int64) float64 { return f(x) / c }
	}
	if math.IsInf(q.f(q.lo), 0) || math.IsInf(q.f(q.hi), 0) {
		return
	}
	whole := q.exact && q.den == 1 && q.num > 0 && math.Max(math.Abs(float64(q.lo)), math.Abs(float64(q.hi)))*float64(q.num) <= 1<<53
	isInt := c == math.Floor(c) && c <= 1<<60
	switch {
	case !q.exact:
	case op == OFMul && isInt && whole && float64(q.num)*c <= 1<<60:
		q.num *= int64(c)
	case op == OFDiv && isInt && whole:
		q.den = int64(c)
	case op == OFMul && isInt && math.Log2(c) == math.Floor(math.Log2(c)) && float64(q.num)*c <= 1<<60:
		q.num *= int64(c)
	default:
		q.exact = false
	}
	t.rat = &q
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// ratCmp decides a comparison of annotated floats in integers, or returns nil.
func (s *TermStore) ratCmp(op Op, a, b *Term) *Term {
	if a.rat != nil && b.rat != nil {
		p, q := a.rat, b.rat
		if p.exact && q.exact && float64(p.num)*float64(q.den) < 1<<61 && float64(q.num)*float64(p.den) < 1<<61 {
			ca, cb := p.num*q.den, q.num*p.den
			g := gcd(ca, cb)
			ca, cb = ca/g, cb/g
			ma := math.Max(math.Abs(float64(p.lo)), math.Abs(float64(p.hi))) * float64(ca)
			mb := math.Max(math.Abs(float64(q.lo)), math.Abs(float64(q.hi))) * float64(cb)
			if ma < float64(two52) && mb < float64(two52) || p.den == 1 && q.den == 1 && ma <= 1<<53 && mb <= 1<<53 {
				x := s.canonical(s.Bin(OMul, p.k, s.BV(uint64(ca), 64)))
				y := s.canonical(s.Bin(OMul, q.k, s.BV(uint64(cb), 64)))
				if l, h, ok := s.diff(x, y); ok {
					switch {
					case op == OFLt && h < 0, op == OFLe && h <= 0, op == OFEq && l == 0 && h == 0:
						return s.True
					case op == OFLt && l >= 0, op == OFLe && l > 0, op == OFEq && (l > 0 || h < 0):
						return s.False
					}
				}
				switch op {
				case OFLt:
					return s.Cmp(OSlt, x, y)
				case OFLe:
					return s.Cmp(OSle, x, y)
				case OFEq:
					return s.Eq(x, y)
				}
			}
		}
		if t := s.ratSame(op, p, q); t != nil {
			return t
		}
		if q.hi-q.lo <= 256 {
			return s.ratEnum(q, func(v float64) *Term { return s.FCmp(op, a, s.F64(v)) })
		}
		if p.hi-p.lo <= 256 {
			return s.ratEnum(p, func(v float64) *Term { return s.FCmp(op, s.F64(v), b) })
		}
		return nil
	}
	if a.rat != nil && b.isConst() {
		c := fl(b.val)
		if c != c {
			return s.False
		}
		switch op {
		case OFLt:
			return s.Not(s.ratAtLeast(a.rat, func(x float64) bool { return x >= c }))
		case OFLe:
			return s.Not(s.ratAtLeast(a.rat, func(x float64) bool { return x > c }))
		case OFEq:
			return s.And(s.ratAtLeast(a.rat, func(x float64) bool { return x >= c }), s.Not(s.ratAtLeast(a.rat, func(x float64) bool { return x > c })))
		}
	}
	if b.rat != nil && a.isConst() {
		c := fl(a.val)
		if c != c {
			return s.False
		}
		switch op {
		case OFLt:
			return s.ratAtLeast(b.rat, func(x float64) bool { return x > c })
		case OFLe:
			return s.ratAtLeast(b.rat, func(x float64) bool { return x >= c })
		case OFEq:
			return s.ratCmp(OFEq, b, a)
		}
	}
	return nil
}

func (s *TermStore) ratEnum(q *ratInfo, f func(v float64) *Term) *Term {
	r := s.False
	// group equal results into runs
	type run struct {
		lo, hi int64
		t      *Term
	}
	var runs []run
	for k := q.lo; k <= q.hi; k++ {
		t := f(q.f(k))
		if n := len(runs); n > 0 && runs[n-1].t == t {
			runs[n-1].hi = k
			continue
		}
		runs = append(runs, run{k, k, t})
	}
	for _, u := range runs {
		in := s.And(s.Cmp(OSle, s.BV(uint64(u.lo), 64), q.k), s.Cmp(OSle, q.k, s.BV(uint64(u.hi), 64)))
		if u.lo == u.hi {
			in = s.Eq(q.k, s.BV(uint64(u.lo), 64))
		}
		r = s.Or(r, s.And(in, u.t))
	}
	return r
}

// ratAtLeast is k >= the least k of the range for which the monotone test holds.
func (s *TermStore) ratAtLeast(q *ratInfo, test func(float64) bool) *Term {
	lo, hi := q.lo, q.hi+1
	for lo < hi {
		mid := lo + (hi-lo)/2
		if test(q.f(mid)) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	if lo == q.lo {
		return s.True
	}
	if lo == q.hi+1 {
		return s.False
	}
	return s.Cmp(OSle, s.BV(uint64(lo), 64), q.k)
}

// ratSame compares two annotated floats whose integers are affine in one another.
func (s *TermStore) ratSame(op Op, p, q *ratInfo) *Term {
	lp, lq := map[*Term]int64{}, map[*Term]int64{}
	kp := s.linear(p.k, 1, lp)
	s.joinDigits(lp, &kp)
	kq := s.linear(q.k, 1, lq)
	s.joinDigits(lq, &kq)
	var np, nq int64
	n := 0
	for a, c := range lp {
		if c == 0 {
			continue
		}
		n++
		d := lq[a]
		if d == 0 || c < 0 || d < 0 {
			return nil
		}
		np, nq = gcd(np, c), gcd(nq, d)
	}
	for a, c := range lp {
		if c != 0 && c/np != lq[a]/nq {
			return nil
		}
	}
	for _, d := range lq {
		if d != 0 {
			n--
		}
	}
	if n != 0 || np == 0 {
		return nil
	}
	// k_p = kp + np*u, k_q = kq + nq*u
	ul, uh := (p.lo-kp)/np-1, (p.hi-kp)/np+1
	if uh-ul > 1<<18 {
		return nil
	}
	eval := func(u int64) bool {
		a, b := p.f(kp+np*u), q.f(kq+nq*u)
		switch op {
		case OFLt:
			return a < b
		case OFLe:
			return a <= b
		}
		return a == b
	}
	type run struct {
		lo, hi int64
	}
	var runs []run
	for u := ul; u <= uh; u++ {
		if kp+np*u < p.lo || kp+np*u > p.hi || !eval(u) {
			continue
		}
		if n := len(runs); n > 0 && runs[n-1].hi == u-1 {
			runs[n-1].hi = u
			continue
		}
		if len(runs) > 16 {
			return nil
		}
		runs = append(runs, run{u, u})
	}
	r := s.False
	for _, x := range runs {
		l, h := kp+np*x.lo, kp+np*x.hi
		in := s.True
		if l-np >= p.lo {
			in = s.And(in, s.Cmp(OSle, s.BV(uint64(l), 64), p.k))
		}
		if h+np <= p.hi {
			in = s.And(in, s.Cmp(OSle, p.k, s.BV(uint64(h), 64)))
		}
		r = s.Or(r, in)
	}
	return r
}

// diff is the range of x-y by their linear forms.
func (s *TermStore) diff(x, y *Term) (lo, hi int64, ok bool) {
	m := map[*Term]int64{}
	k := s.linear(x, 1, m) + s.linear(y, -1, m)
	s.joinDigits(m, &k)
	if !small(k) {
		return 0, 0, false
	}
	lo, hi = k, k
	for a, c := range m {
		if c == 0 {
			continue
		}
		l, h, ok := s.srng(a)
		if !ok || !small(l, h) || math.Abs(float64(c))*math.Max(math.Abs(float64(l)), math.Abs(float64(h))) > 1<<58 {
			return 0, 0, false
		}
		l, h = l*c, h*c
		if l > h {
			l, h = h, l
		}
		lo, hi = lo+l, hi+h
		if !small(lo, hi) {
			return 0, 0, false
		}
	}
	return lo, hi, true
}
