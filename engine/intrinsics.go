package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}

const hp = "github.com/octarinesec/MAPL/zzvx."

func reg(name string, f Intrinsic) {
	if _, dup := intrinsics[name]; dup {
		panic("duplicate intrinsic " + name)
	}
	intrinsics[name] = f
}

func regv(f func(m *Machine, args []Value) Value, names ...string) {
	for _, n := range names {
		reg(n, func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) (Value, bool) { return f(m, args), true })
	}
}

func noop(m *Machine, args []Value) Value { return nil }

func concStr(v Value) (string, bool) { s, ok := v.(string); return s, ok }

func (m *Machine) mustStr(v Value, what string) string {
	s, ok := v.(string)
	if !ok {
		m.unsupported("symbolic %s", what)
	}
	return s
}

func (m *Machine) mkErr(msg Value) Value {
	p := new(Value)
	*p = Struct{msg}
	return Iface{types.NewPointer(m.eng.errStr), p}
}

func (m *Machine) errorAs(err, target Iface) bool {
	pt, ok := target.T.(*types.Pointer)
	if !ok || isNilPtr(target.V) {
		m.unsupported("errors.As with target %v", target.T)
	}
	for err.T != nil {
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if types.Implements(err.T, it) {
				*m.deref(target.V) = err
				return true
			}
		} else if identical(err.T, pt.Elem()) {
			*m.deref(target.V) = err.V
			return true
		}
		if m.eng.methodByName(err.T, nil, "As", "As") != nil {
			m.unsupported("As method of %v", err.T)
		}
		fn := m.eng.methodByName(err.T, nil, "Unwrap", "Unwrap")
		if fn == nil {
			return false
		}
		switch r := m.callFn(m.curFr, fn, []Value{err.V}).(type) {
		case Iface:
			err = r
		case Slice:
			for _, e := range r {
				if m.errorAs(e.(Iface), target) {
					return true
				}
			}
			return false
		default:
			m.unsupported("Unwrap of %v", err.T)
		}
	}
	return false
}

func strSliceVal(ss []Value) Slice {
	r := make(Slice, len(ss))
	copy(r, ss)
	return r
}

// matchAt gives the condition that pat occurs in s at position i.
func (m *Machine) matchAt(s, pat []Value, i int) *Term {
	r := m.bytesEq(s[i:i+len(pat)], pat)
	switch r := r.(type) {
	case bool:
		return m.st.Bool(r)
	case *Term:
		return r
	}
	panic("matchAt")
}

func (m *Machine) indexFrom(s, pat []Value, from int) int {
	for i := from; i+len(pat) <= len(s); i++ {
		if m.p.Branch(m.matchAt(s, pat, i)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lastIndexOf(s, pat []Value) int {
	for i := len(s) - len(pat); i >= 0; i-- {
		if m.p.Branch(m.matchAt(s, pat, i)) {
			return i
		}
	}
	return -1
}

func (m *Machine) containsTerm(s, pat []Value) Value {
	if len(pat) == 0 {
		return true
	}
	var ors []*Term
	for i := 0; i+len(pat) <= len(s); i++ {
		ors = append(ors, m.matchAt(s, pat, i))
	}
	return lowerBool(m.st.Or(ors...))
}

func (m *Machine) countOf(s, pat []Value) Value {
	if len(pat) == 1 {
		// each position independently
		sum := m.st.BV(0, 64)
		for i := range s {
			c := m.p.decided(m.matchAt(s, pat, i))
			sum = m.st.Bin(OAdd, sum, m.st.Ite(c, m.st.BV(1, 64), m.st.BV(0, 64)))
		}
		return m.lower(sum, types.Typ[types.Int])
	}
	// self-overlapping patterns need care: scan
	overlap := false
	for k := 1; k < len(pat); k++ {
		if r := m.bytesEq(pat[k:], pat[:len(pat)-k]); r != false {
			overlap = true
		}
	}
	if !overlap {
		sum := m.st.BV(0, 64)
		for i := 0; i+len(pat) <= len(s); i++ {
			c := m.p.decided(m.matchAt(s, pat, i))
			sum = m.st.Bin(OAdd, sum, m.st.Ite(c, m.st.BV(1, 64), m.st.BV(0, 64)))
		}
		return m.lower(sum, types.Typ[types.Int])
	}
	n := 0
	for i := 0; i+len(pat) <= len(s); {
		if m.p.Branch(m.matchAt(s, pat, i)) {
			n++
			i += len(pat)
		} else {
			i++
		}
	}
	return uint64(n)
}

func (m *Machine) replaceStr(s, old, nw []Value, n int) []Value {
	var out []Value
	i := 0
	for i < len(s) {
		if n != 0 && i+len(old) <= len(s) && m.p.Branch(m.matchAt(s, old, i)) {
			out = append(out, nw...)
			i += len(old)
			if n > 0 {
				n--
			}
			continue
		}
		out = append(out, s[i])
		i++
	}
	return out
}

func (m *Machine) allASCII(bs []Value) bool {
	var cs []*Term
	for _, b := range bs {
		switch b := b.(type) {
		case uint64:
			if b >= 0x80 {
				return false
			}
		case *Term:
			cs = append(cs, m.st.Cmp(OUlt, b, m.st.BV(0x80, 8)))
		}
	}
	return m.p.Branch(m.st.And(cs...))
}

func (m *Machine) caseByte(b Value, upper bool) Value {
	lo, hi := uint64('A'), uint64('Z')
	if upper {
		lo, hi = 'a', 'z'
	}
	switch b := b.(type) {
	case uint64:
		if b >= lo && b <= hi {
			return b ^ 0x20
		}
		return b
	case *Term:
		st := m.st
		in := st.And(st.Cmp(OUle, st.BV(lo, 8), b), st.Cmp(OUle, b, st.BV(hi, 8)))
		return m.lower8(st.Ite(in, st.Bin(OBXor, b, st.BV(0x20, 8)), b))
	}
	panic("caseByte")
}

// concretizeStr forks until the string is concrete.
func (m *Machine) concretizeStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		switch b := b.(type) {
		case uint64:
			out[i] = byte(b)
		case *Term:
			out[i] = byte(m.p.Concretize(b, 300))
		}
	}
	return string(out)
}

func allConc(args []Value) bool {
	for _, a := range args {
		switch a := a.(type) {
		case *SymStr, *Term, symTab:
			return false
		case Slice:
			for _, x := range a {
				switch x.(type) {
				case *SymStr, *Term:
					return false
				}
			}
		}
	}
	return true
}

func init() {
	s := func(v Value) string { return v.(string) }
	i := func(v Value) int { return int(int64(v.(uint64))) }
	bl := func(b bool) Value { return b }
	in := func(n int) Value { return uint64(int64(n)) }

	// concrete fast path with symbolic fallback
	two := func(conc func(a []Value) Value, sym func(m *Machine, a []Value) Value) Intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			if allConc(a) {
				return conc(a), true
			}
			if sym == nil {
				return nil, false
			}
			return sym(m, a), true
		}
	}
	strs := func(xs []string) Value {
		if xs == nil {
			return Slice(nil)
		}
		r := make(Slice, len(xs))
		for k, x := range xs {
			r[k] = x
		}
		return r
	}
	reg("strings.HasPrefix", two(func(a []Value) Value { return bl(strings.HasPrefix(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value {
		x, y := strBytes(a[0]), strBytes(a[1])
		if len(y) > len(x) {
			return false
		}
		return m.bytesEq(x[:len(y)], y)
	}))
	reg("strings.HasSuffix", two(func(a []Value) Value { return bl(strings.HasSuffix(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value {
		x, y := strBytes(a[0]), strBytes(a[1])
		if len(y) > len(x) {
			return false
		}
		return m.bytesEq(x[len(x)-len(y):], y)
	}))
	reg("strings.Contains", two(func(a []Value) Value { return bl(strings.Contains(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value {
		return m.containsTerm(strBytes(a[0]), strBytes(a[1]))
	}))
	idx := two(func(a []Value) Value { return in(strings.Index(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value {
		return in(m.indexFrom(strBytes(a[0]), strBytes(a[1]), 0))
	})
	reg("strings.Index", idx)
	reg("internal/bytealg.IndexString", idx)
	reg("internal/stringslite.Index", idx)
	reg("strings.LastIndex", two(func(a []Value) Value { return in(strings.LastIndex(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value {
		return in(m.lastIndexOf(strBytes(a[0]), strBytes(a[1])))
	}))
	ib := two(func(a []Value) Value { return in(strings.IndexByte(s(a[0]), byte(a[1].(uint64)))) }, func(m *Machine, a []Value) Value {
		return in(m.indexFrom(strBytes(a[0]), []Value{a[1]}, 0))
	})
	reg("strings.IndexByte", ib)
	reg("internal/bytealg.IndexByteString", ib)
	reg("internal/stringslite.IndexByte", ib)
	lib := func(m *Machine, a []Value) Value { return in(m.lastIndexOf(strBytes(a[0]), []Value{a[1]})) }
	regv(lib, "strings.LastIndexByte", "internal/bytealg.LastIndexByteString")
	cnt := two(func(a []Value) Value { return in(strings.Count(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value {
		if strLen(a[1]) == 0 {
			m.unsupported("count of empty")
		}
		return m.countOf(strBytes(a[0]), strBytes(a[1]))
	})
	reg("strings.Count", cnt)
	reg("internal/bytealg.CountString", two(func(a []Value) Value { return in(strings.Count(s(a[0]), string([]byte{byte(a[1].(uint64))}))) }, func(m *Machine, a []Value) Value {
		return m.countOf(strBytes(a[0]), []Value{a[1]})
	}))
	rep := func(m *Machine, str, old, nw Value, n int) Value {
		if strLen(old) == 0 {
			m.unsupported("replace of empty string")
		}
		if strLen(old) > strLen(str) {
			return str
		}
		return mkStr(m.replaceStr(strBytes(str), strBytes(old), strBytes(nw), n))
	}
	reg("strings.Replace", two(func(a []Value) Value { return strings.Replace(s(a[0]), s(a[1]), s(a[2]), i(a[3])) }, func(m *Machine, a []Value) Value {
		return rep(m, a[0], a[1], a[2], i(a[3]))
	}))
	reg("strings.ReplaceAll", two(func(a []Value) Value { return strings.ReplaceAll(s(a[0]), s(a[1]), s(a[2])) }, func(m *Machine, a []Value) Value {
		return rep(m, a[0], a[1], a[2], -1)
	}))
	split := func(m *Machine, str, sep Value, n int) Value {
		sb, pb := strBytes(str), strBytes(sep)
		if len(pb) == 0 {
			m.unsupported("split by empty string")
		}
		if n == 0 {
			return Slice(nil)
		}
		r := Slice{}
		pos := 0
		for n < 0 || len(r) < n-1 {
			k := m.indexFrom(sb, pb, pos)
			if k < 0 {
				break
			}
			r = append(r, mkStr(sb[pos:k]))
			pos = k + len(pb)
		}
		r = append(r, mkStr(sb[pos:]))
		return r
	}
	reg("strings.Split", two(func(a []Value) Value { return strs(strings.Split(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value { return split(m, a[0], a[1], -1) }))
	reg("strings.SplitN", two(func(a []Value) Value { return strs(strings.SplitN(s(a[0]), s(a[1]), i(a[2]))) }, func(m *Machine, a []Value) Value { return split(m, a[0], a[1], i(a[2])) }))
	reg("strings.Join", two(func(a []Value) Value {
		var xs []string
		for _, x := range a[0].(Slice) {
			xs = append(xs, x.(string))
		}
		return strings.Join(xs, s(a[1]))
	}, func(m *Machine, a []Value) Value {
		var r Value = ""
		for k, x := range a[0].(Slice) {
			if k > 0 {
				r = strConcat(r, a[1])
			}
			r = strConcat(r, x)
		}
		return r
	}))
	cs := func(upper bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			bs := strBytes(a[0])
			if !m.allASCII(bs) {
				c := m.concretizeStr(a[0])
				if upper {
					return strings.ToUpper(c)
				}
				return strings.ToLower(c)
			}
			out := make([]Value, len(bs))
			for k, b := range bs {
				out[k] = m.caseByte(b, upper)
			}
			return mkStr(out)
		}
	}
	reg("strings.ToUpper", two(func(a []Value) Value { return strings.ToUpper(s(a[0])) }, cs(true)))
	reg("strings.ToLower", two(func(a []Value) Value { return strings.ToLower(s(a[0])) }, cs(false)))
	reg("strings.EqualFold", two(func(a []Value) Value { return bl(strings.EqualFold(s(a[0]), s(a[1]))) }, func(m *Machine, a []Value) Value {
		x, y := strBytes(a[0]), strBytes(a[1])
		if m.allASCII(x) && m.allASCII(y) {
			if len(x) != len(y) {
				return false
			}
			xs, ys := make([]Value, len(x)), make([]Value, len(y))
			for k := range x {
				xs[k], ys[k] = m.caseByte(x[k], false), m.caseByte(y[k], false)
			}
			return m.bytesEq(xs, ys)
		}
		return strings.EqualFold(m.concretizeStr(a[0]), m.concretizeStr(a[1]))
	}))
	reg("strings.TrimSpace", two(func(a []Value) Value { return strings.TrimSpace(s(a[0])) }, nil))
	reg("strings.Repeat", two(func(a []Value) Value { return strings.Repeat(s(a[0]), i(a[1])) }, nil))
	reg("strings.Fields", two(func(a []Value) Value { return strs(strings.Fields(s(a[0]))) }, nil))
	reg("strings.Compare", two(func(a []Value) Value { return in(strings.Compare(s(a[0]), s(a[1]))) }, nil))
	regv(func(m *Machine, a []Value) Value {
		if m.truth(m.strEq(a[0], a[1])) {
			return uint64(0)
		}
		if m.truth(m.strLess(a[0], a[1], false)) {
			return uint64(math.MaxUint64)
		}
		return uint64(1)
	}, "internal/bytealg.CompareString", "runtime.cmpstring")

	// byte slices
	regv(func(m *Machine, a []Value) Value { return m.bytesEq(a[0].(Slice), a[1].(Slice)) }, "bytes.Equal", "internal/bytealg.Equal")
	regv(func(m *Machine, a []Value) Value { return in(m.indexFrom(a[0].(Slice), []Value{a[1]}, 0)) }, "bytes.IndexByte", "internal/bytealg.IndexByte")
	regv(func(m *Machine, a []Value) Value { return in(m.lastIndexOf(a[0].(Slice), []Value{a[1]})) }, "bytes.LastIndexByte", "internal/bytealg.LastIndexByte")
	regv(func(m *Machine, a []Value) Value { return in(m.indexFrom(a[0].(Slice), a[1].(Slice), 0)) }, "bytes.Index", "internal/bytealg.Index")
	regv(func(m *Machine, a []Value) Value { return m.countOf(a[0].(Slice), []Value{a[1]}) }, "internal/bytealg.Count")
	regv(func(m *Machine, a []Value) Value {
		n := i(a[0])
		r := make(Slice, n)
		for k := range r {
			r[k] = uint64(0)
		}
		return r
	}, "internal/bytealg.MakeNoZero")
	regv(func(m *Machine, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "runtime.KeepAlive", "strings.Clone", "internal/stringslite.Clone")
	regv(func(m *Machine, a []Value) Value { return mkStr(a[0].(Slice)) }, "bytes.String")

	// utf8
	reg("unicode/utf8.DecodeRuneInString", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		if strLen(a[0]) == 0 {
			return Tuple{uint64(utf8.RuneError), uint64(0)}, true
		}
		r, n := m.decodeRune(a[0], 0)
		return Tuple{r, uint64(n)}, true
	})
	reg("unicode/utf8.DecodeRune", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		b := a[0].(Slice)
		if len(b) == 0 {
			return Tuple{uint64(utf8.RuneError), uint64(0)}, true
		}
		lim := len(b)
		if lim > 4 {
			lim = 4
		}
		r, n := m.decodeRune(mkStr(b[:lim]), 0)
		return Tuple{r, uint64(n)}, true
	})


	// math
	f := func(v Value) float64 { return v.(float64) }
	mf := func(name string, g func(float64) float64) {
		reg("math."+name, two(func(a []Value) Value { return g(f(a[0])) }, nil))
	}
	mf("Floor", math.Floor)
	mf("Ceil", math.Ceil)
	mf("Sqrt", math.Sqrt)
	mf("Trunc", math.Trunc)
	mf("Log", math.Log)
	mf("Log10", math.Log10)
	mf("Log2", math.Log2)
	mf("Exp", math.Exp)
	mf("sqrt", math.Sqrt)
	mf("floor", math.Floor)
	reg("math.Abs", two(func(a []Value) Value { return math.Abs(f(a[0])) }, func(m *Machine, a []Value) Value {
		t := a[0].(*Term)
		st := m.st
		return st.Ite(st.FCmp(OFLt, t, st.F64(0)), st.FNeg(t), t)
	}))
	reg("math.Pow", two(func(a []Value) Value { return math.Pow(f(a[0]), f(a[1])) }, nil))
	reg("math.Mod", two(func(a []Value) Value { return math.Mod(f(a[0]), f(a[1])) }, nil))
	reg("math.FMA", two(func(a []Value) Value { return math.FMA(f(a[0]), f(a[1]), f(a[2])) }, nil))
	regv(func(m *Machine, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return lowerBool(m.st.FIsNaN(t))
		}
		return math.IsNaN(f(a[0]))
	}, "math.IsNaN")
	for _, n := range []string{"math.Float64bits", "internal/strconv.float64bits"} {
		reg(n, two(func(a []Value) Value { return math.Float64bits(f(a[0])) }, func(m *Machine, a []Value) Value {
			m.unsupported("Float64bits of symbolic value")
			return nil
		}))
	}
	for _, n := range []string{"math.Float64frombits", "internal/strconv.float64frombits"} {
		reg(n, two(func(a []Value) Value { return math.Float64frombits(a[0].(uint64)) }, func(m *Machine, a []Value) Value {
			m.unsupported("Float64frombits of symbolic value")
			return nil
		}))
	}
	regv(func(m *Machine, a []Value) Value { return uint64(math.Float32bits(float32(f(a[0])))) }, "math.Float32bits", "internal/strconv.float32bits")
	regv(func(m *Machine, a []Value) Value { return float64(math.Float32frombits(uint32(a[0].(uint64)))) }, "math.Float32frombits", "internal/strconv.float32frombits")
	reg("math/bits.Mul64", two(func(a []Value) Value {
		h, l := bits.Mul64(a[0].(uint64), a[1].(uint64))
		return Tuple{h, l}
	}, nil))
	reg("math/bits.Add64", two(func(a []Value) Value {
		h, l := bits.Add64(a[0].(uint64), a[1].(uint64), a[2].(uint64))
		return Tuple{h, l}
	}, nil))
	reg("math/bits.LeadingZeros64", two(func(a []Value) Value { return in(bits.LeadingZeros64(a[0].(uint64))) }, nil))
	reg("math/bits.TrailingZeros64", two(func(a []Value) Value { return in(bits.TrailingZeros64(a[0].(uint64))) }, nil))
	reg("math/bits.Len64", two(func(a []Value) Value { return in(bits.Len64(a[0].(uint64))) }, nil))

	// strconv quick paths are interpreted from source; see strconvmodel.go

	// errors / fmt / log
	regv(func(m *Machine, a []Value) Value { return m.mkErr(a[0]) }, "errors.New")
	regv(func(m *Machine, a []Value) Value {
		if a[0].(Iface).T == nil || a[1].(Iface).T == nil {
			return a[0].(Iface).T == nil && a[1].(Iface).T == nil
		}
		comparable := types.Comparable(a[1].(Iface).T)
		return m.callFn(m.curFr, m.eng.prog.ImportedPackage("errors").Func("is"), []Value{a[0], a[1], comparable})
	}, "errors.Is")
	regv(func(m *Machine, a []Value) Value { return m.errorAs(a[0].(Iface), a[1].(Iface)) }, "errors.As")
	regv(func(m *Machine, a []Value) Value { return uint64(len(a[0].(Iface).V.(Slice))) }, "sort.lenOf")
	regv(func(m *Machine, a []Value) Value {
		s, i, j := a[0].(Iface).V.(Slice), a[1].(uint64), a[2].(uint64)
		s[i], s[j] = s[j], s[i]
		return nil
	}, "sort.swapIn")
	regv(noop, "log.Println", "log.Printf", "log.Print", "log.SetFlags", "log.SetOutput", "log.SetPrefix")
	regv(func(m *Machine, a []Value) Value { panic(pathEnd{"unsupported", "log.Fatal reached"}) }, "log.Fatal", "log.Fatalf", "log.Fatalln")
	regv(func(m *Machine, a []Value) Value { return Tuple{uint64(0), Iface{}} }, "fmt.Println", "fmt.Printf", "fmt.Print")
	regv(func(m *Machine, a []Value) Value {
		return m.fprint(a[0].(Iface), func() Value { return m.sprintf(a[1], a[2].(Slice)) })
	}, "fmt.Fprintf")
	regv(func(m *Machine, a []Value) Value {
		return m.fprint(a[0].(Iface), func() Value { return m.sprint(a[1].(Slice), false) })
	}, "fmt.Fprint")
	regv(func(m *Machine, a []Value) Value {
		return m.fprint(a[0].(Iface), func() Value { return m.sprint(a[1].(Slice), true) })
	}, "fmt.Fprintln")
	regv(func(m *Machine, a []Value) Value {
		return append(a[0].(Slice), strBytes(m.sprintf(a[1], a[2].(Slice)))...)
	}, "fmt.Appendf")
	regv(func(m *Machine, a []Value) Value {
		return append(a[0].(Slice), strBytes(m.sprint(a[1].(Slice), false))...)
	}, "fmt.Append")
	regv(func(m *Machine, a []Value) Value { return m.sprintf(a[0], a[1].(Slice)) }, "fmt.Sprintf")
	regv(func(m *Machine, a []Value) Value { return m.errorf(a[0], a[1].(Slice)) }, "fmt.Errorf")
	regv(func(m *Machine, a []Value) Value { return m.sprint(a[0].(Slice), false) }, "fmt.Sprint")
	regv(func(m *Machine, a []Value) Value { return m.sprint(a[0].(Slice), true) }, "fmt.Sprintln")

	// sync
	regv(noop, "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock")
	lock := func(m *Machine, a []Value) Value {
		p := m.deref(a[0])
		key := [2]any{"mutex", p}
		m.waitUntil(func() bool { return m.side[key] != true })
		m.side[key] = true
		return nil
	}
	unlock := func(m *Machine, a []Value) Value {
		key := [2]any{"mutex", m.deref(a[0])}
		if m.side[key] != true {
			panic(pathEnd{"unsupported", "unlock of unlocked mutex"})
		}
		m.side[key] = false
		return nil
	}
	regv(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	regv(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg("(*sync.Once).Do", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		key := [2]any{"once", m.deref(a[0])}
		if m.side[key] == nil {
			m.side[key] = true
			m.callFn(fr, a[1], nil)
		}
		return nil, true
	})
	reg("(*sync.Pool).Get", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		st := (*m.deref(a[0])).(Struct)
		nw := st[len(st)-1]
		if _, isNil := nw.(nilFuncT); isNil {
			return Iface{}, true
		}
		return m.callFn(fr, nw, nil), true
	})
	regv(noop, "(*sync.Pool).Put")
	wgKey := func(m *Machine, v Value) any { return [2]any{"wg", m.deref(v)} }
	wgAdd := func(m *Machine, a []Value, d int) Value {
		k := wgKey(m, a[0])
		n, _ := m.side[k].(int)
		n += d
		m.side[k] = n
		if n < 0 {
			m.rtPanic("sync: negative WaitGroup counter")
		}
		return nil
	}
	regv(func(m *Machine, a []Value) Value { return wgAdd(m, a, i(a[1])) }, "(*sync.WaitGroup).Add")
	regv(func(m *Machine, a []Value) Value { return wgAdd(m, a, -1) }, "(*sync.WaitGroup).Done")
	regv(func(m *Machine, a []Value) Value {
		k := wgKey(m, a[0])
		m.waitUntil(func() bool { n, _ := m.side[k].(int); return n == 0 })
		return nil
	}, "(*sync.WaitGroup).Wait")
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer", "Uintptr"} {
		regv(func(m *Machine, a []Value) Value { return *m.deref(a[0]) }, "sync/atomic.Load"+ty)
		regv(func(m *Machine, a []Value) Value { *m.deref(a[0]) = a[1]; return nil }, "sync/atomic.Store"+ty)
		regv(func(m *Machine, a []Value) Value {
			p := m.deref(a[0])
			if m.truth(m.equals(nil, *p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		}, "sync/atomic.CompareAndSwap"+ty)
		regv(func(m *Machine, a []Value) Value { p := m.deref(a[0]); o := *p; *p = a[1]; return o }, "sync/atomic.Swap"+ty)
		if ty != "Pointer" {
			w, sg := 64, strings.HasPrefix(ty, "Int")
			if strings.HasSuffix(ty, "32") {
				w = 32
			}
			regv(func(m *Machine, a []Value) Value {
				p := m.deref(a[0])
				*p = normInt((*p).(uint64)+a[1].(uint64), w, sg)
				return *p
			}, "sync/atomic.Add"+ty)
		}
	}
	regv(noop, "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer")
	regv(func(m *Machine, a []Value) Value { m.pause(); return nil }, "time.Sleep")

	// godebug settings read as unset
	regv(func(m *Machine, a []Value) Value { p := new(Value); *p = Struct{}; return p }, "internal/godebug.New")
	regv(func(m *Machine, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value")
	regv(noop, "(*internal/godebug.Setting).IncNonDefault")

	// md5 of concrete data; symbolic data is handled by an injective tag (see hash model)
	reg("crypto/md5.Sum", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return md5Tag(mkStr(a[0].(Slice))), true
	})

	// sorting of strings
	reg("sort.Strings", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		x := a[0].(Slice)
		if allConc([]Value{x}) {
			sort.Slice(x, func(i, j int) bool { return x[i].(string) < x[j].(string) })
			return nil, true
		}
		// insertion sort with symbolic comparisons
		for p := 1; p < len(x); p++ {
			for q := p; q > 0; q-- {
				if !m.truth(m.strLess(x[q], x[q-1], false)) {
					break
				}
				x[q], x[q-1] = x[q-1], x[q]
			}
		}
		return nil, true
	})

	// type helpers
	reg("reflect.TypeOf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		it := a[0].(Iface)
		if it.T == nil {
			return Iface{}, true
		}
		return Iface{types.Typ[types.Invalid], &Opaque{"reflect.Type", it.T}}, true
	})
	reg("reflect.DeepEqual", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return m.deepEqual(a[0], a[1], 0), true
	})

	// harness primitives
	reg(hp+"vxByte", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		name := m.uniq(s(a[0]))
		al := a[1].(string)
		var allowed []uint64
		seen := map[byte]bool{}
		for k := 0; k < len(al); k++ {
			if !seen[al[k]] {
				seen[al[k]] = true
				allowed = append(allowed, uint64(al[k]))
			}
		}
		if len(allowed) == 1 {
			return allowed[0], true
		}
		return m.p.newVar(name, 8, allowed), true
	})
	regv(func(m *Machine, a []Value) Value { return m.p.newVar(m.uniq(s(a[0])), SBool, nil) }, hp+"vxBool")
	regv(func(m *Machine, a []Value) Value { return m.p.newVar(m.uniq(s(a[0])), 64, nil) }, hp+"vxInt64")
	regv(func(m *Machine, a []Value) Value {
		return m.p.newInt(m.uniq(s(a[0])), int64(a[1].(uint64)), int64(a[2].(uint64)))
	}, hp+"vxInt")
	regv(func(m *Machine, a []Value) Value { return m.p.newVar(m.uniq(s(a[0])), 32, nil) }, hp+"vxInt32")
	regv(func(m *Machine, a []Value) Value { return m.p.newVar(m.uniq(s(a[0])), SF64, nil) }, hp+"vxFloat64")
	regv(func(m *Machine, a []Value) Value { return uint64(m.choice(s(a[0]), i(a[1]))) }, hp+"vxChoose")
	regv(func(m *Machine, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathEnd{"assume", ""})
			}
		case *Term:
			m.p.Assume(c)
		}
		return nil
	}, hp+"vxAssume")
	regv(func(m *Machine, a []Value) Value { m.doAssert(a[0], s(a[1]), m.where()); return nil }, hp+"vxAssert")
	regv(func(m *Machine, a []Value) Value {
		m.run.known = append(m.run.known, knownRegion{s(a[0]), a[1]})
		return nil
	}, hp+"vxKnown")
	regv(func(m *Machine, a []Value) Value { m.run.covers[s(a[0])] = true; return nil }, hp+"vxCover")
	regv(func(m *Machine, a []Value) Value {
		v := a[1]
		if it, ok := v.(Iface); ok && it.T != nil {
			if sl, ok := it.V.(Slice); ok {
				c := make(Slice, len(sl))
				copy(c, sl)
				v = Iface{it.T, c}
			}
		}
		m.run.obs = append(m.run.obs, Obs{s(a[0]), v})
		return nil
	}, hp+"vxObs")
	regv(func(m *Machine, a []Value) Value { m.mapOrder = i(a[0]); return nil }, hp+"vxMapOrder")
	// files: only those the harness made
	regv(func(m *Machine, a []Value) Value {
		n, _ := m.side["files"].(int)
		m.side["files"] = n + 1
		name := "/vxfile/" + strconv.Itoa(n)
		m.side[[2]any{"file", name}] = Slice(append([]Value(nil), strBytes(a[0])...))
		return name
	}, hp+"vxFile")
	file := func(m *Machine, name Value) (Slice, bool) {
		f, ok := m.side[[2]any{"file", m.mustStr(name, "file name")}].(Slice)
		return f, ok
	}
	regv(func(m *Machine, a []Value) Value {
		f, ok := file(m, a[0])
		if !ok {
			return Tuple{Slice(nil), m.mkErr("open: no such file or directory")}
		}
		return Tuple{append(Slice{}, f...), Iface{}}
	}, "os.ReadFile", "io/ioutil.ReadFile")
	regv(func(m *Machine, a []Value) Value {
		f, ok := file(m, a[0])
		if !ok {
			return Tuple{(*Value)(nil), m.mkErr("open: no such file or directory")}
		}
		p := new(Value)
		*p = Struct{}
		m.side[[2]any{"open", Value(p)}] = f
		return Tuple{p, Iface{}}
	}, "os.Open")
	regv(func(m *Machine, a []Value) Value {
		f, ok := m.side[[2]any{"open", a[0]}].(Slice)
		if !ok {
			m.unsupported("read of a file of unknown origin")
		}
		b := a[1].(Slice)
		if len(b) == 0 {
			return Tuple{uint64(0), Iface{}}
		}
		if len(f) == 0 {
			return Tuple{uint64(0), m.ioEOF()}
		}
		n := copy(b, f)
		m.side[[2]any{"open", a[0]}] = f[n:]
		return Tuple{uint64(n), Iface{}}
	}, "(*os.File).Read")
	regv(func(m *Machine, a []Value) Value { return Iface{} }, "(*os.File).Close")
	regv(func(m *Machine, a []Value) Value { return uint64(m.side["tier"].(int)) }, hp+"vxTier")
	// boolean connectives without forking
	regv(func(m *Machine, a []Value) Value {
		return lowerBool(m.st.And(m.lift(a[0], types.Typ[types.Bool]), m.lift(a[1], types.Typ[types.Bool])))
	}, hp+"vxAnd")
	regv(func(m *Machine, a []Value) Value {
		return lowerBool(m.st.Or(m.lift(a[0], types.Typ[types.Bool]), m.lift(a[1], types.Typ[types.Bool])))
	}, hp+"vxOr")
	regv(func(m *Machine, a []Value) Value {
		return lowerBool(m.st.Eq(m.lift(a[0], types.Typ[types.Bool]), m.lift(a[1], types.Typ[types.Bool])))
	}, hp+"vxIff")
	regv(func(m *Machine, a []Value) Value { return m.containsTerm(strBytes(a[0]), strBytes(a[1])) }, hp+"vxContains")
}

// md5Tag models the digest of symbolic data: the digest array carries the data
// itself, so equality of digests coincides with equality of data. Collisions of
// the hash function are outside the model.
type md5tag struct{ s Value }

func md5Tag(v Value) Value {
	r := make(Array, 16)
	for k := range r {
		r[k] = &Opaque{"md5", md5tag{v}}
	}
	return r
}

func (m *Machine) deepEqual(x, y Value, depth int) Value {
	if depth > 60 {
		m.unsupported("DeepEqual depth")
	}
	and := func(a, b Value) Value {
		if a == false || b == false {
			return false
		}
		if a == true {
			return b
		}
		if b == true {
			return a
		}
		return lowerBool(m.st.And(a.(*Term), b.(*Term)))
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return false
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !identical(a.T, b.T) {
			return false
		}
		return m.deepEqual(a.V, b.V, depth+1)
	case Slice:
		b := y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r Value = true
		for k := range a {
			r = and(r, m.deepEqual(a[k], b[k], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		b := y.(Array)
		var r Value = true
		for k := range a {
			r = and(r, m.deepEqual(a[k], b[k], depth+1))
		}
		return r
	case Struct:
		b := y.(Struct)
		var r Value = true
		for k := range a {
			r = and(r, m.deepEqual(a[k], b[k], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *Map:
		b := y.(*Map)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.live != b.live {
			return false
		}
		var r Value = true
		for _, e := range a.ents {
			f := m.mapFind(b, e.key)
			if f == nil {
				return false
			}
			r = and(r, m.deepEqual(e.val, f.val, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return m.deepEqual(*a, *b, depth+1)
	case nilFuncT:
		_, ok := y.(nilFuncT)
		return ok
	case *Closure, *ssa.Function:
		return false
	case *Opaque:
		b, ok := y.(*Opaque)
		return ok && a == b
	}
	return m.equals(nil, x, y)
}

var _ = fmt.Sprint

var uniqueMu sync.Mutex
var uniqueHandles = map[string]*Value{}

func init() {
	// canonical pointers for concrete comparable values
	reg("unique.Make", func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) (Value, bool) {
		var sb strings.Builder
		if !concreteKey(&sb, args[0]) {
			m.unsupported("unique.Make of a symbolic value")
		}
		k := fn.String() + "|" + sb.String()
		uniqueMu.Lock()
		defer uniqueMu.Unlock()
		p := uniqueHandles[k]
		if p == nil {
			p = new(Value)
			*p = args[0]
			uniqueHandles[k] = p
		}
		return Struct{p}, true
	})
}

func concreteKey(sb *strings.Builder, v Value) bool {
	switch v := v.(type) {
	case bool, uint64, float64, string:
		fmt.Fprintf(sb, "%T:%q;", v, fmt.Sprint(v))
		return true
	case Struct:
		for _, x := range v {
			if !concreteKey(sb, x) {
				return false
			}
		}
		sb.WriteString("|")
		return true
	}
	return false
}

func init() {
	regv(func(m *Machine, args []Value) Value { return uint64(1) }, "time.runtimeNano")
	regv(func(m *Machine, args []Value) Value { return nil }, "time.initLocal") // the local zone is UTC
}
