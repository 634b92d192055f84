package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func decodeRuneBytes(b []byte) (rune, int) { return utf8.DecodeRune(b) }

func (m *Machine) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.equals(xt, x, y)
	case token.NEQ:
		switch r := m.equals(xt, x, y).(type) {
		case bool:
			return !r
		case *Term:
			return lowerBool(m.st.Not(r))
		}
	}
	switch a := x.(type) {
	case uint64:
		if b, ok := y.(uint64); ok {
			return m.intOp(op, xt, yt, a, b)
		}
		return m.symIntOp(op, xt, yt, m.lift(x, xt), m.lift(y, yt))
	case float64:
		if b, ok := y.(float64); ok {
			f32 := basicOf(xt).Kind() == types.Float32
			rd := func(f float64) Value {
				if f32 {
					return float64(float32(f))
				}
				return f
			}
			switch op {
			case token.ADD:
				return rd(a + b)
			case token.SUB:
				return rd(a - b)
			case token.MUL:
				return rd(a * b)
			case token.QUO:
				return rd(a / b)
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		return m.symFloatOp(op, m.lift(x, xt), m.lift(y, yt))
	case *Term:
		if a.w == SF64 {
			return m.symFloatOp(op, a, m.lift(y, yt))
		}
		if a.w == SBool {
			b := m.lift(y, yt)
			switch op {
			case token.AND:
				return lowerBool(m.st.And(a, b))
			case token.OR:
				return lowerBool(m.st.Or(a, b))
			}
		}
		return m.symIntOp(op, xt, yt, a, m.lift(y, yt))
	case bool:
		switch b := y.(type) {
		case bool:
			switch op {
			case token.AND:
				return a && b
			case token.OR:
				return a || b
			}
		case *Term:
			switch op {
			case token.AND:
				return lowerBool(m.st.And(m.st.Bool(a), b))
			case token.OR:
				return lowerBool(m.st.Or(m.st.Bool(a), b))
			}
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	case complex128:
		if b, ok := y.(complex128); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			}
		}
	}
	m.unsupported("binop %v on %T,%T", op, x, y)
	return nil
}

func (m *Machine) intOp(op token.Token, xt, yt types.Type, a, b uint64) Value {
	w, s, ok := typeIntWidth(xt)
	if !ok {
		m.unsupported("int op on %v", xt)
	}
	switch op {
	case token.ADD:
		return normInt(a+b, w, s)
	case token.SUB:
		return normInt(a-b, w, s)
	case token.MUL:
		return normInt(a*b, w, s)
	case token.QUO:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if s {
			if int64(b) == -1 {
				return normInt(-a, w, s)
			}
			return normInt(uint64(int64(a)/int64(b)), w, s)
		}
		return a / b
	case token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if s {
			if int64(b) == -1 {
				return uint64(0)
			}
			return normInt(uint64(int64(a)%int64(b)), w, s)
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return normInt(a^b, w, s)
	case token.AND_NOT:
		return normInt(a&^b, w, s)
	case token.SHL, token.SHR:
		_, ys, _ := typeIntWidth(yt)
		if ys && int64(b) < 0 {
			m.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return uint64(0)
			}
			return normInt(a<<b, w, s)
		}
		if s {
			if b >= 64 {
				b = 63
			}
			return normInt(uint64(int64(a)>>b), w, s)
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	case token.LSS:
		if s {
			return int64(a) < int64(b)
		}
		return a < b
	case token.LEQ:
		if s {
			return int64(a) <= int64(b)
		}
		return a <= b
	case token.GTR:
		if s {
			return int64(a) > int64(b)
		}
		return a > b
	case token.GEQ:
		if s {
			return int64(a) >= int64(b)
		}
		return a >= b
	}
	m.unsupported("int op %v", op)
	return nil
}

func (m *Machine) symIntOp(op token.Token, xt, yt types.Type, a, b *Term) Value {
	w, s, ok := typeIntWidth(xt)
	if !ok {
		m.unsupported("symbolic int op on %v", xt)
	}
	_ = w
	st := m.st
	sel := func(su, un Op) Op {
		if s {
			return su
		}
		return un
	}
	switch op {
	case token.ADD:
		return m.lower(st.Bin(OAdd, a, b), xt)
	case token.SUB:
		return m.lower(st.Bin(OSub, a, b), xt)
	case token.MUL:
		return m.lower(st.Bin(OMul, a, b), xt)
	case token.QUO, token.REM:
		if m.p.Branch(st.Eq(b, st.BV(0, b.w))) {
			m.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return m.lower(st.Bin(sel(OSDiv, OUDiv), a, b), xt)
		}
		return m.lower(st.Bin(sel(OSRem, OURem), a, b), xt)
	case token.AND:
		return m.lower(st.Bin(OBAnd, a, b), xt)
	case token.OR:
		return m.lower(st.Bin(OBOr, a, b), xt)
	case token.XOR:
		return m.lower(st.Bin(OBXor, a, b), xt)
	case token.AND_NOT:
		return m.lower(st.Bin(OBAnd, a, st.Bin(OBXor, b, st.BV(^uint64(0), b.w))), xt)
	case token.SHL, token.SHR:
		_, ys, _ := typeIntWidth(yt)
		if ys {
			if m.p.Branch(st.Cmp(OSlt, b, st.BV(0, b.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		c := b
		if b.w > a.w {
			c = st.Ite(st.Cmp(OUle, st.BV(uint64(a.w), b.w), b), st.BV(uint64(a.w), a.w), st.Trunc(b, a.w))
		} else if b.w < a.w {
			c = st.Zext(b, a.w)
		}
		if op == token.SHL {
			return m.lower(st.Bin(OShl, a, c), xt)
		}
		return m.lower(st.Bin(sel(OAshr, OLshr), a, c), xt)
	case token.LSS:
		return lowerBool(st.Cmp(sel(OSlt, OUlt), a, b))
	case token.LEQ:
		return lowerBool(st.Cmp(sel(OSle, OUle), a, b))
	case token.GTR:
		return lowerBool(st.Cmp(sel(OSlt, OUlt), b, a))
	case token.GEQ:
		return lowerBool(st.Cmp(sel(OSle, OUle), b, a))
	}
	m.unsupported("symbolic int op %v", op)
	return nil
}

func (m *Machine) symFloatOp(op token.Token, a, b *Term) Value {
	st := m.st
	lf := func(t *Term) Value {
		if t.isConst() {
			return math.Float64frombits(t.val)
		}
		return t
	}
	switch op {
	case token.ADD:
		return lf(st.FBin(OFAdd, a, b))
	case token.SUB:
		return lf(st.FBin(OFSub, a, b))
	case token.MUL:
		return lf(st.FBin(OFMul, a, b))
	case token.QUO:
		return lf(st.FBin(OFDiv, a, b))
	case token.LSS:
		return lowerBool(st.FCmp(OFLt, a, b))
	case token.LEQ:
		return lowerBool(st.FCmp(OFLe, a, b))
	case token.GTR:
		return lowerBool(st.FCmp(OFLt, b, a))
	case token.GEQ:
		return lowerBool(st.FCmp(OFLe, b, a))
	}
	m.unsupported("symbolic float op %v", op)
	return nil
}

func (m *Machine) byteTerm(v Value) *Term {
	switch v := v.(type) {
	case uint64:
		return m.st.BV(v, 8)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("byteTerm %T", v))
}

func (m *Machine) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	var cs []*Term
	for i := range a {
		x, xc := a[i].(uint64)
		y, yc := b[i].(uint64)
		if xc && yc {
			if x != y {
				return false
			}
			continue
		}
		e := m.st.Eq(m.byteTerm(a[i]), m.byteTerm(b[i]))
		if e.isFalse() {
			return false
		}
		if e.isTrue() {
			continue
		}
		cs = append(cs, e)
	}
	return lowerBool(m.st.And(cs...))
}

func (m *Machine) strEq(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a == b
	}
	if strLen(x) != strLen(y) {
		return false
	}
	return m.bytesEq(strBytes(x), strBytes(y))
}

func (m *Machine) strLess(x, y Value, orEq bool) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		if orEq {
			return a <= b
		}
		return a < b
	}
	xb, yb := strBytes(x), strBytes(y)
	st := m.st
	n := len(xb)
	if len(yb) < n {
		n = len(yb)
	}
	var tail *Term
	switch {
	case len(xb) < len(yb):
		tail = st.True
	case len(xb) == len(yb):
		tail = st.Bool(orEq)
	default:
		tail = st.False
	}
	for i := n - 1; i >= 0; i-- {
		p, q := m.byteTerm(xb[i]), m.byteTerm(yb[i])
		tail = st.Or(st.Cmp(OUlt, p, q), st.And(st.Eq(p, q), tail))
	}
	return lowerBool(tail)
}

// equals compares two values of static type t.
func (m *Machine) equals(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return lowerBool(m.st.Eq(m.st.Bool(a), y.(*Term)))
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		b := y.(*Term)
		return lowerBool(m.st.Eq(m.st.BV(a, b.w), b))
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		return lowerBool(m.st.FCmp(OFEq, m.st.F64(a), y.(*Term)))
	case *Term:
		if a.w == SF64 {
			var b *Term
			switch y := y.(type) {
			case float64:
				b = m.st.F64(y)
			case *Term:
				b = y
			}
			return lowerBool(m.st.FCmp(OFEq, a, b))
		}
		switch b := y.(type) {
		case *Term:
			return lowerBool(m.st.Eq(a, b))
		case uint64:
			return lowerBool(m.st.Eq(a, m.st.BV(b, a.w)))
		case bool:
			return lowerBool(m.st.Eq(a, m.st.Bool(b)))
		}
	case string, *SymStr:
		return m.strEq(x, y)
	case complex128:
		return a == y.(complex128)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return false
		}
		return a == b
	case *Opaque:
		b, ok := y.(*Opaque)
		return ok && a == b
	case *SymElem:
		if isNilPtr(y) {
			return false
		}
		m.unsupported("compare symbolic element pointers")
	case *Map:
		b, _ := y.(*Map)
		return a == b
	case *Chan:
		b, _ := y.(*Chan)
		return a == b
	case Slice:
		b, _ := y.(Slice)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		m.unsupported("slice comparison")
	case nilFuncT:
		_, ok := y.(nilFuncT)
		return ok
	case *Closure, *ssa.Function:
		if _, ok := y.(nilFuncT); ok {
			return false
		}
		return x == y
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			m.unsupported("compare interface with %T", y)
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !identical(a.T, b.T) {
			return false
		}
		if !types.Comparable(a.T) {
			m.rtPanic("comparing uncomparable type %v", a.T)
		}
		return m.equals(a.T, a.V, b.V)
	case Struct:
		b := y.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range a {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			switch r := m.equals(ft, a[i], b[i]).(type) {
			case bool:
				if !r {
					return false
				}
			case *Term:
				cs = append(cs, r)
			}
		}
		return lowerBool(m.st.And(cs...))
	case Array:
		b := y.(Array)
		at := t.Underlying().(*types.Array)
		var cs []*Term
		for i := range a {
			switch r := m.equals(at.Elem(), a[i], b[i]).(type) {
			case bool:
				if !r {
					return false
				}
			case *Term:
				cs = append(cs, r)
			}
		}
		return lowerBool(m.st.And(cs...))
	}
	m.unsupported("equals %T %T", x, y)
	return nil
}

func (m *Machine) conv(to, from types.Type, x Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	if identical(ut, uf) {
		return x
	}
	switch tt := ut.(type) {
	case *types.Pointer:
		return x
	case *types.Slice:
		// string -> []byte / []rune
		if fb := basicOf(from); fb != nil && fb.Info()&types.IsString != 0 {
			if basicOf(tt.Elem()).Kind() == types.Uint8 {
				b := strBytes(x)
				r := make(Slice, len(b), roundCap(len(b), 1))
				copy(r, b)
				full := r[:cap(r)]
				for i := len(b); i < len(full); i++ {
					full[i] = uint64(0)
				}
				return r
			}
			var r Slice
			r = Slice{}
			for i := 0; i < strLen(x); {
				c, n := m.decodeRune(x, i)
				r = append(r, c)
				i += n
			}
			return r
		}
		return x
	case *types.Basic:
		if tt.Kind() == types.UnsafePointer {
			return x
		}
		if tt.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case string, *SymStr:
				return x
			case Slice:
				et := uf.(*types.Slice).Elem()
				if basicOf(et).Kind() == types.Uint8 {
					return mkStr(v)
				}
				var r Value = ""
				for _, c := range v {
					r = strConcat(r, m.runeToStr(c))
				}
				return r
			case uint64, *Term:
				return m.runeToStr(x)
			}
		}
		if tt.Info()&types.IsInteger != 0 {
			w, s, _ := intWidth(tt.Kind())
			switch v := x.(type) {
			case uint64:
				return normInt(v, w, s)
			case float64:
				if s {
					return normInt(uint64(int64(v)), w, s)
				}
				return normInt(uint64(v), w, s)
			case *Term:
				if v.w == SF64 {
					return m.lower(m.st.Trunc(m.st.FToInt(v, 64), w), to)
				}
				if v.w == w {
					return v
				}
				if v.w > w {
					return m.lower(m.st.Trunc(v, w), to)
				}
				_, fs, _ := typeIntWidth(from)
				if fs {
					return m.lower(m.st.Sext(v, w), to)
				}
				return m.lower(m.st.Zext(v, w), to)
			case *Value:
				m.unsupported("pointer to integer conversion")
			}
		}
		if tt.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case uint64:
				_, fs, _ := typeIntWidth(from)
				var f float64
				if fs {
					f = float64(int64(v))
				} else {
					f = float64(v)
				}
				if tt.Kind() == types.Float32 {
					if fs {
						f = float64(float32(int64(v)))
					} else {
						f = float64(float32(v))
					}
				}
				return f
			case float64:
				if tt.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				if tt.Kind() == types.Float32 {
					m.unsupported("symbolic float32")
				}
				if v.w == SF64 {
					return v
				}
				_, fs, _ := typeIntWidth(from)
				return m.st.FFromInt(v, fs)
			}
		}
		if tt.Info()&types.IsComplex != 0 {
			return x
		}
	case *types.Array:
		if s, ok := x.(Slice); ok {
			if int64(len(s)) < tt.Len() {
				m.rtPanic("cannot convert slice with length %d to array", len(s))
			}
			return copyVal(Array(s[:tt.Len()]))
		}
	}
	m.unsupported("convert %v to %v (%T)", from, to, x)
	return nil
}

func (m *Machine) runeToStr(x Value) Value {
	switch v := x.(type) {
	case uint64:
		return string(rune(int64(v)))
	case *Term:
		st := m.st
		if m.p.Branch(st.Cmp(OUlt, v, st.BV(0x80, v.w))) {
			return mkStr([]Value{m.lower8(st.Trunc(v, 8))})
		}
		c := m.p.Concretize(v, 300)
		return string(rune(sext64(c, v.w)))
	}
	panic("runeToStr")
}

func (m *Machine) lower8(t *Term) Value {
	if t.isConst() {
		return t.val & 0xff
	}
	return t
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n, elem int) int {
	if n == 0 || elem == 0 {
		return n
	}
	sz := n * elem
	for _, c := range sizeClasses {
		if c >= sz {
			return c / elem
		}
	}
	return (sz + 8191) / 8192 * 8192 / elem
}

func growCap(old, need, elem int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if r := roundCap(nc, elem); r > nc {
		nc = r
	}
	return nc
}

func (m *Machine) appendVals(s Slice, vs []Value, et types.Type) Slice {
	need := len(s) + len(vs)
	if need <= cap(s) {
		r := s[:need]
		tmp := make([]Value, len(vs))
		for i, v := range vs {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			storeTo(&r[len(s)+i], v)
		}
		return r
	}
	es := 8
	if et != nil {
		es = int(m.eng.sizes.Sizeof(et))
	}
	nc := growCap(cap(s), need, es)
	r := make(Slice, nc)
	copy(r, s)
	for i, v := range vs {
		r[len(s)+i] = copyVal(v)
	}
	var z Value
	if et != nil {
		z = zero(et)
	}
	for i := need; i < nc; i++ {
		if et != nil {
			r[i] = copyVal(z)
		}
	}
	return r[:need]
}

func (m *Machine) callBuiltin(fr *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	var st *types.Signature
	if s, ok := b.Type().(*types.Signature); ok {
		st = s
	}
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].(Slice)
		var et types.Type
		if st != nil && st.Params().Len() > 0 {
			if sl, ok := st.Params().At(0).Type().Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		switch y := args[1].(type) {
		case string, *SymStr:
			bs := strBytes(y)
			if len(bs) == 0 {
				return s
			}
			return m.appendVals(s, bs, et)
		case Slice:
			if len(y) == 0 {
				return s
			}
			return m.appendVals(s, y, et)
		}
		m.unsupported("append of %T", args[1])
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			src = strBytes(y)
		case Slice:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&dst[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len(m.elemsOf(x)))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len(m.elemsOf(x)))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		}
	case "delete":
		m.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents = nil
				x.idx = map[any]*MapEntry{}
				x.nsym, x.live = 0, 0
			}
			return nil
		case Slice:
			et := st.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeTo(&x[i], zero(et))
			}
			return nil
		}
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// called from a deferred function: the panicking frame is the caller's caller
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			p := fr.caller
			p.panicking = false
			return p.panicVal.(targetPanic).v
		}
		return Iface{}
	case "min", "max":
		t := st.Params().At(0).Type()
		r := args[0]
		for _, y := range args[1:] {
			lt := m.binop(token.LSS, t, t, y, r)
			if b.Name() == "max" {
				lt = m.binop(token.LSS, t, t, r, y)
			}
			if m.truth(lt) {
				r = y
			}
		}
		return r
	case "close":
		m.chanClose(args[0].(*Chan))
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		n := int(int64(m.concInt(args[1], types.Typ[types.Int])))
		if n == 0 {
			return ""
		}
		p := m.deref(args[0])
		return mkStr(unsafe.Slice(p, n))
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return nilPtr
		}
		cp := make([]Value, len(bs))
		copy(cp, bs)
		return &cp[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			if s == nil {
				return nilPtr
			}
			return new(Value)
		}
		return &s[:1][0]
	case "Slice":
		n := int(int64(m.concInt(args[1], types.Typ[types.Int])))
		if isNilPtr(args[0]) {
			return Slice(nil)
		}
		p := m.deref(args[0])
		return Slice(unsafe.Slice(p, n))
	}
	m.unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}
