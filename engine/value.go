package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//   bool, uint64 (all integer kinds, truncated to the width of their type; signed kinds are stored sign-extended),
//   float64, complex128, string, *SymStr, *Term,
//   *Value (pointer), *SymElem (pointer to a table element with symbolic index), nilPtr (nil pointer)
//   Struct, Array, Slice (nil Slice = nil slice), *Map (nil = nil map), Iface, *Closure, *ssa.Function, *ssa.Builtin, nilFunc,
//   Tuple, *MapIter, *StrIter, *Chan, *Opaque
type Value any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type Iface struct {
	T types.Type // nil for nil interface
	V Value
}
type Closure struct {
	Fn  *ssa.Function
	Env []Value
}
type nilFuncT struct{}

var nilFunc = nilFuncT{}

type SymStr struct{ b []Value } // each uint64 or *Term (w=8); at least one symbolic

// SymElem is a pointer into an array/slice at a symbolic (in range) index.
type SymElem struct {
	elems []Value
	idx   *Term
}

// Opaque holds engine-level objects (compiled regexps, ...)
type Opaque struct {
	kind string
	v    any
}

type MapEntry struct {
	key, val Value
	dead     bool
}
type Map struct {
	ents  []*MapEntry
	idx   map[any]*MapEntry // concrete keys
	nsym  int               // entries with symbolic keys (live or dead)
	live  int
	keyT  types.Type
	shape string
}
type MapIter struct {
	m    *Map
	ents []*MapEntry
	pos  int
}
type StrIter struct {
	s   Value
	pos int
}
type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

var nilPtr = (*Value)(nil)

func isNilPtr(v Value) bool {
	p, ok := v.(*Value)
	return ok && p == nil
}

func intWidth(k types.BasicKind) (w int, signed bool, ok bool) {
	switch k {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func normInt(v uint64, w int, signed bool) uint64 {
	if w == 64 {
		return v
	}
	if signed {
		return uint64(sext64(v&mask(w), w))
	}
	return v & mask(w)
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func typeIntWidth(t types.Type) (int, bool, bool) {
	b := basicOf(t)
	if b == nil {
		return 0, false, false
	}
	return intWidth(b.Kind())
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return nilPtr
		case t.Kind() == types.UntypedNil:
			return nilPtr
		}
	case *types.Pointer:
		return nilPtr
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return nilFunc
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(pathEnd{"unsupported", "zero of type parameter"})
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

func storeTo(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if cur, ok := (*p).(Struct); ok && len(cur) == len(v) {
			for i := range v {
				storeTo(&cur[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if cur, ok := (*p).(Array); ok && len(cur) == len(v) {
			for i := range v {
				storeTo(&cur[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings ----

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			c := make([]Value, len(b))
			copy(c, b)
			return &SymStr{c}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

var byteVals [256]Value

func init() {
	for i := range byteVals {
		byteVals[i] = uint64(i)
	}
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = byteVals[v[i]]
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return byteVals[v[i]]
	case *SymStr:
		return v.b[i]
	}
	panic(fmt.Sprintf("strAt %T", v))
}

func strSlice(v Value, i, j int) Value {
	switch v := v.(type) {
	case string:
		return v[i:j]
	case *SymStr:
		return mkStr(v.b[i:j])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	r := make([]Value, 0, strLen(a)+strLen(b))
	r = append(r, strBytes(a)...)
	r = append(r, strBytes(b)...)
	return &SymStr{r}
}

func isSym(v Value) bool {
	switch v.(type) {
	case *Term, *SymStr:
		return true
	}
	return false
}

func bytesOfString(s string) Slice {
	r := make(Slice, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = byteVals[s[i]]
	}
	return r
}

// ---- maps ----

// hashKey gives a Go-comparable key for fully concrete values.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, string, *Value, *Map, *Chan, *Opaque:
		return v, true
	case float64:
		return math.Float64bits(v + 0), true
	case nilFuncT:
		return v, true
	case Iface:
		if v.T == nil {
			return "nil-iface", true
		}
		k, ok := hashKey(v.V)
		if !ok {
			return nil, false
		}
		return [2]any{typeKey(v.T), k}, true
	case Struct:
		var sb strings.Builder
		for _, x := range v {
			k, ok := hashKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "S" + sb.String(), true
	case Array:
		var sb strings.Builder
		for _, x := range v {
			k, ok := hashKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "A" + sb.String(), true
	case *Term, *SymStr:
		return nil, false
	}
	panic(fmt.Sprintf("hashKey %T", v))
}

func newMap(keyT types.Type) *Map {
	return &Map{idx: map[any]*MapEntry{}, keyT: keyT}
}

func (mc *Machine) mapFind(m *Map, k Value) *MapEntry {
	if m == nil {
		return nil
	}
	hk, conc := hashKey(k)
	if conc {
		if e, ok := m.idx[hk]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := hashKey(e.key); ec {
				continue
			}
		}
		if mc.truth(mc.equals(m.keyT, e.key, k)) {
			return e
		}
	}
	return nil
}

func (mc *Machine) mapSet(m *Map, k, v Value) {
	if e := mc.mapFind(m, k); e != nil {
		e.val = v
		return
	}
	e := &MapEntry{key: k, val: v}
	m.ents = append(m.ents, e)
	m.live++
	if hk, ok := hashKey(k); ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (mc *Machine) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	if e := mc.mapFind(m, k); e != nil {
		e.dead = true
		m.live--
		if hk, ok := hashKey(e.key); ok {
			delete(m.idx, hk)
		}
		// compact
		out := m.ents[:0:0]
		for _, x := range m.ents {
			if x != e {
				out = append(out, x)
			}
		}
		m.ents = out
	}
}

// ---- deep clone of snapshot globals ----

type cloner struct {
	ptrs map[*Value]*Value
	arrs map[unsafe.Pointer]struct {
		old, new []Value
	}
	maps map[*Map]*Map
	// memory regions: pointers into structs/arrays/slices
	regions []region
}
type region struct {
	lo, hi uintptr
	old    []Value
	new    []Value
}

func newCloner() *cloner {
	return &cloner{ptrs: map[*Value]*Value{}, maps: map[*Map]*Map{}}
}

func (c *cloner) region(old []Value) []Value {
	if cap(old) == 0 {
		return old
	}
	full := old[:cap(old)]
	lo := uintptr(unsafe.Pointer(&full[0]))
	if nw := c.find(lo); nw != nil {
		// locate offset
		for i := range c.regions {
			r := &c.regions[i]
			if lo >= r.lo && lo < r.hi {
				off := int(lo-r.lo) / int(unsafe.Sizeof(full[0]))
				if off+cap(old) <= len(r.new) {
					return r.new[off : off+len(old) : off+cap(old)]
				}
			}
		}
	}
	n := make([]Value, len(full))
	c.regions = append(c.regions, region{lo, lo + uintptr(len(full))*unsafe.Sizeof(full[0]), full, n})
	for i := range full {
		n[i] = c.clone(full[i])
	}
	return n[:len(old)]
}

func (c *cloner) find(p uintptr) *Value {
	for i := range c.regions {
		r := &c.regions[i]
		if p >= r.lo && p < r.hi {
			return &r.new[int(p-r.lo)/int(unsafe.Sizeof(r.new[0]))]
		}
	}
	return nil
}

func (c *cloner) clone(v Value) Value {
	switch v := v.(type) {
	case *Value:
		return c.ptr(v)
	case Struct:
		return Struct(c.region(v))
	case Array:
		return Array(c.region(v))
	case Slice:
		if v == nil {
			return v
		}
		if cap(v) == 0 {
			return v
		}
		return Slice(c.region(v))
	case *Map:
		if v == nil {
			return v
		}
		if n, ok := c.maps[v]; ok {
			return n
		}
		n := newMap(v.keyT)
		c.maps[v] = n
		for _, e := range v.ents {
			ne := &MapEntry{key: c.clone(e.key), val: c.clone(e.val)}
			n.ents = append(n.ents, ne)
			n.live++
			if hk, ok := hashKey(ne.key); ok {
				n.idx[hk] = ne
			} else {
				n.nsym++
			}
		}
		return n
	case Iface:
		return Iface{v.T, c.clone(v.V)}
	case *Closure:
		env := make([]Value, len(v.Env))
		for i := range env {
			env[i] = c.clone(v.Env[i])
		}
		return &Closure{v.Fn, env}
	case Tuple:
		n := make(Tuple, len(v))
		for i := range v {
			n[i] = c.clone(v[i])
		}
		return n
	}
	return v
}

func (c *cloner) ptr(p *Value) *Value {
	if p == nil {
		return nil
	}
	if n, ok := c.ptrs[p]; ok {
		return n
	}
	if n := c.find(uintptr(unsafe.Pointer(p))); n != nil {
		c.ptrs[p] = n
		return n
	}
	n := new(Value)
	c.ptrs[p] = n
	*n = c.clone(*p)
	return n
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
