package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// textual formatting of interpreted values, mirroring package fmt for the verbs
// the repository uses.

type fmtState struct {
	m       *Machine
	lenient bool // unformattable parts become "?": used for error texts only
	out     []Value
}

func (f *fmtState) str(v Value)    { f.out = append(f.out, strBytes(v)...) }
func (f *fmtState) lit(s string)   { f.str(s) }
func (f *fmtState) result() Value  { return mkStr(f.out) }
func (f *fmtState) fail(s string, a ...any) {
	if f.lenient {
		f.lit("?")
		return
	}
	f.m.unsupported(s, a...)
}

func (m *Machine) callMethod(recv Iface, name string) (Value, bool) {
	fn := m.eng.methodByName(recv.T, nil, name, name)
	if fn == nil || fn.Signature.Params().Len() != 0 {
		return nil, false
	}
	return m.callSSA(m.curFr, fn, []Value{recv.V}, nil), true
}

func (m *Machine) sprintf(format Value, args Slice) Value {
	f := &fmtState{m: m}
	f.format(format, args)
	return f.result()
}

// fprint writes a text to a writer; what goes to a file is not looked at.
func (m *Machine) fprint(w Iface, text func() Value) Value {
	if w.T == nil || w.T.String() == "*os.File" {
		return Tuple{uint64(0), Iface{}}
	}
	fn := m.eng.methodByName(w.T, nil, "Write", "Write")
	if fn == nil {
		m.unsupported("writer of type %v", w.T)
	}
	return m.callFn(m.curFr, fn, []Value{w.V, append(Slice{}, strBytes(text())...)})
}

func (m *Machine) errorf(format Value, args Slice) Value {
	f := &fmtState{m: m, lenient: true}
	f.format(format, args)
	msg := f.result()
	if s, ok := format.(string); ok {
		for i := 0; i+1 < len(s); i++ {
			if s[i] == '%' && s[i+1] == 'w' {
				for _, a := range args {
					if it := a.(Iface); it.T != nil && types.Implements(it.T, errIface) {
						if wt := m.eng.wrapErr; wt != nil {
							p := new(Value)
							*p = Struct{msg, it}
							return Iface{types.NewPointer(wt), p}
						}
					}
				}
			}
		}
	}
	return m.mkErr(msg)
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (m *Machine) sprint(args Slice, ln bool) Value {
	f := &fmtState{m: m}
	prevStr := true
	for i, a := range args {
		it := a.(Iface)
		isStr := false
		if it.T != nil {
			b := basicOf(it.T)
			isStr = b != nil && b.Info()&types.IsString != 0
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			f.lit(" ")
		}
		f.verb(it, 'v', false, "")
		prevStr = isStr
	}
	if ln {
		f.lit("\n")
	}
	return f.result()
}

func (f *fmtState) format(format Value, args Slice) {
	bs := strBytes(format)
	ai := 0
	for i := 0; i < len(bs); {
		c, ok := bs[i].(uint64)
		if !ok {
			// a symbolic byte in the format text (message text used as a format)
			if f.m.p.Branch(f.m.st.Eq(bs[i].(*Term), f.m.st.BV('%', 8))) {
				f.fail("symbolic percent sign in format")
				i++
				continue
			}
			f.out = append(f.out, bs[i])
			i++
			continue
		}
		if c != '%' {
			f.out = append(f.out, bs[i])
			i++
			continue
		}
		i++
		plus := false
		spec := "%"
		for i < len(bs) {
			d, ok := bs[i].(uint64)
			if !ok {
				break
			}
			if d == '+' {
				plus = true
			}
			if d == '+' || d == '-' || d == '#' || d == ' ' || d == '.' || (d >= '0' && d <= '9') {
				spec += string(rune(d))
				i++
				continue
			}
			break
		}
		if i >= len(bs) {
			f.lit("%!(NOVERB)")
			return
		}
		d, ok := bs[i].(uint64)
		if !ok {
			f.fail("symbolic verb")
			i++
			continue
		}
		i++
		if d == '%' {
			f.lit("%")
			continue
		}
		if ai >= len(args) {
			f.lit("%!" + string(rune(d)) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		f.verb(a, byte(d), plus, spec)
	}
	if ai < len(args) {
		f.lit("%!(EXTRA ...)")
	}
}

// quote is strconv.Quote; bytes which are written as they are stay symbolic.
func (m *Machine) quote(v Value) Value {
	out := []Value{uint64('"')}
	var run []byte
	flush := func() {
		q := strconv.Quote(string(run))
		for k := 1; k < len(q)-1; k++ {
			out = append(out, byteVals[q[k]])
		}
		run = nil
	}
	plain := func(c byte) bool { return c >= 0x20 && c < 0x7f && c != '"' && c != '\\' }
	for _, b := range strBytes(v) {
		if t, ok := b.(*Term); ok {
			if m.p.Branch(m.classTerm(t, plain)) {
				flush()
				out = append(out, t)
				continue
			}
			b = m.p.Concretize(t, 300)
		}
		run = append(run, byte(b.(uint64)))
	}
	flush()
	return mkStr(append(out, uint64('"')))
}

func (f *fmtState) verb(a Iface, verb byte, plus bool, spec string) {
	m := f.m
	switch verb {
	case 'T':
		if a.T == nil {
			f.lit("<nil>")
		} else {
			f.lit(types.TypeString(a.T, func(p *types.Package) string { return p.Name() }))
		}
		return
	case 'x':
		arr, _ := a.V.(Array)
		if sl, ok := a.V.(Slice); ok {
			arr = Array(sl)
		}
		if len(arr) == 16 {
			if o, ok := arr[0].(*Opaque); ok && o.kind == "md5" {
				f.str(md5Text(o.v.(md5tag).s))
				return
			}
		}
	case 'w':
		verb = 'v'
	}
	if verb == 'v' || verb == 's' {
		f.value(a.T, a.V, plus, 0, verb)
		return
	}
	// other verbs only on concrete basic values
	if a.T == nil {
		f.lit("%!" + string(rune(verb)) + "(<nil>)")
		return
	}
	if b := basicOf(a.T); b != nil {
		switch v := a.V.(type) {
		case bool, string, float64:
			f.lit(fmt.Sprintf(spec+string(rune(verb)), v))
			return
		case uint64:
			if _, signed, ok := intWidth(b.Kind()); ok && signed {
				f.lit(fmt.Sprintf(spec+string(rune(verb)), int64(v)))
			} else {
				f.lit(fmt.Sprintf(spec+string(rune(verb)), v))
			}
			return
		case *Term:
			if verb == 'd' && v.w > 0 {
				f.intTerm(v, b)
				return
			}
			if verb == 't' {
				f.lit(strconv.FormatBool(m.truth(v)))
				return
			}
		case *SymStr:
			if verb == 'q' && f.lenient {
				f.str(v)
				return
			}
			if verb == 'q' && spec == "%" {
				f.str(m.quote(v))
				return
			}
		}
	}
	if sl, ok := a.V.(Slice); ok {
		if s, ok := mkStrSafe(sl); ok {
			f.lit(fmt.Sprintf(spec+string(rune(verb)), []byte(s)))
			return
		}
	}
	f.fail("format verb %c on %v", verb, a.T)
}

func mkStrSafe(s Slice) (string, bool) {
	for _, x := range s {
		if u, ok := x.(uint64); !ok || u > 255 {
			return "", false
		}
	}
	r, ok := mkStr(s).(string)
	return r, ok
}

func md5Text(data Value) Value { return strConcat(strConcat("md5(", data), ")") }

func (f *fmtState) intTerm(t *Term, b *types.Basic) {
	if txt, ok := f.m.prov[t.id]; ok {
		f.str(txt)
		return
	}
	v := f.m.p.Concretize(t, 64)
	w, signed, _ := intWidth(b.Kind())
	n := normInt(v, w, signed)
	if signed {
		f.lit(strconv.FormatInt(int64(n), 10))
	} else {
		f.lit(strconv.FormatUint(n, 10))
	}
}

func fmtFloat(v float64) string { return fmt.Sprintf("%v", v) }

func (f *fmtState) value(t types.Type, v Value, plus bool, depth int, verb byte) {
	m := f.m
	if t == nil {
		f.lit("<nil>")
		return
	}
	if depth > 20 {
		f.fail("format depth")
		return
	}
	// methods
	if _, isI := t.Underlying().(*types.Interface); !isI {
		recv := Iface{t, v}
		for _, name := range []string{"Error", "String"} {
			if fn := m.eng.methodByName(t, nil, name, name); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				if b := basicOf(fn.Signature.Results().At(0).Type()); b != nil && b.Kind() == types.String {
					if isNilPtr(v) {
						f.lit("<nil>")
						return
					}
					if f.lenient {
						if r, ok := f.tryMethod(recv, name); ok {
							f.str(r)
						} else {
							f.lit("?")
						}
						return
					}
					r, _ := m.callMethod(recv, name)
					f.str(r)
					return
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case bool:
			f.lit(strconv.FormatBool(x))
		case string:
			f.lit(x)
		case *SymStr:
			f.str(x)
		case float64:
			if verb == 's' {
				f.lit("%!s(float64=" + fmtFloat(x) + ")")
			} else if u.Kind() == types.Float32 {
				f.lit(fmt.Sprintf("%v", float32(x)))
			} else {
				f.lit(fmtFloat(x))
			}
		case uint64:
			_, signed, _ := intWidth(u.Kind())
			if signed {
				f.lit(fmt.Sprintf("%"+string(rune(verb)), int64(x)))
			} else {
				f.lit(fmt.Sprintf("%"+string(rune(verb)), x))
			}
		case *Term:
			switch {
			case x.w == SBool:
				f.lit(strconv.FormatBool(m.truth(x)))
			case x.w == SF64:
				if txt, ok := m.floatText(x, false); ok {
					f.str(txt)
					return
				}
				f.fail("formatting a symbolic float")
			default:
				if f.lenient {
					f.lit("?")
					return
				}
				f.intTerm(x, u)
			}
		default:
			f.fail("format of %T", v)
		}
	case *types.Interface:
		it := v.(Iface)
		f.value(it.T, it.V, plus, depth, verb)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			f.lit("<nil>")
			return
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				f.lit("&")
				f.value(u.Elem(), *p, plus, depth+1, verb)
				return
			}
		}
		if f.lenient {
			f.lit("0xc000000000")
			return
		}
		f.fail("formatting a pointer")
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			f.fail("format of struct %v", t)
			return
		}
		f.lit("{")
		for i := range s {
			if i > 0 {
				f.lit(" ")
			}
			if plus {
				f.lit(u.Field(i).Name() + ":")
			}
			ft := u.Field(i).Type()
			f.value(ft, s[i], plus, depth+1, verb)
		}
		f.lit("}")
	case *types.Slice:
		s := v.(Slice)
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 && verb == 's' {
			f.str(mkStr(s))
			return
		}
		f.lit("[")
		for i := range s {
			if i > 0 {
				f.lit(" ")
			}
			f.value(u.Elem(), s[i], plus, depth+1, verb)
		}
		f.lit("]")
	case *types.Array:
		s := v.(Array)
		f.lit("[")
		for i := range s {
			if i > 0 {
				f.lit(" ")
			}
			f.value(u.Elem(), s[i], plus, depth+1, verb)
		}
		f.lit("]")
	case *types.Map:
		mp := v.(*Map)
		f.lit("map[")
		if mp != nil {
			ents, ok := sortedEntries(mp)
			if !ok {
				if len(mp.ents) > 1 {
					ents = m.sortEntries(mp)
				}
			}
			for i, e := range ents {
				if i > 0 {
					f.lit(" ")
				}
				f.value(u.Key(), e.key, plus, depth+1, verb)
				f.lit(":")
				f.value(u.Elem(), e.val, plus, depth+1, verb)
			}
		}
		f.lit("]")
	case *types.Signature:
		if _, isNil := v.(nilFuncT); isNil {
			f.lit("<nil>")
			return
		}
		if f.lenient {
			f.lit("0x0")
			return
		}
		f.fail("formatting a function")
	default:
		f.fail("format of %v", t)
	}
}

func (f *fmtState) tryMethod(recv Iface, name string) (r Value, ok bool) {
	cur := f.m.curFr
	defer func() {
		if e := recover(); e != nil {
			if _, isT := e.(targetPanic); isT {
				f.m.curFr = cur
				ok = false
				return
			}
			panic(e)
		}
	}()
	r, ok = f.m.callMethod(recv, name)
	return
}

// sortedEntries orders the entries of a map with concrete keys as fmt and
// encoding/json do for the key kinds in use.
func sortedEntries(mp *Map) ([]*MapEntry, bool) {
	ents := append([]*MapEntry(nil), mp.ents...)
	if len(ents) < 2 {
		return ents, true
	}
	ks := make([]string, len(ents))
	for i, e := range ents {
		k := e.key
		if it, ok := k.(Iface); ok {
			k = it.V
		}
		switch k := k.(type) {
		case string:
			ks[i] = "s" + k
		case uint64:
			ks[i] = "i" + fmt.Sprintf("%020d", uint64(int64(k))+1<<63)
		case float64:
			ks[i] = "i" + fmt.Sprintf("%020d", math.Float64bits(k))
		case bool:
			ks[i] = "b" + strconv.FormatBool(k)
		default:
			return nil, false
		}
	}
	idx := make([]int, len(ents))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
	out := make([]*MapEntry, len(ents))
	for i, j := range idx {
		out[i] = ents[j]
	}
	return out, true
}

// sortEntries orders entries whose (string) keys may be symbolic.
func (m *Machine) sortEntries(mp *Map) []*MapEntry {
	if e, ok := sortedEntries(mp); ok {
		return e
	}
	x := append([]*MapEntry(nil), mp.ents...)
	str := func(v Value) Value {
		if it, ok := v.(Iface); ok {
			v = it.V
		}
		switch v.(type) {
		case string, *SymStr:
			return v
		}
		m.unsupported("ordering map keys of %T", v)
		return nil
	}
	for p := 1; p < len(x); p++ {
		for q := p; q > 0; q-- {
			if !m.truth(m.strLess(str(x[q].key), str(x[q-1].key), false)) {
				break
			}
			x[q], x[q-1] = x[q-1], x[q]
		}
	}
	return x
}

// floatText gives the %v text (or, if fixed, the text without an exponent) of
// a symbolic float that was parsed from decimal text with at most 15
// significant digits.
func (m *Machine) floatText(t *Term, fixed bool) (Value, bool) {
	txt, ok := m.prov[t.id]
	if !ok {
		return nil, false
	}
	bs := strBytes(txt)
	isD := func(v Value, c byte) bool { return m.truth(m.bytesEq([]Value{v}, []Value{uint64(c)})) }
	if len(bs) == 0 || len(bs) > 15 {
		return nil, false
	}
	var sign []Value
	if isD(bs[0], '+') {
		bs = bs[1:]
	} else if isD(bs[0], '-') {
		sign = bs[:1]
		bs = bs[1:]
	}
	dot := -1
	for i, b := range bs {
		if isD(b, '.') {
			if dot >= 0 {
				return nil, false
			}
			dot = i
		} else if !m.truth(m.inRange(b, '0', '9')) {
			return nil, false
		}
	}
	ip, fp := bs, []Value(nil)
	if dot >= 0 {
		ip, fp = bs[:dot], bs[dot+1:]
	}
	for len(ip) > 1 && isD(ip[0], '0') {
		ip = ip[1:]
	}
	if len(ip) == 0 {
		ip = []Value{uint64('0')}
	}
	for len(fp) > 0 && isD(fp[len(fp)-1], '0') {
		fp = fp[:len(fp)-1]
	}
	if len(ip) > 6 && !fixed {
		return nil, false
	}
	if !fixed && len(fp) > 4 && len(ip) == 1 && isD(ip[0], '0') {
		// might need exponent notation
		lead := 0
		for lead < len(fp) && isD(fp[lead], '0') {
			lead++
		}
		if lead >= 4 {
			return nil, false
		}
	}
	out := append([]Value(nil), sign...)
	out = append(out, ip...)
	if len(fp) > 0 {
		out = append(out, uint64('.'))
		out = append(out, fp...)
	}
	return mkStr(out), true
}

func (m *Machine) inRange(b Value, lo, hi byte) Value {
	switch b := b.(type) {
	case uint64:
		return b >= uint64(lo) && b <= uint64(hi)
	case *Term:
		return lowerBool(m.st.And(m.st.Cmp(OUle, m.st.BV(uint64(lo), 8), b), m.st.Cmp(OUle, b, m.st.BV(uint64(hi), 8))))
	}
	panic("inRange")
}

func init() {
	// remember the text a symbolic float was parsed from
	reg("strconv.ParseFloat", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			v, err := strconv.ParseFloat(s, int(int64(a[1].(uint64))))
			if err != nil {
				return Tuple{v, m.mkErr(err.Error())}, true
			}
			return Tuple{v, Iface{}}, true
		}
		r := m.callBody(fr, fn, a)
		if t, ok := r.(Tuple)[0].(*Term); ok && t.w == SF64 {
			if _, dup := m.prov[t.id]; !dup {
				m.prov[t.id] = a[0]
			}
		}
		return r, true
	})
	reg("strconv.FormatFloat", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		switch x := a[0].(type) {
		case float64:
			if c, ok := a[1].(uint64); ok {
				return strconv.FormatFloat(x, byte(c), int(int64(a[2].(uint64))), int(int64(a[3].(uint64)))), true
			}
		case *Term:
			if c, ok := a[1].(uint64); ok && (c == 'f' || c == 'g') && int64(a[2].(uint64)) == -1 && a[3].(uint64) == 64 {
				if txt, ok := m.floatText(x, c == 'f'); ok {
					return txt, true
				}
			}
		}
		m.unsupported("FormatFloat of a symbolic float")
		return nil, true
	})
	reg("strconv.ParseInt", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			v, err := strconv.ParseInt(s, int(int64(a[1].(uint64))), int(int64(a[2].(uint64))))
			if err != nil {
				return Tuple{uint64(v), m.mkErr(err.Error())}, true
			}
			return Tuple{uint64(v), Iface{}}, true
		}
		return nil, false
	})
	reg("strconv.Atoi", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			v, err := strconv.Atoi(s)
			if err != nil {
				return Tuple{uint64(v), m.mkErr(err.Error())}, true
			}
			return Tuple{uint64(v), Iface{}}, true
		}
		return nil, false
	})
	regv(func(m *Machine, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		if m.curFr != nil && m.curFr.fi.repo {
			return m.quote(a[0])
		}
		return strConcat(strConcat("\"", a[0]), "\"") // in error texts
	}, "strconv.Quote")
	regv(func(m *Machine, a []Value) Value {
		if o, ok := a[0].(Slice); ok && len(o) > 0 {
			if q, ok := o[0].(*Opaque); ok && q.kind == "md5" {
				return md5Text(q.v.(md5tag).s)
			}
		}
		s, ok := mkStr(a[0].(Slice)).(string)
		if !ok {
			m.unsupported("hex of symbolic bytes")
		}
		return fmt.Sprintf("%x", s)
	}, "encoding/hex.EncodeToString")
}
