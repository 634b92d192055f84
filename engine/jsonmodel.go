package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Model of encoding/json over interpreted values with symbolic bytes.

type jsonErr struct{ v Value }

type jfield struct {
	name   string
	path   []int
	typ    types.Type
	omit   bool
	quoted bool
}

var jfields sync.Map

func structFields(t types.Type) []jfield {
	if f, ok := jfields.Load(t); ok {
		return f.([]jfield)
	}
	type cand struct {
		f      jfield
		depth  int
		tagged bool
	}
	var all []cand
	var walk func(st *types.Struct, path []int, depth int, seen map[types.Type]bool)
	walk = func(st *types.Struct, path []int, depth int, seen map[types.Type]bool) {
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
			ft := fl.Type()
			if fl.Anonymous() {
				et := ft
				if p, ok := et.(*types.Pointer); ok {
					et = p.Elem()
				}
				_, isS := et.Underlying().(*types.Struct)
				if !fl.Exported() && !isS {
					continue
				}
			} else if !fl.Exported() {
				continue
			}
			if has && tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			np := append(append([]int(nil), path...), i)
			if fl.Anonymous() && name == "" {
				if s, ok := ft.Underlying().(*types.Struct); ok {
					if !seen[ft] {
						s2 := map[types.Type]bool{ft: true}
						for k := range seen {
							s2[k] = true
						}
						walk(s, np, depth+1, s2)
					}
					continue
				}
			}
			tagged := name != ""
			if name == "" {
				name = fl.Name()
			}
			f := jfield{name: name, path: np, typ: ft}
			for _, o := range strings.Split(opts, ",") {
				if o == "omitempty" {
					f.omit = true
				}
				if o == "string" {
					f.quoted = true
				}
			}
			all = append(all, cand{f, depth, tagged})
		}
	}
	walk(t.Underlying().(*types.Struct), nil, 0, map[types.Type]bool{t: true})
	var out []jfield
	for i, c := range all {
		dominated := false
		for j, d := range all {
			if i == j || d.f.name != c.f.name {
				continue
			}
			if d.depth < c.depth || (d.depth == c.depth && d.tagged && !c.tagged) || (d.depth == c.depth && d.tagged == c.tagged) {
				dominated = true
			}
		}
		if !dominated {
			out = append(out, c.f)
		}
	}
	jfields.Store(t, out)
	return out
}

func (m *Machine) hasMethod(t types.Type, name string, params, results int) *ssa.Function {
	if t == nil {
		return nil
	}
	fn := m.eng.methodByName(t, nil, name, name)
	if fn == nil || fn.Signature.Params().Len() != params || fn.Signature.Results().Len() != results {
		return nil
	}
	return fn
}

type jenc struct {
	noHTML bool
	m      *Machine
	out    []Value
	depth  int
}

func (e *jenc) lit(s string) { e.out = append(e.out, strBytes(s)...) }

func (e *jenc) fail(msg string) {
	panic(jsonErr{e.m.mkErr(msg)})
}

func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (e *jenc) encode(t types.Type, v Value, addr *Value) {
	m := e.m
	e.depth++
	if e.depth > 200 {
		e.fail("json: depth")
	}
	defer func() { e.depth-- }()
	if t == nil {
		e.lit("null")
		return
	}
	_, isI := t.Underlying().(*types.Interface)
	if !isI {
		for _, mname := range []string{"MarshalJSON", "MarshalText"} {
			var fn *ssa.Function
			var recv Value
			if !isPtrType(t) && addr != nil {
				if fn = m.hasMethod(types.NewPointer(t), mname, 0, 2); fn != nil {
					recv = addr
				}
			}
			if fn == nil {
				if fn = m.hasMethod(t, mname, 0, 2); fn != nil {
					recv = copyVal(v)
				}
			}
			if fn == nil {
				continue
			}
			if isNilPtr(recv) {
				e.lit("null")
				return
			}
			r := m.callSSA(m.curFr, fn, []Value{recv}, nil).(Tuple)
			if er := r[1].(Iface); er.T != nil {
				panic(jsonErr{m.mkErr("json: error calling " + mname + " for type " + t.String())})
			}
			b, _ := r[0].(Slice)
			if mname == "MarshalJSON" {
				d := &jdec{m: m, b: b}
				n, ok := d.parseAll()
				if !ok {
					panic(jsonErr{m.mkErr("json: error calling MarshalJSON for type " + t.String() + ": invalid JSON")})
				}
				e.compact(n, b)
			} else {
				e.str(mkStr(b))
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		e.basic(u, v)
	case *types.Interface:
		it := v.(Iface)
		e.encode(it.T, it.V, nil)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			m.unsupported("json of pointer %T", v)
		}
		if p == nil {
			e.lit("null")
			return
		}
		e.encode(u.Elem(), *p, p)
	case *types.Struct:
		s := v.(Struct)
		e.lit("{")
		first := true
		for _, f := range structFields(t) {
			fv := s
			var cell *Value
			for k, i := range f.path {
				cell = &fv[i]
				if k < len(f.path)-1 {
					fv = fv[i].(Struct)
				}
			}
			if f.omit && m.jsonEmpty(*cell) {
				continue
			}
			if f.quoted {
				m.unsupported("json string option")
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.str(f.name)
			e.lit(":")
			if addr != nil {
				e.encode(f.typ, *cell, cell)
			} else {
				e.encode(f.typ, *cell, nil)
			}
		}
		e.lit("}")
	case *types.Map:
		mp := v.(*Map)
		if mp == nil {
			e.lit("null")
			return
		}
		if b := basicOf(u.Key()); b == nil || b.Info()&types.IsString == 0 {
			if b != nil && b.Info()&types.IsInteger != 0 {
				m.unsupported("json of map with integer keys")
			}
			e.fail("json: unsupported type: " + t.String())
		}
		e.lit("{")
		for i, en := range m.sortEntries(mp) {
			if i > 0 {
				e.lit(",")
			}
			e.str(en.key)
			e.lit(":")
			e.encode(u.Elem(), en.val, nil)
		}
		e.lit("}")
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			e.lit("null")
			return
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			str, ok := mkStrSafe(s)
			if !ok {
				m.unsupported("base64 of symbolic bytes")
			}
			e.lit(`"` + base64.StdEncoding.EncodeToString([]byte(str)) + `"`)
			return
		}
		e.lit("[")
		for i := range s {
			if i > 0 {
				e.lit(",")
			}
			e.encode(u.Elem(), s[i], &s[i])
		}
		e.lit("]")
	case *types.Array:
		s := v.(Array)
		e.lit("[")
		for i := range s {
			if i > 0 {
				e.lit(",")
			}
			if addr != nil {
				e.encode(u.Elem(), s[i], &s[i])
			} else {
				e.encode(u.Elem(), s[i], nil)
			}
		}
		e.lit("]")
	default:
		e.fail("json: unsupported type: " + t.String())
	}
}

func (m *Machine) jsonEmpty(v Value) bool {
	switch v := v.(type) {
	case bool:
		return !v
	case uint64:
		return v == 0
	case float64:
		return v == 0
	case string:
		return v == ""
	case *SymStr:
		return len(v.b) == 0
	case Slice:
		return len(v) == 0
	case Array:
		return len(v) == 0
	case *Map:
		return v == nil || v.live == 0
	case *Value:
		return v == nil
	case Iface:
		return v.T == nil
	case *Term:
		switch {
		case v.w == SBool:
			return !m.truth(v)
		case v.w == SF64:
			return m.truth(lowerBool(m.st.FCmp(OFEq, v, m.st.F64(0))))
		}
		return m.truth(lowerBool(m.st.Eq(v, m.st.BV(0, v.w))))
	}
	return false
}

func jsonFloat(f float64, bits int) string {
	abs := math.Abs(f)
	fm := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			fm = 'e'
		}
	}
	b := strconv.AppendFloat(nil, f, fm, -1, bits)
	if fm == 'e' {
		n := len(b)
		if n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return string(b)
}

func (e *jenc) basic(u *types.Basic, v Value) {
	m := e.m
	switch x := v.(type) {
	case bool:
		e.lit(strconv.FormatBool(x))
	case string, *SymStr:
		e.str(x)
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			e.fail("json: unsupported value")
		}
		bits := 64
		if u.Kind() == types.Float32 {
			bits = 32
		}
		e.lit(jsonFloat(x, bits))
	case uint64:
		if _, signed, _ := intWidth(u.Kind()); signed {
			e.lit(strconv.FormatInt(int64(x), 10))
		} else {
			e.lit(strconv.FormatUint(x, 10))
		}
	case *Term:
		switch {
		case x.w == SBool:
			e.lit(strconv.FormatBool(m.truth(x)))
		case x.w == SF64:
			txt, ok := m.floatText(x, true)
			if !ok {
				m.unsupported("json of a symbolic float")
			}
			e.out = append(e.out, strBytes(txt)...)
		default:
			f := &fmtState{m: m}
			f.intTerm(x, u)
			e.out = append(e.out, f.out...)
		}
	default:
		m.unsupported("json of %T", v)
	}
}

const hexd = "0123456789abcdef"

func jsonPlain(b byte) bool {
	return b >= 0x20 && b < 0x80 && b != '"' && b != '\\' && b != '<' && b != '>' && b != '&'
}

func (m *Machine) classTerm(t *Term, f func(byte) bool) *Term {
	var ors []*Term
	for i := 0; i < 256; {
		if !f(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && f(byte(j+1)) {
			j++
		}
		ors = append(ors, m.st.And(m.st.Cmp(OUle, m.st.BV(uint64(i), 8), t), m.st.Cmp(OUle, t, m.st.BV(uint64(j), 8))))
		i = j + 1
	}
	return m.st.Or(ors...)
}

// str appends a quoted JSON string with HTML escaping, as json.Marshal does.
func (e *jenc) str(v Value) {
	m := e.m
	bs := append([]Value(nil), strBytes(v)...)
	plain := jsonPlain
	if e.noHTML {
		plain = func(b byte) bool { return jsonPlain(b) || b == '<' || b == '>' || b == '&' }
	}
	e.out = append(e.out, uint64('"'))
	for i := 0; i < len(bs); {
		if t, ok := bs[i].(*Term); ok {
			if m.p.Branch(m.classTerm(t, plain)) {
				e.out = append(e.out, t)
				i++
				continue
			}
			bs[i] = m.p.Concretize(t, 300)
		}
		c := byte(bs[i].(uint64))
		if plain(c) {
			e.out = append(e.out, bs[i])
			i++
			continue
		}
		if c < 0x80 {
			switch c {
			case '\\', '"':
				e.lit("\\" + string(rune(c)))
			case '\b':
				e.lit(`\b`)
			case '\f':
				e.lit(`\f`)
			case '\n':
				e.lit(`\n`)
			case '\r':
				e.lit(`\r`)
			case '\t':
				e.lit(`\t`)
			default:
				e.lit(`\u00` + string(hexd[c>>4]) + string(hexd[c&15]))
			}
			i++
			continue
		}
		var buf []byte
		for j := i; j < len(bs) && j < i+4; j++ {
			if t, ok := bs[j].(*Term); ok {
				bs[j] = m.p.Concretize(t, 300)
			}
			buf = append(buf, byte(bs[j].(uint64)))
		}
		r, n := utf8.DecodeRune(buf)
		if r == utf8.RuneError && n == 1 {
			e.lit(`�`)
		} else if r == 0x2028 || r == 0x2029 {
			e.lit(`\u202` + string(hexd[r&15]))
		} else {
			e.lit(string(r))
		}
		i += n
	}
	e.out = append(e.out, uint64('"'))
}

// compact re-emits parsed JSON without white space (HTML characters escaped).
func (e *jenc) compact(n *jnode, src []Value) {
	switch n.kind {
	case '{':
		e.lit("{")
		for i := range n.kids {
			if i > 0 {
				e.lit(",")
			}
			e.rawStr(n.keyRaw[i])
			e.lit(":")
			e.compact(n.kids[i], src)
		}
		e.lit("}")
	case '[':
		e.lit("[")
		for i := range n.kids {
			if i > 0 {
				e.lit(",")
			}
			e.compact(n.kids[i], src)
		}
		e.lit("]")
	case '"':
		e.rawStr(n.raw)
	default:
		e.out = append(e.out, n.raw...)
	}
}

func (e *jenc) rawStr(raw []Value) {
	m := e.m
	if e.noHTML {
		e.out = append(e.out, raw...)
		return
	}
	html := func(b byte) bool { return b == '<' || b == '>' || b == '&' }
	for i := 0; i < len(raw); i++ {
		b := raw[i]
		if t, ok := b.(*Term); ok {
			if !m.p.Branch(m.classTerm(t, html)) {
				e.out = append(e.out, t)
				continue
			}
			b = m.p.Concretize(t, 300)
		}
		c := byte(b.(uint64))
		if html(c) {
			e.lit(`\u00` + string(hexd[c>>4]) + string(hexd[c&15]))
			continue
		}
		if c == 0xE2 && i+2 < len(raw) && raw[i+1] == Value(uint64(0x80)) {
			if d, ok := raw[i+2].(uint64); ok && d&^1 == 0xA8 {
				e.lit(`\u202` + string(hexd[d&15]))
				i += 2
				continue
			}
		}
		e.out = append(e.out, b)
	}
}

// ---- decoding ----

type jnode struct {
	kind   byte // { [ " n(umber) t f 0(null)
	raw    []Value
	str    Value
	keys   []Value
	keyRaw [][]Value
	kids   []*jnode
}

type jdec struct {
	m     *Machine
	b     []Value
	i     int
	depth int
	saved Value
}

type jsyntax struct{}

func (d *jdec) parseAll() (n *jnode, ok bool) {
	n, ok = d.parseOne()
	if !ok {
		return nil, false
	}
	d.ws()
	if d.i != len(d.b) {
		return nil, false
	}
	return n, true
}

func (d *jdec) parseOne() (n *jnode, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(jsyntax); is {
				n, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return d.value(), true
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func (d *jdec) ws() {
	for d.i < len(d.b) {
		switch c := d.b[d.i].(type) {
		case uint64:
			if !isWS(byte(c)) {
				return
			}
		case *Term:
			if !d.m.p.Branch(d.m.classTerm(c, isWS)) {
				return
			}
		}
		d.i++
	}
}

// at gives the byte at the cursor, concretised unless it is a digit; digits give '0'.
func (d *jdec) at(digitClass bool) byte {
	if d.i >= len(d.b) {
		panic(jsyntax{})
	}
	switch c := d.b[d.i].(type) {
	case uint64:
		return byte(c)
	case *Term:
		if digitClass {
			if d.m.truth(d.m.inRange(c, '1', '9')) {
				return '1'
			}
		}
		return byte(d.m.p.Concretize(c, 300))
	}
	panic("at")
}

func (d *jdec) lit(s string) {
	for k := 0; k < len(s); k++ {
		if d.at(false) != s[k] {
			panic(jsyntax{})
		}
		d.i++
	}
}

func (d *jdec) value() *jnode {
	d.ws()
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 9000 {
		panic(jsyntax{})
	}
	start := d.i
	n := &jnode{}
	c := d.at(true)
	switch {
	case c == '{':
		n.kind = '{'
		d.i++
		d.ws()
		if d.at(false) == '}' {
			d.i++
			break
		}
		for {
			d.ws()
			if d.at(false) != '"' {
				panic(jsyntax{})
			}
			ks := d.i
			k := d.string()
			n.keys = append(n.keys, k)
			n.keyRaw = append(n.keyRaw, d.b[ks:d.i])
			d.ws()
			if d.at(false) != ':' {
				panic(jsyntax{})
			}
			d.i++
			n.kids = append(n.kids, d.value())
			d.ws()
			c := d.at(false)
			d.i++
			if c == ',' {
				continue
			}
			if c == '}' {
				break
			}
			panic(jsyntax{})
		}
	case c == '[':
		n.kind = '['
		d.i++
		d.ws()
		if d.at(false) == ']' {
			d.i++
			break
		}
		for {
			n.kids = append(n.kids, d.value())
			d.ws()
			c := d.at(false)
			d.i++
			if c == ',' {
				continue
			}
			if c == ']' {
				break
			}
			panic(jsyntax{})
		}
	case c == '"':
		n.kind = '"'
		n.str = d.string()
	case c == 't':
		n.kind = 't'
		d.lit("true")
	case c == 'f':
		n.kind = 'f'
		d.lit("false")
	case c == 'n':
		n.kind = '0'
		d.lit("null")
	case c == '-' || (c >= '0' && c <= '9'):
		n.kind = 'n'
		d.number()
	default:
		panic(jsyntax{})
	}
	n.raw = d.b[start:d.i]
	return n
}

func (d *jdec) isDigit() bool {
	if d.i >= len(d.b) {
		return false
	}
	return d.m.truth(d.m.inRange(d.b[d.i], '0', '9'))
}

func (d *jdec) isOneOf(s string) bool {
	if d.i >= len(d.b) {
		return false
	}
	switch c := d.b[d.i].(type) {
	case uint64:
		return strings.IndexByte(s, byte(c)) >= 0
	case *Term:
		return d.m.p.Branch(d.m.classTerm(c, func(b byte) bool { return strings.IndexByte(s, b) >= 0 }))
	}
	return false
}

func (d *jdec) number() {
	if d.isOneOf("-") {
		d.i++
	}
	if d.isOneOf("0") {
		d.i++
	} else if d.isDigit() {
		for d.isDigit() {
			d.i++
		}
	} else {
		panic(jsyntax{})
	}
	if d.isOneOf(".") {
		d.i++
		if !d.isDigit() {
			panic(jsyntax{})
		}
		for d.isDigit() {
			d.i++
		}
	}
	if d.isOneOf("eE") {
		d.i++
		if d.isOneOf("+-") {
			d.i++
		}
		if !d.isDigit() {
			panic(jsyntax{})
		}
		for d.isDigit() {
			d.i++
		}
	}
}

func strPlain(b byte) bool { return b >= 0x20 && b < 0x80 && b != '"' && b != '\\' }

func (d *jdec) string() Value {
	m := d.m
	d.i++ // quote
	var out []Value
	for {
		if d.i >= len(d.b) {
			panic(jsyntax{})
		}
		if t, ok := d.b[d.i].(*Term); ok {
			if m.p.Branch(m.classTerm(t, strPlain)) {
				out = append(out, t)
				d.i++
				continue
			}
		}
		c := d.at(false)
		switch {
		case c == '"':
			d.i++
			return mkStr(out)
		case c == '\\':
			d.i++
			e := d.at(false)
			d.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, uint64(e))
			case 'b':
				out = append(out, uint64('\b'))
			case 'f':
				out = append(out, uint64('\f'))
			case 'n':
				out = append(out, uint64('\n'))
			case 'r':
				out = append(out, uint64('\r'))
			case 't':
				out = append(out, uint64('\t'))
			case 'u':
				r := d.hex4()
				if utf16.IsSurrogate(r) {
					r2 := rune(-1)
					if d.i+1 < len(d.b) && d.at(false) == '\\' {
						save := d.i
						d.i++
						if d.at(false) == 'u' {
							d.i++
							r2 = d.hex4()
						}
						if dec := utf16.DecodeRune(r, r2); dec != 0xFFFD {
							out = append(out, strBytes(string(dec))...)
							continue
						}
						d.i = save
					}
					r = 0xFFFD
				}
				out = append(out, strBytes(string(r))...)
			default:
				panic(jsyntax{})
			}
		case c < 0x20:
			panic(jsyntax{})
		case c < 0x80:
			out = append(out, uint64(c))
			d.i++
		default:
			var buf []byte
			for j := d.i; j < len(d.b) && j < d.i+4; j++ {
				u, ok := d.b[j].(uint64)
				if !ok {
					u = m.p.Concretize(d.b[j].(*Term), 300)
				}
				buf = append(buf, byte(u))
			}
			r, n := utf8.DecodeRune(buf)
			out = append(out, strBytes(string(r))...)
			d.i += n
		}
	}
}

func (d *jdec) hex4() rune {
	var r rune
	for k := 0; k < 4; k++ {
		c := d.at(false)
		d.i++
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			panic(jsyntax{})
		}
	}
	return r
}

func (d *jdec) save(msg string) {
	if d.saved == nil {
		d.saved = d.m.mkErr(msg)
	}
}

func (m *Machine) parseFloat(txt Value) (Value, bool) {
	fn := m.eng.prog.ImportedPackage("strconv").Func("ParseFloat")
	r := m.callSSA(m.curFr, fn, []Value{txt, uint64(64)}, nil).(Tuple)
	return r[0], r[1].(Iface).T == nil
}

func (m *Machine) parseInt(txt Value, bits int, signed bool) (Value, bool) {
	name := "ParseInt"
	if !signed {
		name = "ParseUint"
	}
	fn := m.eng.prog.ImportedPackage("strconv").Func(name)
	r := m.callSSA(m.curFr, fn, []Value{txt, uint64(10), uint64(bits)}, nil).(Tuple)
	return r[0], r[1].(Iface).T == nil
}

var (
	emptyIfaceT = types.NewInterfaceType(nil, nil).Complete()
	anyMapT     = types.NewMap(types.Typ[types.String], emptyIfaceT)
	anySliceT   = types.NewSlice(emptyIfaceT)
)

func (d *jdec) toIface(n *jnode) Value {
	m := d.m
	switch n.kind {
	case '{':
		mp := newMap(types.Typ[types.String])
		for i, k := range n.keys {
			m.mapSet(mp, k, d.toIface(n.kids[i]))
		}
		return Iface{anyMapT, mp}
	case '[':
		s := make(Slice, len(n.kids))
		for i := range s {
			s[i] = d.toIface(n.kids[i])
		}
		return Iface{anySliceT, s}
	case '"':
		return Iface{types.Typ[types.String], n.str}
	case 't':
		return Iface{types.Typ[types.Bool], true}
	case 'f':
		return Iface{types.Typ[types.Bool], false}
	case 'n':
		f, ok := m.parseFloat(mkStr(n.raw))
		if !ok {
			d.save("json: cannot unmarshal number")
			return Iface{}
		}
		return Iface{types.Typ[types.Float64], f}
	}
	return Iface{}
}

func (d *jdec) decode(t types.Type, p *Value, n *jnode) {
	m := d.m
	isNull := n.kind == '0'
	for {
		// unmarshalers on *T
		if !isPtrType(t) {
			if _, isI := t.Underlying().(*types.Interface); !isI {
				if d.tryUnmarshaler(types.NewPointer(t), p, n) {
					return
				}
				break
			}
			it := (*p).(Iface)
			if it.T != nil && isPtrType(it.T) && !isNilPtr(it.V) && (!isNull || isPtrType(it.T.Underlying().(*types.Pointer).Elem())) {
				pt := it.T
				q := it.V.(*Value)
				if d.tryUnmarshaler(pt, q, n) {
					return
				}
				t, p = pt.Underlying().(*types.Pointer).Elem(), q
				continue
			}
			break
		}
		if isNull {
			*p = nilPtr
			return
		}
		el := t.Underlying().(*types.Pointer).Elem()
		if isNilPtr(*p) {
			q := new(Value)
			*q = zero(el)
			*p = q
		}
		q := (*p).(*Value)
		if isPtrType(el) || isIfaceT(el) {
			t, p = el, q
			continue
		}
		if d.tryUnmarshaler(t, q, n) {
			return
		}
		t, p = el, q
		break
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			*p = d.toIface(n)
			return
		}
		if isNull {
			*p = Iface{}
			return
		}
		d.save("json: cannot unmarshal into Go value of type " + t.String())
		return
	}
	if isNull {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			*p = zero(t)
		}
		return
	}
	bad := func() { d.save("json: cannot unmarshal into Go value of type " + t.String()) }
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n.kind != '{' {
			bad()
			return
		}
		if _, ok := (*p).(Struct); !ok {
			m.unsupported("json into opaque struct %v", t)
		}
		fs := structFields(t)
		for i, k := range n.keys {
			var hit *jfield
			for j := range fs {
				if strLen(k) == len(fs[j].name) && m.truth(m.strEq(k, fs[j].name)) {
					hit = &fs[j]
					break
				}
			}
			if hit == nil {
				for j := range fs {
					if strLen(k) == len(fs[j].name) && m.truth(m.foldEq(k, fs[j].name)) {
						hit = &fs[j]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			s := (*p).(Struct)
			var cell *Value
			for q, ix := range hit.path {
				cell = &s[ix]
				if q < len(hit.path)-1 {
					s = s[ix].(Struct)
				}
			}
			d.decode(hit.typ, cell, n.kids[i])
		}
	case *types.Map:
		if n.kind != '{' {
			bad()
			return
		}
		if b := basicOf(u.Key()); b == nil || b.Info()&types.IsString == 0 {
			bad()
			return
		}
		mp := (*p).(*Map)
		if mp == nil {
			mp = newMap(u.Key())
			*p = mp
		}
		for i, k := range n.keys {
			c := new(Value)
			*c = zero(u.Elem())
			d.decode(u.Elem(), c, n.kids[i])
			m.mapSet(mp, k, *c)
		}
	case *types.Slice:
		if n.kind == '"' {
			if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
				str, ok := n.str.(string)
				if !ok {
					m.unsupported("base64 of symbolic bytes")
				}
				raw, err := base64.StdEncoding.DecodeString(str)
				if err != nil {
					d.save("json: " + err.Error())
					return
				}
				*p = bytesOfString(string(raw))
				return
			}
			bad()
			return
		}
		if n.kind != '[' {
			bad()
			return
		}
		s := make(Slice, len(n.kids))
		for i := range s {
			s[i] = zero(u.Elem())
			d.decode(u.Elem(), &s[i], n.kids[i])
		}
		*p = s
	case *types.Array:
		if n.kind != '[' {
			bad()
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(n.kids) {
				d.decode(u.Elem(), &a[i], n.kids[i])
			} else {
				a[i] = zero(u.Elem())
			}
		}
	case *types.Basic:
		switch n.kind {
		case '"':
			if u.Info()&types.IsString == 0 {
				bad()
				return
			}
			*p = n.str
		case 't', 'f':
			if u.Info()&types.IsBoolean == 0 {
				bad()
				return
			}
			*p = n.kind == 't'
		case 'n':
			if w, signed, ok := intWidth(u.Kind()); ok {
				v, good := m.parseInt(mkStr(n.raw), w, signed)
				if !good {
					bad()
					return
				}
				if t, ok := v.(*Term); ok && t.w != w {
					v = m.lower(m.st.Trunc(t, w), u)
				}
				*p = v
			} else if u.Info()&types.IsFloat != 0 {
				v, good := m.parseFloat(mkStr(n.raw))
				if !good {
					bad()
					return
				}
				*p = v
			} else {
				bad()
			}
		default:
			bad()
		}
	default:
		bad()
	}
}

func isIfaceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (m *Machine) foldEq(k Value, name string) Value {
	if s, ok := k.(string); ok {
		return strings.EqualFold(s, name)
	}
	x := strBytes(k)
	y := strBytes(strings.ToLower(name))
	xs := make([]Value, len(x))
	for i := range x {
		xs[i] = m.caseByte(x[i], false)
	}
	return m.bytesEq(xs, y)
}

func (d *jdec) tryUnmarshaler(pt types.Type, p *Value, n *jnode) bool {
	m := d.m
	if fn := m.hasMethod(pt, "UnmarshalJSON", 1, 1); fn != nil {
		raw := make(Slice, len(n.raw))
		copy(raw, n.raw)
		r := m.callSSA(m.curFr, fn, []Value{p, raw}, nil).(Iface)
		if r.T != nil && d.saved == nil {
			d.saved = r
		}
		return true
	}
	if n.kind == '0' {
		return false
	}
	if fn := m.hasMethod(pt, "UnmarshalText", 1, 1); fn != nil {
		if n.kind != '"' {
			d.save("json: cannot unmarshal into Go value of type " + pt.String())
			return true
		}
		r := m.callSSA(m.curFr, fn, []Value{p, Slice(append([]Value(nil), strBytes(n.str)...))}, nil).(Iface)
		if r.T != nil && d.saved == nil {
			d.saved = r
		}
		return true
	}
	return false
}

type jsonEncoder struct {
	w      Iface
	noHTML bool
}

func (m *Machine) jsonMarshal(v Iface) (out Slice, err Value) {
	return m.jsonEncode(v, false)
}

func (m *Machine) jsonEncode(v Iface, noHTML bool) (out Slice, err Value) {
	e := &jenc{m: m, noHTML: noHTML}
	cur := m.curFr
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				m.curFr = cur
				out, err = nil, je.v
				return
			}
			panic(r)
		}
	}()
	e.encode(v.T, v.V, nil)
	return Slice(e.out), Iface{}
}

type jsonDecoder struct {
	r      Iface
	loaded bool
	b      Slice
	err    Value // the error of the reader after b
	bad    bool
}

// readAll calls Read of an interpreted reader to its end.
func (m *Machine) readAll(r Iface) (Slice, Value) {
	fn := m.eng.methodByName(r.T, nil, "Read", "Read")
	if fn == nil {
		m.unsupported("reader of type %v", r.T)
	}
	var all Slice
	for {
		buf := make(Slice, 512)
		for k := range buf {
			buf[k] = byteVals[0]
		}
		t := m.callFn(m.curFr, fn, []Value{r.V, buf}).(Tuple)
		n, ok := t[0].(uint64)
		if !ok {
			m.unsupported("read of symbolic length")
		}
		all = append(all, buf[:n]...)
		if e := t[1].(Iface); e.T != nil {
			return all, e
		}
	}
}

func (m *Machine) ioEOF() Value {
	return *m.globalAddr(m.eng.prog.ImportedPackage("io").Var("EOF"))
}

func (m *Machine) jsonDecode(s *jsonDecoder, v Iface) (res Value) {
	if !s.loaded {
		s.b, s.err = m.readAll(s.r)
		s.loaded = true
	}
	if s.bad {
		return m.mkErr("invalid JSON")
	}
	if v.T == nil || !isPtrType(v.T) || isNilPtr(v.V) {
		return m.mkErr("json: Unmarshal(non-pointer)")
	}
	d := &jdec{m: m, b: s.b}
	d.ws()
	if d.i == len(d.b) {
		s.b = nil
		return s.err
	}
	n, ok := d.parseOne()
	if !ok {
		s.bad = true
		return m.mkErr("invalid JSON")
	}
	s.b = s.b[d.i:]
	return m.jsonStore(d, n, v)
}

func (m *Machine) jsonUnmarshal(b Slice, v Iface) Value {
	if v.T == nil || !isPtrType(v.T) || isNilPtr(v.V) {
		return m.mkErr("json: Unmarshal(non-pointer)")
	}
	d := &jdec{m: m, b: b}
	n, ok := d.parseAll()
	if !ok {
		return m.mkErr("invalid JSON")
	}
	return m.jsonStore(d, n, v)
}

func (m *Machine) jsonStore(d *jdec, n *jnode, v Iface) Value {
	p := v.V.(*Value)
	pt := v.T
	el := pt.Underlying().(*types.Pointer).Elem()
	if isPtrType(el) || isIfaceT(el) || !d.tryUnmarshaler(pt, p, n) {
		d.decode(el, p, n)
	}
	if d.saved != nil {
		return d.saved
	}
	return Iface{}
}

func init() {
	regv(func(m *Machine, a []Value) Value {
		b, err := m.jsonMarshal(a[0].(Iface))
		return Tuple{b, err}
	}, "encoding/json.Marshal")
	regv(func(m *Machine, a []Value) Value { return m.jsonUnmarshal(a[0].(Slice), a[1].(Iface)) }, "encoding/json.Unmarshal")
	regv(func(m *Machine, a []Value) Value {
		d := &jdec{m: m, b: a[0].(Slice)}
		_, ok := d.parseAll()
		return ok
	}, "encoding/json.Valid")
	regv(func(m *Machine, a []Value) Value {
		b, err := m.jsonMarshal(a[0].(Iface))
		if err.(Iface).T != nil {
			return Tuple{b, err}
		}
		s, ok := mkStr(b).(string)
		if !ok {
			s = m.concretizeStr(mkStr(b))
		}
		var buf bytes.Buffer
		json.Indent(&buf, []byte(s), m.mustStr(a[1], "indent"), m.mustStr(a[2], "indent"))
		return Tuple{bytesOfString(buf.String()), Iface{}}
	}, "encoding/json.MarshalIndent")
	// encoders: the state is kept beside the interpreted memory
	encoder := func(m *Machine, p Value) *jsonEncoder {
		e, ok := m.side[[2]any{"encoder", p}].(*jsonEncoder)
		if !ok {
			m.unsupported("json encoder of unknown origin")
		}
		return e
	}
	regv(func(m *Machine, a []Value) Value {
		p := new(Value)
		*p = Struct{}
		m.side[[2]any{"encoder", Value(p)}] = &jsonEncoder{w: a[0].(Iface)}
		return p
	}, "encoding/json.NewEncoder")
	regv(func(m *Machine, a []Value) Value {
		encoder(m, a[0]).noHTML = !m.truth(a[1])
		return nil
	}, "(*encoding/json.Encoder).SetEscapeHTML")
	regv(func(m *Machine, a []Value) Value {
		m.unsupported("indenting json encoder")
		return nil
	}, "(*encoding/json.Encoder).SetIndent")
	regv(func(m *Machine, a []Value) Value {
		e := encoder(m, a[0])
		b, err := m.jsonEncode(a[1].(Iface), e.noHTML)
		if err.(Iface).T != nil {
			return err
		}
		fn := m.eng.methodByName(e.w.T, nil, "Write", "Write")
		if fn == nil {
			m.unsupported("writer of a json encoder")
		}
		r := m.callSSA(m.curFr, fn, []Value{e.w.V, append(b, uint64('\n'))}, nil).(Tuple)
		return r[1]
	}, "(*encoding/json.Encoder).Encode")
	// decoders read everything at the first value
	regv(func(m *Machine, a []Value) Value {
		p := new(Value)
		*p = Struct{}
		m.side[[2]any{"decoder", Value(p)}] = &jsonDecoder{r: a[0].(Iface)}
		return p
	}, "encoding/json.NewDecoder")
	regv(func(m *Machine, a []Value) Value {
		d, ok := m.side[[2]any{"decoder", a[0]}].(*jsonDecoder)
		if !ok {
			m.unsupported("json decoder of unknown origin")
		}
		return m.jsonDecode(d, a[1].(Iface))
	}, "(*encoding/json.Decoder).Decode")
	for _, name := range []string{"UseNumber", "DisallowUnknownFields", "More", "Token", "Buffered", "InputOffset"} {
		regv(func(m *Machine, a []Value) Value {
			m.unsupported("json decoder with %s", name)
			return nil
		}, "(*encoding/json.Decoder)."+name)
	}
}
