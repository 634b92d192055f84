package main

import (
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
	yaml "gopkg.in/yaml.v2"
)

// Model of gopkg.in/yaml.v2 decoding. The text is parsed by the library itself
// (symbolic bytes inside quoted scalars stand as placeholder runes, any other
// symbolic byte is made concrete first); the typed decoding is modelled here.

type ynode struct {
	kind byte // 's' scalar, 'l' list, 'm' map
	raw  string
	val  interface{}
	list []*ynode
	keys []string
	kval map[string]interface{}
	m    map[string]*ynode
	dup  bool
}

func (n *ynode) UnmarshalYAML(u func(interface{}) error) error {
	if err := u(&n.val); err != nil {
		return err
	}
	switch v := n.val.(type) {
	case []interface{}:
		n.kind = 'l'
		return u(&n.list)
	case map[interface{}]interface{}:
		n.kind = 'm'
		n.m = map[string]*ynode{}
		if err := u(&n.m); err != nil {
			return err
		}
		var ms yaml.MapSlice
		if err := u(&ms); err != nil {
			return err
		}
		n.dup = len(ms) != len(v)
		n.kval = map[string]interface{}{}
		for _, it := range ms {
			k := ykey(it.Key)
			n.keys = append(n.keys, k)
			n.kval[k] = it.Key
		}
	default:
		n.kind = 's'
		if err := u(&n.raw); err != nil {
			return err
		}
	}
	return nil
}

func ykey(k interface{}) string {
	b, err := yaml.Marshal(k)
	if s, ok := k.(string); ok {
		return s
	}
	if err != nil {
		return "?"
	}
	return strings.TrimSuffix(string(b), "\n")
}

type ydec struct {
	m      *Machine
	ph     []*Term
	strict bool
	terr   bool
}

type yfail struct{ v Value }

func (d *ydec) back(s string) Value {
	if len(d.ph) == 0 {
		return s
	}
	var out []Value
	for _, r := range s {
		if r >= phBase && int(r-phBase) < len(d.ph) {
			out = append(out, d.ph[r-phBase])
		} else {
			out = append(out, strBytes(string(r))...)
		}
	}
	return mkStr(out)
}

var (
	yAnyMapT = types.NewMap(emptyIfaceT, emptyIfaceT)
)

func (d *ydec) iface(v interface{}) Value {
	m := d.m
	switch v := v.(type) {
	case nil:
		return Iface{}
	case string:
		return Iface{types.Typ[types.String], d.back(v)}
	case int:
		return Iface{types.Typ[types.Int], uint64(int64(v))}
	case int64:
		return Iface{types.Typ[types.Int64], uint64(v)}
	case uint64:
		return Iface{types.Typ[types.Uint64], v}
	case float64:
		return Iface{types.Typ[types.Float64], v}
	case bool:
		return Iface{types.Typ[types.Bool], v}
	case []interface{}:
		s := make(Slice, len(v))
		for i := range v {
			s[i] = d.iface(v[i])
		}
		return Iface{anySliceT, s}
	case map[interface{}]interface{}:
		mp := newMap(emptyIfaceT)
		var keys []string
		byk := map[string]interface{}{}
		cnt := map[string]int{}
		for k := range v {
			s := ykey(k)
			byk[s] = k
			keys = append(keys, s)
			cnt[s] = 1
		}
		for _, s := range sortStrings(keys) {
			m.mapSet(mp, d.iface(byk[s]), d.iface(v[byk[s]]))
		}
		return Iface{yAnyMapT, mp}
	}
	m.unsupported("yaml value of type %T", v)
	return nil
}

type yfield struct {
	name   string
	path   []int
	typ    types.Type
	inline bool
}

func yamlFields(t types.Type) []yfield {
	st := t.Underlying().(*types.Struct)
	var out []yfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() && !f.Anonymous() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("yaml")
		if tag == "" && !strings.Contains(st.Tag(i), ":") {
			tag = st.Tag(i)
		}
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		inline := false
		for _, o := range parts[1:] {
			if o == "inline" {
				inline = true
			}
		}
		if inline {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				for _, s := range yamlFields(f.Type()) {
					s.path = append([]int{i}, s.path...)
					out = append(out, s)
				}
			}
			continue
		}
		name := parts[0]
		if name == "" {
			name = strings.ToLower(f.Name())
		}
		out = append(out, yfield{name: name, path: []int{i}, typ: f.Type()})
	}
	return out
}

func (d *ydec) decode(t types.Type, p *Value, n *ynode) bool {
	m := d.m
	if n == nil { // null
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
			*p = zero(t)
		}
		return true
	}
	for isPtrType(t) {
		el := t.Underlying().(*types.Pointer).Elem()
		if isNilPtr(*p) {
			q := new(Value)
			*q = zero(el)
			*p = q
		}
		t, p = el, (*p).(*Value)
	}
	if !isIfaceT(t) {
		if fn := m.hasMethod(types.NewPointer(t), "UnmarshalYAML", 1, 1); fn != nil {
			return d.callUnm(fn, p, n)
		}
		if n.kind == 's' {
			if fn := m.hasMethod(types.NewPointer(t), "UnmarshalText", 1, 1); fn != nil {
				r := m.callSSA(m.curFr, fn, []Value{p, Slice(append([]Value(nil), strBytes(d.back(n.raw))...))}, nil).(Iface)
				if r.T != nil {
					panic(yfail{r})
				}
				return true
			}
		}
	}
	bad := func() bool { d.terr = true; return false }
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() != 0 {
			return bad()
		}
		*p = d.iface(n.val)
		return true
	case *types.Struct:
		if n.kind != 'm' {
			return bad()
		}
		if d.strict && n.dup {
			d.terr = true
		}
		fs := yamlFields(t)
		for _, k := range n.keys {
			key := d.back(k)
			found := false
			for i := range fs {
				if strLen(key) != len(fs[i].name) || !m.truth(m.strEq(key, fs[i].name)) {
					continue
				}
				found = true
				s := (*p).(Struct)
				var cell *Value
				for q, ix := range fs[i].path {
					cell = &s[ix]
					if q < len(fs[i].path)-1 {
						s = s[ix].(Struct)
					}
				}
				d.decode(fs[i].typ, cell, n.m[k])
				break
			}
			if !found && d.strict {
				d.terr = true
			}
		}
		return true
	case *types.Map:
		if n.kind != 'm' {
			return bad()
		}
		if d.strict && n.dup {
			d.terr = true
		}
		mp := (*p).(*Map)
		if mp == nil {
			mp = newMap(u.Key())
			*p = mp
		}
		for _, k := range n.keys {
			kc := new(Value)
			*kc = zero(u.Key())
			if isIfaceT(u.Key()) {
				*kc = d.iface(n.kval[k])
			} else if !d.decode(u.Key(), kc, &ynode{kind: 's', raw: k, val: n.kval[k]}) {
				continue
			}
			c := new(Value)
			*c = zero(u.Elem())
			if d.decode(u.Elem(), c, n.m[k]) {
				m.mapSet(mp, *kc, *c)
			}
		}
		return true
	case *types.Slice:
		if n.kind != 'l' {
			return bad()
		}
		s := Slice{}
		for _, x := range n.list {
			c := new(Value)
			*c = zero(u.Elem())
			if d.decode(u.Elem(), c, x) {
				s = append(s, *c)
			}
		}
		*p = s
		return true
	case *types.Basic:
		if n.kind != 's' {
			return bad()
		}
		switch {
		case u.Info()&types.IsString != 0:
			*p = d.back(n.raw)
			return true
		case u.Info()&types.IsBoolean != 0:
			if b, ok := n.val.(bool); ok {
				*p = b
				return true
			}
			if s, ok := n.val.(string); ok {
				switch s {
				case "y", "Y", "yes", "on":
					*p = true
					return true
				case "n", "N", "no", "off":
					*p = false
					return true
				}
			}
			return bad()
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := intWidth(u.Kind())
			switch x := n.val.(type) {
			case int:
				v := normInt(uint64(int64(x)), w, signed)
				if int64(v) != int64(x) || (!signed && x < 0) {
					return bad()
				}
				*p = v
				return true
			case float64:
				if x == math.Trunc(x) && math.Abs(x) < 1<<53 {
					*p = normInt(uint64(int64(x)), w, signed)
					return true
				}
			}
			return bad()
		case u.Info()&types.IsFloat != 0:
			switch x := n.val.(type) {
			case int:
				*p = float64(x)
				return true
			case float64:
				*p = x
				return true
			}
			return bad()
		}
		return bad()
	}
	return bad()
}

func (d *ydec) callUnm(fn *ssa.Function, p *Value, n *ynode) bool {
	m := d.m
	saved := d.terr
	d.terr = false
	unm := func(args []Value) Value {
		it := args[0].(Iface)
		if it.T == nil || !isPtrType(it.T) {
			m.unsupported("yaml unmarshal into %v", it.T)
		}
		sub := &ydec{m: m, ph: d.ph, strict: d.strict}
		if e := sub.run(it.T.Underlying().(*types.Pointer).Elem(), it.V.(*Value), n); e != nil {
			return e
		}
		return Iface{}
	}
	r := m.callSSA(m.curFr, fn, []Value{p, Value(unm)}, nil).(Iface)
	d.terr = saved
	if r.T != nil {
		if v, ok := r.V.(*Value); ok && m.side[[2]any{"yterr", v}] != nil {
			d.terr = true
			return false
		}
		panic(yfail{r})
	}
	return true
}

func (d *ydec) run(t types.Type, p *Value, n *ynode) (err Value) {
	cur := d.m.curFr
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(yfail); ok {
				d.m.curFr = cur
				err = f.v
				return
			}
			panic(r)
		}
	}()
	d.decode(t, p, n)
	if d.terr {
		e := d.m.mkErr("yaml: unmarshal errors").(Iface)
		d.m.side[[2]any{"yterr", e.V.(*Value)}] = true
		return e
	}
	return nil
}

func (m *Machine) yamlUnmarshal(b Slice, v Iface, strict bool) Value {
	if v.T == nil || !isPtrType(v.T) || isNilPtr(v.V) {
		m.unsupported("yaml.Unmarshal into non-pointer")
	}
	var sb strings.Builder
	var ph []*Term
	idx := map[int]int{}
	quote := byte(0)
	for i := range b {
		c, ok := b[i].(uint64)
		if !ok {
			t := b[i].(*Term)
			safe := func(x byte) bool { return x > 0x20 && x < 0x7f && x != '"' && x != '\'' && x != '\\' }
			if quote != 0 && m.p.Branch(m.classTerm(t, safe)) {
				k, ok := idx[t.id]
				if !ok {
					k = len(ph)
					idx[t.id] = k
					ph = append(ph, t)
				}
				sb.WriteRune(rune(phBase + k))
				continue
			}
			c = m.p.Concretize(t, 300)
		}
		ch := byte(c)
		sb.WriteByte(ch)
		switch {
		case quote == 0 && (ch == '"' || ch == '\''):
			quote = ch
		case quote == ch:
			quote = 0
		}
	}
	var n *ynode
	if err := yaml.Unmarshal([]byte(sb.String()), &n); err != nil {
		return m.mkErr(err.Error())
	}
	if strict {
		var x interface{}
		if err := yaml.UnmarshalStrict([]byte(sb.String()), &x); err != nil {
			return m.mkErr(err.Error())
		}
	}
	d := &ydec{m: m, ph: ph, strict: strict}
	if e := d.run(v.T.Underlying().(*types.Pointer).Elem(), v.V.(*Value), n); e != nil {
		return e
	}
	return Iface{}
}

func init() {
	regv(func(m *Machine, a []Value) Value { return m.yamlUnmarshal(a[0].(Slice), a[1].(Iface), false) }, "gopkg.in/yaml.v2.Unmarshal")
	regv(func(m *Machine, a []Value) Value { return m.yamlUnmarshal(a[0].(Slice), a[1].(Iface), true) }, "gopkg.in/yaml.v2.UnmarshalStrict")

	// bson: an opaque round trip of the document
	regv(func(m *Machine, a []Value) Value {
		it := a[0].(Iface)
		if it.T == nil {
			return Tuple{Slice(nil), m.mkErr("document is nil")}
		}
		if _, ok := it.T.Underlying().(*types.Map); !ok {
			if isIfaceT(it.T) {
				it = it.V.(Iface)
			}
			if it.T == nil || it.T.Underlying() == nil {
				return Tuple{Slice(nil), m.mkErr("document is nil")}
			}
			if _, ok := it.T.Underlying().(*types.Map); !ok {
				m.unsupported("bson.Marshal of %v", it.T)
			}
		}
		return Tuple{Slice{&Opaque{"bson", bsonCopy(it)}}, Iface{}}
	}, "go.mongodb.org/mongo-driver/bson.Marshal")
	regv(func(m *Machine, a []Value) Value {
		b := a[0].(Slice)
		if len(b) != 1 {
			return m.mkErr("invalid bson")
		}
		o, ok := b[0].(*Opaque)
		if !ok {
			return m.mkErr("invalid bson")
		}
		it := a[1].(Iface)
		p := it.V.(*Value)
		el := it.T.Underlying().(*types.Pointer).Elem()
		src := bsonCopy(o.v.(Iface)).(Iface)
		switch u := el.Underlying().(type) {
		case *types.Map:
			if !isIfaceT(u.Elem()) {
				m.unsupported("bson.Unmarshal into %v", el)
			}
			*p = src.V
		case *types.Interface:
			*p = src
		default:
			m.unsupported("bson.Unmarshal into %v", el)
		}
		return Iface{}
	}, "go.mongodb.org/mongo-driver/bson.Unmarshal")
}

func bsonCopy(v Value) Value {
	switch v := v.(type) {
	case Iface:
		return Iface{v.T, bsonCopy(v.V)}
	case Slice:
		if v == nil {
			return v
		}
		r := make(Slice, len(v))
		for i := range v {
			r[i] = bsonCopy(v[i])
		}
		return r
	case *Map:
		if v == nil {
			return v
		}
		n := newMap(v.keyT)
		for _, e := range v.ents {
			ne := &MapEntry{key: e.key, val: bsonCopy(e.val)}
			n.ents = append(n.ents, ne)
			n.live++
			if hk, ok := hashKey(ne.key); ok {
				n.idx[hk] = ne
			} else {
				n.nsym++
			}
		}
		return n
	}
	return v
}
