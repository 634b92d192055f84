package main

// quantify is an ANY or ALL node over elements with the given truth values, and
// its own truth value.
func quantify(all bool, parent string, inner interface{}, truths []bool) (obj, bool) {
	body := obj{"parentJsonpathAttribute": parent, "condition": inner}
	want := all
	for _, t := range truths {
		if all {
			want = vxAnd(want, t)
		} else {
			want = vxOr(want, t)
		}
	}
	if all {
		return obj{"ALL": body}, want
	}
	return obj{"ANY": body}, want
}

func tf(name string) (string, bool) {
	v := vxByte(name, "tf")
	return string([]byte{v}), v == 't'
}

func join(items []string) string {
	out := ""
	for i, x := range items {
		if i > 0 {
			out += ","
		}
		out += x
	}
	return out
}

func c06Check(tree interface{}, doc string, want bool, label string) {
	got := holds(tree, docMessage(doc, vxChoose("form", 2)))
	vxObs("got", got)
	vxAssert(vxIff(got, want), label)
	vxCover("end")
}

// c06Inner is an inner condition over the truth of the current element's field
// x and of the document's field s.
func c06Inner() (interface{}, func(x, s bool) bool) {
	x := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	s := cond("jsonpath:$.s", "EQ", "t")
	switch vxChoose("inner", 6) {
	case 0:
		return x, func(x, s bool) bool { return x }
	case 1:
		return obj{"NOT": x}, func(x, s bool) bool { return !x }
	case 2:
		return obj{"AND": arr{x, s}}, func(x, s bool) bool { return vxAnd(x, s) }
	case 3:
		return obj{"AND": arr{s, x}}, func(x, s bool) bool { return vxAnd(x, s) }
	case 4:
		return obj{"OR": arr{s, x}}, func(x, s bool) bool { return vxOr(x, s) }
	}
	return obj{"OR": arr{x, obj{"NOT": s}}}, func(x, s bool) bool { return vxOr(x, !s) }
}

// elements are up to max array elements and the truth of their field x, which
// may be missing.
func elements(name string, max int) ([]string, []bool) {
	n := vxChoose(name+".n", max+1)
	var texts []string
	var truths []bool
	for i := 0; i < n; i++ {
		c, t := tf(name)
		switch vxChoose(name+".form", 3) {
		case 0:
			texts = append(texts, `{"y":"t","x":"`+c+`"}`)
		case 1:
			texts = append(texts, `{"x":"`+c+`","y":{"x":"t"}}`)
		default:
			texts = append(texts, `{"y":"t"}`)
			t = false
		}
		truths = append(truths, t)
	}
	return texts, truths
}

// elements of an array
func c06Array() (interface{}, string, bool) {
	max := 3
	parent := vxPick("parent", "jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:$.l[*]")
	texts, truths := elements("e", max)
	sc, s := tf("s")
	inner, f := c06Inner()
	for i := range truths {
		truths[i] = f(truths[i], s)
	}
	tree, want := quantify(vxChoose("all", 2) == 1, parent, inner, truths)
	return tree, `{"x":"t","s":"` + sc + `","l":[` + join(texts) + `]}`, want
}

func Check_C06_array() {
	tree, doc, want := c06Array()
	c06Check(tree, doc, want, "ANY means some element, ALL means every element")
}

// an absent, null or empty list
func c06Nothing() (interface{}, string, bool) {
	parent := vxPick("parent", "jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:$.l[*]", "jsonpath:$.l.m[:]", "jsonpath:$.l.m")
	doc := vxPick("doc", `{"s":"t"}`, `{"l":null}`, `{"l":[]}`, `{"l":{}}`, `{"l":{"m":[]}}`, `{"l":{"m":{}}}`)
	if parent == "jsonpath:$.l" || parent == "jsonpath:$.l[:]" || parent == "jsonpath:$.l[*]" {
		vxAssume(doc != `{"l":{"m":[]}}` && doc != `{"l":{"m":{}}}`)
	}
	all := vxChoose("all", 2) == 1
	inner := cond("jsonpath:$RELATIVE.x", vxPick("method", "EQ", "NEX", "EX", "NEQ"), "t")
	tree, want := quantify(all, parent, inner, nil)
	return tree, doc, want
}

func Check_C06_nothing() {
	tree, doc, want := c06Nothing()
	c06Check(tree, doc, want, "ANY of nothing is false, ALL of nothing is true")
}

// characters that delimit JSON inside strings
func c06Strings() (interface{}, string, bool) {
	n := 1 + vxChoose("n", 2)
	max := 2
	if vxTier() == 1 {
		n, max = n+1, 3
	}
	var texts []string
	var truths []bool
	for i := 0; i < n; i++ {
		s := vxStr("v", 1, max, "t{}[],\"\\ ")
		texts = append(texts, `{"y":`+quoted(s)+`,"x":"t"}`)
		truths = append(truths, s == "t")
	}
	sep := vxPick("space", "", " ", "\n")
	doc := `{"l":` + sep + `[`
	for i, t := range texts {
		if i > 0 {
			doc += sep + "," + sep
		}
		doc += t
	}
	doc += sep + `]` + sep + `}`
	tree, want := quantify(vxChoose("all", 2) == 1, "jsonpath:$.l[:]", cond("jsonpath:$RELATIVE.y", "EQ", "t"), truths)
	return tree, doc, want
}

func Check_C06_strings() {
	tree, doc, want := c06Strings()
	c06Check(tree, doc, want, "ANY means some element, ALL means every element")
}

// scalars
func c06Scalars() (interface{}, string, bool) {
	n := vxChoose("n", 4)
	var texts []string
	var truths []bool
	for i := 0; i < n; i++ {
		switch vxChoose("kind", 3) {
		case 0:
			c, t := tf("v")
			texts, truths = append(texts, `"`+c+`"`), append(truths, t)
		case 1:
			texts, truths = append(texts, vxPick("other", "1", "true", "null")), append(truths, false)
		case 2:
			texts, truths = append(texts, `{"x":"t"}`), append(truths, false)
		}
	}
	tree, want := quantify(vxChoose("all", 2) == 1, "jsonpath:$.l[:]", cond("jsonpath:$RELATIVE", "EQ", "t"), truths)
	return tree, `{"l":[` + join(texts) + `]}`, want
}

func Check_C06_scalars() {
	tree, doc, want := c06Scalars()
	c06Check(tree, doc, want, "ANY means some element, ALL means every element")
}

// entries of an object
func c06Object() (interface{}, string, bool) {
	n := vxChoose("n", 4)
	keys := []string{"k", "j", "i"}
	var texts []string
	var truths []bool
	what := vxChoose("what", 7)
	for i := 0; i < n; i++ {
		c, t := tf("v")
		switch what {
		case 0: // the value
			texts = append(texts, `"`+keys[i]+`":"`+c+`"`)
		case 1: // the key
			texts = append(texts, `"`+c+keys[i]+`":"x"`)
		case 2: // a field of the value
			if vxChoose("scalar", 2) == 1 {
				texts = append(texts, `"`+keys[i]+`":"t"`)
				t = false
			} else {
				texts = append(texts, `"`+keys[i]+`":{"y":"t","x":"`+c+`"}`)
			}
		case 3: // a key and its value
			texts = append(texts, `"`+keys[i]+`":"`+c+`"`)
			t = t && i == 1
		case 4: // a nested field of the value
			texts = append(texts, `"`+keys[i]+`":{"y":{"x":"`+c+`"},"x":"t"}`)
		case 5: // an element of a list in the value
			texts = append(texts, `"`+keys[i]+`":{"y":[{"x":"f"},{"x":"`+c+`"}],"x":"t"}`)
		case 6: // an element of a value which is a list
			texts = append(texts, `"`+keys[i]+`":["f","`+c+`"]`)
		}
		truths = append(truths, t)
	}
	var inner interface{}
	switch what {
	case 0:
		inner = cond("jsonpath:$VALUE", "EQ", "t")
	case 1:
		inner = cond("jsonpath:$KEY", "RE", "^t")
	case 2:
		inner = cond("jsonpath:$VALUE.x", "EQ", "t")
	case 3:
		inner = obj{"AND": arr{cond("jsonpath:$KEY", "EQ", "j"), cond("jsonpath:$VALUE", "EQ", "t")}}
	case 4:
		inner = cond("jsonpath:$VALUE.y.x", "EQ", "t")
	case 5:
		inner = cond("jsonpath:$VALUE.y[1].x", "EQ", "t")
	case 6:
		inner = cond("jsonpath:$VALUE[1]", "EQ", "t")
	}
	tree, want := quantify(vxChoose("all", 2) == 1, "jsonpath:$.m", inner, truths)
	return tree, `{"x":"t","m":{` + join(texts) + `},"k":"t"}`, want
}

func Check_C06_object() {
	tree, doc, want := c06Object()
	c06Check(tree, doc, want, "$KEY and $VALUE are those of the current entry")
}

// an inner ANY or ALL between conditions on the enclosing element
func c06Nested(max int) (interface{}, string, bool) {
	n := vxChoose("n", 3)
	outerAll, innerAll := vxChoose("all", 2) == 1, vxChoose("innerall", 2) == 1
	shape := vxChoose("shape", 7)
	parent := vxPick("parent", "jsonpath:$RELATIVE.i[:]", "jsonpath:$RELATIVE.i")
	sc, s := tf("s")
	var texts []string
	var truths []bool
	var inner interface{}
	for i := 0; i < n; i++ {
		xc, x := tf("x")
		k := vxChoose("inner", max+1)
		var in []string
		var it []bool
		for j := 0; j < k; j++ {
			c, t := tf("y")
			in, it = append(in, `{"x":"`+c+`"}`), append(it, t)
		}
		if shape == 3 {
			for j := range it {
				it[j] = vxAnd(it[j], s)
			}
		}
		_, t := quantify(innerAll, "", nil, it)
		switch shape {
		case 0:
		case 1, 2:
			t = vxAnd(x, t)
		case 3:
		case 4:
			t = vxOr(!t, x)
		case 5:
			t = vxOr(t, x)
		case 6:
			t = vxAnd(!t, x)
		}
		texts = append(texts, `{"i":[`+join(in)+`],"x":"`+xc+`"}`)
		truths = append(truths, t)
	}
	field := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	node, _ := quantify(innerAll, parent, field, nil)
	switch shape {
	case 0:
		inner = node
	case 1:
		inner = obj{"AND": arr{node, field}}
	case 2:
		inner = obj{"AND": arr{field, node}}
	case 3:
		inner, _ = quantify(innerAll, parent, obj{"AND": arr{field, cond("jsonpath:$.s", "EQ", "t")}}, nil)
	case 4:
		inner = obj{"OR": arr{obj{"NOT": node}, field}}
	case 5:
		inner = obj{"OR": arr{node, field}}
	case 6:
		inner = obj{"AND": arr{obj{"NOT": node}, field}}
	}
	tree, want := quantify(outerAll, "jsonpath:$.l[:]", inner, truths)
	return tree, `{"s":"` + sc + `","i":[{"x":"t"}],"l":[` + join(texts) + `]}`, want
}

func Check_C06_nested() {
	tree, doc, want := c06Nested(2)
	c06Check(tree, doc, want, "relative paths refer to the element of the innermost ANY or ALL around them")
}

// an inner ANY or ALL over another part of the document
func c06Absolute() (interface{}, string, bool) {
	n, k := 1+vxChoose("n", 2), vxChoose("k", 3)
	outerAll, innerAll := vxChoose("all", 2) == 1, vxChoose("innerall", 2) == 1
	var texts, in []string
	var truths, it []bool
	for j := 0; j < k; j++ {
		c, t := tf("y")
		in, it = append(in, `{"x":"`+c+`"}`), append(it, t)
	}
	field := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	node, t := quantify(innerAll, "jsonpath:$.m[:]", field, it)
	for i := 0; i < n; i++ {
		xc, x := tf("x")
		texts = append(texts, `{"m":[{"x":"t"}],"x":"`+xc+`"}`)
		truths = append(truths, vxAnd(t, x))
	}
	tree, want := quantify(outerAll, "jsonpath:$.l[:]", obj{"AND": arr{node, field}}, truths)
	return tree, `{"m":[` + join(in) + `],"l":[` + join(texts) + `]}`, want
}

func Check_C06_absolute() {
	tree, doc, want := c06Absolute()
	c06Check(tree, doc, want, "absolute paths refer to the whole document")
}

// one inner ANY or ALL after another, of arrays or objects
func c06Siblings() (interface{}, string, bool) {
	outerAll := vxChoose("all", 2) == 1
	or := vxChoose("or", 2) == 1
	xc, x := tf("x")
	var nodes arr
	var ts []bool
	text := `"x":"` + xc + `"`
	for i := 0; i < 2; i++ {
		name := string([]byte{byte('i' + i)})
		all, object := vxChoose("innerall", 2) == 1, vxChoose("object", 2) == 1
		not := i == 0 && vxChoose("not", 2) == 1
		k := vxChoose("k", 2+vxTier())
		var in []string
		var it []bool
		for j := 0; j < k; j++ {
			c, t := tf("y")
			if object {
				in = append(in, `"`+string([]byte{byte('p' + j)})+`":"`+c+`"`)
			} else {
				in = append(in, `{"x":"`+c+`"}`)
			}
			it = append(it, t)
		}
		var node obj
		var t bool
		if object {
			text += `,"` + name + `":{` + join(in) + `}`
			node, t = quantify(all, "jsonpath:$RELATIVE."+name, cond("jsonpath:$VALUE", "EQ", "t"), it)
		} else {
			text += `,"` + name + `":[` + join(in) + `]`
			node, t = quantify(all, "jsonpath:$RELATIVE."+name+"[:]", cond("jsonpath:$RELATIVE.x", "EQ", "t"), it)
		}
		if not {
			node, t = obj{"NOT": node}, !t
		}
		nodes, ts = append(nodes, node), append(ts, t)
	}
	field := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	op, t := "AND", vxAnd(vxAnd(ts[0], ts[1]), x)
	if or {
		op, t = "OR", vxOr(vxOr(ts[0], ts[1]), x)
	}
	tree, want := quantify(outerAll, "jsonpath:$.l[:]", obj{op: append(nodes, field)}, []bool{t})
	return tree, `{"l":[{` + text + `}]}`, want
}

func Check_C06_siblings() {
	tree, doc, want := c06Siblings()
	c06Check(tree, doc, want, "after an inner ANY or ALL the enclosing element is current again")
}

// inner ANY and ALL of an entry of an object, before a condition on its key or value
func c06Entries() (interface{}, string, bool) {
	outerAll, innerAll := vxChoose("all", 2) == 1, vxChoose("innerall", 2) == 1
	or, key := vxChoose("or", 2) == 1, vxChoose("key", 2) == 1
	n := 1 + vxChoose("n", 2)
	var texts []string
	var truths []bool
	for i := 0; i < n; i++ {
		kb := vxByte("k", "tf")
		if i == 1 {
			kb = 'u'
		}
		xc, x := tf("x")
		k := vxChoose("inner", 3)
		var in []string
		var it []bool
		for j := 0; j < k; j++ {
			c, t := tf("y")
			in, it = append(in, `{"x":"`+c+`"}`), append(it, t)
		}
		_, t := quantify(innerAll, "", nil, it)
		own := x
		if key {
			own = kb == 't'
		}
		if or {
			t = vxOr(t, own)
		} else {
			t = vxAnd(t, own)
		}
		texts, truths = append(texts, `"`+string([]byte{kb})+`":{"i":[`+join(in)+`],"x":"`+xc+`"}`), append(truths, t)
	}
	own := cond("jsonpath:$VALUE.x", "EQ", "t")
	if key {
		own = cond("jsonpath:$KEY", "EQ", "t")
	}
	node, _ := quantify(innerAll, vxPick("parent", "jsonpath:$RELATIVE..i[:]", "jsonpath:$RELATIVE..i"), cond("jsonpath:$RELATIVE.x", "EQ", "t"), nil)
	op := "AND"
	if or {
		op = "OR"
	}
	tree, want := quantify(outerAll, "jsonpath:$.m", obj{op: arr{node, own}}, truths)
	return tree, `{"m":{` + join(texts) + `}}`, want
}

func Check_C06_entries() {
	tree, doc, want := c06Entries()
	c06Check(tree, doc, want, "after an inner ANY or ALL the enclosing entry is current again")
}

// ANY and ALL nested three deep
func c06Deep() (interface{}, string, bool) {
	var all [3]bool
	for i := range all {
		all[i] = vxChoose("all", 2) == 1
	}
	or := vxChoose("or", 2) == 1
	both := func(a, b bool) bool {
		if or {
			return vxOr(a, b)
		}
		return vxAnd(a, b)
	}
	op := "AND"
	if or {
		op = "OR"
	}
	field := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	level := func(i int, parent string, inner interface{}) interface{} {
		node, _ := quantify(all[i], parent, inner, nil)
		return node
	}
	inner := obj{op: arr{level(2, "jsonpath:$RELATIVE.b[:]", field), field}}
	inner = obj{op: arr{level(1, "jsonpath:$RELATIVE.a[:]", inner), field}}
	var texts []string
	var truths []bool
	for i := 0; i < 1; i++ {
		var at []string
		var av []bool
		na := vxChoose("na", 3)
		for j := 0; j < na; j++ {
			var bt []string
			var bv []bool
			nb := vxChoose("nb", 2)
			for k := 0; k < nb; k++ {
				c, t := tf("b")
				bt, bv = append(bt, `{"x":"`+c+`"}`), append(bv, t)
			}
			_, t := quantify(all[2], "", nil, bv)
			c, x := tf("a")
			at, av = append(at, `{"b":[`+join(bt)+`],"x":"`+c+`"}`), append(av, both(t, x))
		}
		_, t := quantify(all[1], "", nil, av)
		c, x := tf("l")
		texts, truths = append(texts, `{"a":[`+join(at)+`],"x":"`+c+`"}`), append(truths, both(t, x))
	}
	tree, want := quantify(all[0], "jsonpath:$.l[:]", inner, truths)
	return tree, `{"l":[` + join(texts) + `]}`, want
}

func Check_C06_deep() {
	tree, doc, want := c06Deep()
	c06Check(tree, doc, want, "relative paths refer to the element of the innermost ANY or ALL around them")
}

// a list of paths, and paths that find several lists
func c06Paths() (interface{}, string, bool) {
	var texts [2][]string
	var truths []bool
	for k := 0; k < 2; k++ {
		n := vxChoose("n", 3)
		for i := 0; i < n; i++ {
			c, t := tf("x")
			texts[k], truths = append(texts[k], `{"x":"`+c+`"}`), append(truths, t)
		}
	}
	a, b := `[`+join(texts[0])+`]`, `[`+join(texts[1])+`]`
	doc, parent := "", ""
	switch vxChoose("paths", 7) {
	case 0:
		doc, parent = `{"l":`+a+`,"m":`+b+`}`, "jsonpath:$.l[:],$.m[:]"
	case 1:
		doc, parent = `{"l":`+a+`,"m":`+b+`}`, "jsonpath:$.m[:],jsonpath:$.l[:]"
	case 2: // one of the paths is absent
		doc, parent = `{"l":`+a+`,"n":`+b+`}`, "jsonpath:$.l[:],$.m[:]"
		truths = truths[:len(texts[0])]
	case 3: // deep scan
		doc, parent = `{"p":{"l":`+a+`},"q":{"r":{"l":`+b+`}}}`, "jsonpath:$..l[:]"
	case 4:
		doc, parent = `{"p":{"l":`+a+`},"q":{"r":{"l":`+b+`}}}`, "jsonpath:$..l"
	case 5: // more paths
		doc, parent = `{"l":`+a+`,"k":[],"m":`+b+`}`, "jsonpath:$.l[:],$.n[:],$.k[:],$.m[:]"
	case 6:
		doc, parent = `{"l":`+a+`,"k":[],"n":[],"m":`+b+`}`, "jsonpath:$.k,jsonpath:$.l,jsonpath:$.n,jsonpath:$.m"
	}
	tree, want := quantify(vxChoose("all", 2) == 1, parent, cond("jsonpath:$RELATIVE.x", "EQ", "t"), truths)
	return tree, doc, want
}

func Check_C06_paths() {
	tree, doc, want := c06Paths()
	c06Check(tree, doc, want, "the elements are those of all the paths")
}

// NOT ALL c is ANY NOT c
func Check_C06_dual() {
	texts, _ := elements("e", 2)
	doc := `{"s":"t","l":[` + join(texts) + `]}`
	form := vxChoose("form", 2)
	method, value := vxPick("method", "EQ", "NEQ", "EX", "NEX", "RE", "NRE", "IN", "GT"), "t"
	if method == "GT" {
		value = "0"
	}
	inner := cond("jsonpath:$RELATIVE.x", method, value)
	if vxChoose("deep", 2) == 1 {
		inner = obj{"ANY": obj{"parentJsonpathAttribute": "jsonpath:$RELATIVE.y", "condition": cond("jsonpath:$VALUE", "EQ", "t")}}
	}
	const parent = "jsonpath:$.l[:]"
	all, _ := quantify(true, parent, inner, nil)
	any, _ := quantify(false, parent, obj{"NOT": inner}, nil)
	a := holds(obj{"NOT": all}, docMessage(doc, form))
	b := holds(any, docMessage(doc, form))
	vxObs("a", a)
	vxAssert(vxIff(a, b), "NOT ALL c is ANY NOT c")
	vxCover("end")
}
