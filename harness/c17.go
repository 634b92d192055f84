package main

import (
	"encoding/json"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// entry is what is returned for one element: the text of the value of every
// named path, null if the element has no such path.
type entry map[string]string

func sameEntries(got []map[string]interface{}, want []entry) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range want {
		for name := range got[i] {
			if _, ok := want[i][name]; !ok {
				return false
			}
		}
		for name, text := range want[i] {
			b, err := json.Marshal(got[i][name])
			if err != nil || string(b) != text {
				return false
			}
		}
	}
	return true
}

// c17Check evaluates the conditions on a document in one of its forms and compares the returned data
func c17Check(tree interface{}, doc string, truth bool, want []entry, label string) {
	r := parseRule(tree)
	m := docMessage(doc, vxChoose("form", 2))
	got, data := r.TestConditions(m)
	vxObs("got", got)
	vxObs("entries", len(data))
	vxAssert(vxIff(got, truth), "conditions with return values hold as without")
	if truth {
		vxAssert(sameEntries(data, want), label)
	}
	decision, data := r.Check(m)
	if truth {
		vxAssert(decision == MAPL_engine.ALLOW && sameEntries(data, want), "a rule returns the data of its conditions")
	} else {
		vxAssert(decision == MAPL_engine.DEFAULT && len(data) == 0, "a rule that does not apply yields no data")
	}
	vxCover("end")
}

// c17Elements are up to max elements; x decides the condition, y is returned.
func c17Elements(name string, max int) (texts []string, truths []bool, ys []string) {
	n := vxChoose(name+".n", max+1)
	for i := 0; i < n; i++ {
		c, t := tf(name)
		y := vxPick(name+".y", `"`+string([]byte{vxByte(name+".c", "abt")})+`"`, `12`, `null`, `{"z":[1,"q"]}`, "")
		if y == "" {
			texts = append(texts, `{"x":"`+c+`"}`)
			y = "null"
		} else {
			texts = append(texts, `{"x":"`+c+`","y":`+y+`}`)
		}
		truths = append(truths, t)
		ys = append(ys, y)
	}
	return
}

func anyOf(parent string, ret obj, inner interface{}) obj {
	return obj{"ANY": obj{"parentJsonpathAttribute": parent, "returnValueJsonpath": ret, "condition": inner}}
}

var c17X = "jsonpath:$RELATIVE.x"

// one entry per satisfying element
func Check_C17_elements() {
	max := 2
	if vxTier() == 1 {
		max = 3
	}
	texts, truths, ys := c17Elements("e", max)
	parent := vxPick("parent", "jsonpath:$.l[:]", "jsonpath:$.l")
	ret := obj{"v": "jsonpath:$RELATIVE.y"}
	all := vxChoose("whole", 2) == 1
	if all {
		ret["w"] = "jsonpath:$RELATIVE*"
	}
	neg := vxChoose("not", 2) == 1
	inner := interface{}(cond(c17X, "EQ", "t"))
	if neg {
		inner = obj{"NOT": inner}
	}
	var want []entry
	truth := false
	for i, t := range truths {
		if t != neg {
			truth = true
			e := entry{"v": ys[i]}
			if all {
				e["w"] = texts[i]
			}
			want = append(want, e)
		}
	}
	c17Check(anyOf(parent, ret, inner), `{"y":"o","l":[`+join(texts)+`]}`, truth, want, "ANY returns the values of exactly the satisfying elements in order")
}

// paths into the element
func Check_C17_paths() {
	c := string([]byte{vxByte("c", "abt")})
	elem := `{"x":"t","a":{"b":[{"k":"` + c + `"},2]},"n":null,"q.r":"d"}`
	path, want := "", ""
	switch vxChoose("path", 8) {
	case 0:
		path, want = ".a", `{"b":[{"k":"`+c+`"},2]}`
	case 1:
		path, want = ".a.b", `[{"k":"`+c+`"},2]`
	case 2:
		path, want = ".a.b[0]", `{"k":"`+c+`"}`
	case 3:
		path, want = ".a.b[0].k", `"`+c+`"`
	case 4:
		path, want = ".a.b[1]", `2`
	case 5:
		path, want = ".n", `null`
	case 6:
		path, want = ".a.z", `null`
	default:
		path, want = "", elem
	}
	other := `{"x":"f"}`
	list := other + "," + elem
	if vxChoose("first", 2) == 1 {
		list = elem + "," + other
	}
	e := entry{"v": want}
	if want == elem {
		e["v"] = `{"a":{"b":[{"k":"` + c + `"},2]},"n":null,"q.r":"d","x":"t"}`
	}
	c17Check(anyOf("jsonpath:$.l[:]", obj{"v": "jsonpath:$RELATIVE" + path}, cond(c17X, "EQ", "t")), `{"a":{"b":[{"k":"o"},3]},"l":[`+list+`]}`, true, []entry{e}, "a return path is read in the satisfying element")
}

// elements that are not objects, and entries of an object
func Check_C17_kinds() {
	c, t := tf("x")
	ret := obj{"w": "jsonpath:$RELATIVE*"}
	var want []entry
	switch vxChoose("kind", 3) {
	case 0: // strings
		if t {
			want = append(want, entry{"w": `"t"`})
		}
		want = append(want, entry{"w": `"t"`})
		c17Check(anyOf("jsonpath:$.l[:]", ret, cond("jsonpath:$RELATIVE", "EQ", "t")), `{"l":["`+c+`","t"]}`, true, want, "the whole element is returned")
	case 1: // numbers
		c17Check(anyOf("jsonpath:$.l[:]", ret, cond("jsonpath:$RELATIVE", "GT", "1")), `{"l":[1,2,1.5]}`, true, []entry{{"w": "2"}, {"w": "1.5"}}, "the whole element is returned")
	default: // entries of an object
		if t {
			want = append(want, entry{"w": `{"k":"t"}`})
		}
		c17Check(anyOf("jsonpath:$.l", ret, cond("jsonpath:$VALUE", "EQ", "t")), `{"l":{"k":"`+c+`"}}`, t, want, "the whole entry is returned")
	}
}

// c17Leaf is a condition with return values and what it yields when true.
func c17Leaf(i string) (tree interface{}, doc string, truth bool, data []entry) {
	c, t := tf("x" + i)
	switch vxChoose("leaf"+i, 5) {
	case 0: // nothing to return
		return cond("jsonpath:$.s"+i, "EQ", "t"), `"s` + i + `":"` + c + `"`, t, nil
	case 1: // a condition with return values
		leaf := cond("jsonpath:$.s"+i, "EQ", "t")
		leaf["returnValueJsonpath"] = obj{"v" + i: "jsonpath:$.y" + i}
		if t {
			data = []entry{{"v" + i: `"y"`}}
		}
		return leaf, `"s` + i + `":"` + c + `","y` + i + `":"y"`, t, data
	case 2: // ANY without return values
		leaf, _ := quantify(false, "jsonpath:$.l"+i+"[:]", cond(c17X, "EQ", "t"), nil)
		return leaf, `"l` + i + `":[{"x":"` + c + `"}]`, t, nil
	case 3: // ALL with return values
		leaf, _ := quantify(true, "jsonpath:$.l"+i+"[:]", cond(c17X, "EQ", "t"), nil)
		leaf = withReturns(leaf, "returnValueJsonpath", obj{"v": "jsonpath:$RELATIVE.y"})
		return leaf, `"l` + i + `":[{"x":"` + c + `","y":1}]`, t, nil
	}
	leaf := anyOf("jsonpath:$.l"+i+"[:]", obj{"v" + i: "jsonpath:$RELATIVE.y"}, cond(c17X, "EQ", "t"))
	if t {
		data = append(data, entry{"v" + i: "1"})
	}
	data = append(data, entry{"v" + i: "2"})
	return leaf, `"l` + i + `":[{"x":"` + c + `","y":1},{"x":"t","y":2}]`, true, data
}

// how the data of operands is combined
func Check_C17_combine() {
	a, da, ta, wa := c17Leaf("0")
	b, db, tb, wb := c17Leaf("1")
	doc := `{` + da + `,` + db + `}`
	var tree interface{}
	var want []entry
	truth := false
	switch vxChoose("op", 5) {
	case 0:
		tree, truth, want = obj{"AND": arr{a, b}}, ta && tb, wa
		if len(wb) > 0 {
			want = wb
		}
	case 1:
		tree, truth = obj{"OR": arr{a, b}}, ta || tb
		if ta {
			want = append(want, wa...)
		}
		if tb {
			want = append(want, wb...)
		}
	case 2:
		tree, truth = obj{"NOT": a}, !ta
	case 3: // an operand that is false contributes nothing
		tree, truth = obj{"OR": arr{obj{"AND": arr{a, b}}, obj{"NOT": b}}}, (ta && tb) || !tb
		if ta && tb {
			want = wa
			if len(wb) > 0 {
				want = wb
			}
		}
	default:
		tree, truth = obj{"AND": arr{obj{"OR": arr{a, b}}, obj{"NOT": obj{"AND": arr{a, b}}}}}, ta != tb
		if ta {
			want = append(want, wa...)
		}
		if tb {
			want = append(want, wb...)
		}
	}
	c17Check(tree, doc, truth, want, "OR joins the data of its true operands, AND takes that of the last with any, NOT has none")
}

// c17Tree is a tree of AND, OR and NOT over conditions with return values, what
// it yields when true, and the fields of the document it looks at.
func c17Tree(depth int, n *int) (tree interface{}, doc string, truth bool, data []entry) {
	kind := 0
	if depth > 0 {
		kind = vxChoose("tree", 4)
	}
	switch kind {
	case 1, 2:
		a, da, ta, wa := c17Tree(depth-1, n)
		b, db, tb, wb := c17Tree(depth-1, n)
		doc = da + `,` + db
		if kind == 1 {
			if len(wb) == 0 {
				wb = wa
			}
			return obj{"AND": arr{a, b}}, doc, ta && tb, wb
		}
		if ta {
			data = append(data, wa...)
		}
		if tb {
			data = append(data, wb...)
		}
		return obj{"OR": arr{a, b}}, doc, ta || tb, data
	case 3:
		a, da, ta, _ := c17Tree(depth-1, n)
		return obj{"NOT": a}, da, !ta, nil
	}
	i := string([]byte{byte('0' + *n)})
	*n++
	c, t := tf("x" + i)
	leaf := cond("jsonpath:$.s"+i, "EQ", "t")
	doc = `"s` + i + `":"` + c + `"`
	switch vxChoose("returns", 2+vxTier()) {
	case 0:
		leaf["returnValueJsonpath"] = obj{"v" + i: "jsonpath:$.s" + i}
		data = []entry{{"v" + i: `"t"`}}
	case 2:
		leaf = anyOf("jsonpath:$.l"+i+"[:]", obj{"v" + i: "jsonpath:$RELATIVE.x"}, cond(c17X, "EQ", "t"))
		doc = `"l` + i + `":[{"x":"` + c + `"}]`
		data = []entry{{"v" + i: `"t"`}}
	}
	return leaf, doc, t, data
}

// how the data of operands is combined at any nesting
func Check_C17_trees() {
	n := 0
	tree, doc, truth, want := c17Tree(2, &n)
	c17Check(tree, `{`+doc+`}`, truth, want, "OR joins the data of its true operands, AND takes that of the last with any, NOT has none")
}

// return values inside ANY and ALL
func Check_C17_nested() {
	a, ta := tf("a")
	b, tb := tf("b")
	inner := anyOf("jsonpath:$RELATIVE.m[:]", obj{"i": "jsonpath:$RELATIVE.y"}, cond(c17X, "EQ", "t"))
	doc := `{"l":[{"y":"1","m":[{"x":"` + a + `","y":"i"}]},{"y":"2","m":[{"x":"f"},{"x":"` + b + `","y":"j"}]}]}`
	if vxChoose("outer", 2) == 0 {
		tree, want := quantify(vxChoose("all", 2) == 1, "jsonpath:$.l[:]", inner, []bool{ta, tb})
		c17Check(tree, doc, want, nil, "only the outermost node returns values")
		return
	}
	var want []entry
	if ta {
		want = append(want, entry{"v": `"1"`})
	}
	if tb {
		want = append(want, entry{"v": `"2"`})
	}
	c17Check(anyOf("jsonpath:$.l[:]", obj{"v": "jsonpath:$RELATIVE.y"}, inner), doc, ta || tb, want, "the outer node returns the values of its own elements")
}

// several lists in one node
func Check_C17_lists() {
	a, ta := tf("a")
	b, tb := tf("b")
	doc := `{"m":[{"x":"` + b + `","y":2}],"l":[{"x":"` + a + `","y":1}]}`
	var want []entry
	if ta {
		want = append(want, entry{"v": `1`})
	}
	if tb {
		want = append(want, entry{"v": `2`})
	}
	c17Check(anyOf("jsonpath:$.l[:],jsonpath:$.m[:]", obj{"v": "jsonpath:$RELATIVE.y"}, cond(c17X, "EQ", "t")), doc, ta || tb, want, "the elements of several lists are taken in the order of the paths")
}

// several rules on one message
func Check_C17_rules() {
	a, ta := tf("a")
	b, tb := tf("b")
	doc := `{"m":[{"x":"` + b + `","y":2}],"l":[{"x":"` + a + `","y":1}]}`
	r := parseRule(anyOf("jsonpath:$.l[:]", obj{"v": "jsonpath:$RELATIVE.y"}, cond(c17X, "EQ", "t")))
	s := parseRule(anyOf("jsonpath:$.m[:]", obj{"v": "jsonpath:$RELATIVE.y"}, cond(c17X, "EQ", "t")))
	m := docMessage(doc, vxChoose("form", 2))
	m.RequestMethod = "GET"
	none := parseRule(cond("true", "EQ", ""))
	skip := vxBool("skip")
	if skip {
		s.Operation = "PUT" // does not apply
	}
	_, _, _, _, _, _, data := MAPL_engine.Check(m, &MAPL_engine.Rules{Rules: []MAPL_engine.Rule{*r, *none, *s}})
	var wr, ws []entry
	if ta {
		wr = []entry{{"v": "1"}}
	}
	if tb && !skip {
		ws = []entry{{"v": "2"}}
	}
	vxAssert(len(data) == 3, "every rule has its own data")
	vxAssume(len(data) == 3)
	vxAssert(sameEntries(data[0], wr) && len(data[1]) == 0 && sameEntries(data[2], ws), "every rule has its own data")
	vxCover("end")
}

// a single condition with return values, by every method
func Check_C17_methods() {
	c, t := tf("c")
	doc := `{"x":"` + c + `","y":"` + c + `","n":` + vxPick("n", "1", "2") + `}`
	leaf := obj{}
	truth := false
	switch vxChoose("method", 9) {
	case 0:
		leaf, truth = cond("jsonpath:$.x", "EQ", "t"), t
	case 1:
		leaf, truth = cond("jsonpath:$.x", "NEQ", "t"), !t
	case 2:
		leaf, truth = cond("jsonpath:$.x", "RE", "^t$"), t
	case 3:
		leaf, truth = cond("jsonpath:$.x", "NRE", "^t$"), !t
	case 4:
		leaf, truth = cond("jsonpath:$."+vxPick("key", "x", "z"), "EX", ""), true
	case 5:
		leaf, truth = cond("jsonpath:$."+vxPick("key", "x", "z"), "NEX", ""), true
	case 6:
		leaf, truth = cond("jsonpath:$.x", "IN", "s,t"), t
	case 7:
		leaf, truth = cond("jsonpath:$.x", "NIN", "s,t"), !t
	default:
		leaf, truth = cond("jsonpath:$.n", "GT", "1"), vxContains(doc, `:2`)
	}
	if leaf["method"] == "EX" {
		truth = leaf["attribute"] == "jsonpath:$.x"
	}
	if leaf["method"] == "NEX" {
		truth = leaf["attribute"] == "jsonpath:$.z"
	}
	leaf["returnValueJsonpath"] = obj{"v": "jsonpath:$.y"}
	tree := interface{}(leaf)
	want := []entry{{"v": `"` + c + `"`}}
	switch vxChoose("under", 4) {
	case 1:
		tree = obj{"AND": arr{leaf, cond("jsonpath:$.y", "EX", "")}}
	case 2:
		tree = obj{"OR": arr{leaf, cond("jsonpath:$.q", "EX", "")}}
	case 3: // what a false operand has is not returned
		tree = obj{"OR": arr{leaf, cond("jsonpath:$.y", "EX", "")}}
		if !truth {
			want = nil
		}
		truth = true
	}
	c17Check(tree, doc, truth, want, "a true condition yields one entry and a false one none")
	if !truth {
		_, data := parseRule(leaf).TestConditions(docMessage(doc, 0))
		vxAssert(len(data) == 0, "a false condition yields no data")
	}
}
