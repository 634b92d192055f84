package main

import "github.com/octarinesec/MAPL/MAPL_engine"

// quoted is a JSON string literal.
func quoted(s string) string {
	out := []byte{'"'}
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			out = append(out, '\\')
		}
		out = append(out, s[i])
	}
	return string(append(out, '"'))
}

// place is a document with a value at a path, between other fields, and a
// spelling of that path. An empty value leaves the field out.
func place(value string) (string, string) {
	field := func(key string) string {
		if value == "" {
			return ""
		}
		return `,"` + key + `":` + value
	}
	switch vxChoose("place", 10) {
	case 0:
		return `{"b":"w"` + field("a") + `,"aa":"w"}`, "jsonpath:$.a"
	case 1:
		return `{"a":{"c":"w"` + field("b") + `},"b":"w"}`, "jsonpath:$.a.b"
	case 2:
		return `{"a":{"c":"w"` + field("b") + `},"b":"w"}`, "jsonpath:$.a['b']"
	case 3:
		return `{"a":{"c":"w"` + field("b") + `},"b":"w"}`, `jsonpath:$.a["b"]`
	case 4:
		return `{"a":{"c":"w"` + field("b") + `},"b":"w"}`, "jsonpath:.a.b"
	case 5:
		return `{"a":{"c":"w"` + field("b/c.d") + `,"b":{"c":"w"}},"b":"w"}`, "jsonpath:$.a['b/c.d']"
	case 6:
		return `{"a":{"c":"w"` + field("b") + `},"b":"w"}`, "jsonpath:$.a.['b']"
	case 7:
		if value == "" {
			return `{"a":["w"],"b":"w"}`, "jsonpath:$.a[1]"
		}
		return `{"a":["w",` + value + `,"w"],"b":"w"}`, "jsonpath:$.a[1]"
	case 8:
		return `{"a":[{"b":"w"},{"c":"w"` + field("b") + `}],"b":"w"}`, "jsonpath:$.a[1].b"
	}
	return `{"b":{"c":{"e":"w"` + field("d") + `}},"d":"w"}`, "jsonpath:$.b.c.d"
}

// route is a document with a value at the end of a path of up to max steps,
// each spelled in one of the ways.
func route(max int, value string) (string, string) {
	n := 1 + vxChoose("steps", max)
	path := ""
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = vxChoose("step", 7)
		if i == 0 {
			vxAssume(kinds[i] == 0)
		}
		path += []string{".a", "['a']", `["a"]`, ".['a']", "[1]", ".[1]", "['a/b.c']"}[kinds[i]]
	}
	doc := value
	for i := n - 1; i >= 0; i-- {
		switch kinds[i] {
		case 4, 5:
			doc = `["w",` + doc + `,["w"]]`
		case 6:
			doc = `{"a":"w","a/b.c":` + doc + `,"a/b":{"c":"w"}}`
		default:
			doc = `{"aa":"w","a":` + doc + `,"b":{"a":"w"}}`
		}
	}
	return doc, path
}

// paths of several steps, also within ANY
func Check_C09_routes() {
	val := vxStr("val", 1, 1, "aB")
	doc, path := route(3+vxTier(), quoted(val))
	var tree interface{}
	method := vxPick("method", "EQ", "NEX")
	want := vxAnd(method == "EQ", val == "a")
	switch vxChoose("head", 4) {
	case 0:
		tree = cond("jsonpath:$"+path, method, "a")
	case 1:
		tree = cond("jsonpath:"+path, method, "a")
	case 2:
		tree, _ = quantify(false, "jsonpath:$.l[:]", cond("jsonpath:$RELATIVE"+path, method, "a"), nil)
		doc = `{"a":"w","l":[` + doc + `]}`
	case 3:
		tree, _ = quantify(false, "jsonpath:$.m", cond("jsonpath:$VALUE"+path, method, "a"), nil)
		doc = `{"a":"w","m":{"k":` + doc + `}}`
	}
	got := holds(tree, c09Message(doc))
	vxObs("got", got)
	vxAssert(vxIff(got, want), "a path finds its field in every spelling")
	vxCover("end")
}

func c09Message(doc string) *MAPL_engine.MessageAttributes {
	return docMessage(doc, vxChoose("form", 2))
}

// text is the text at a path: a string, a number or a truth value.
func c09Text(max int, alphabet string) (string, string) {
	switch vxChoose("kind", 4) {
	case 0:
		t := vxPick("truth", "true", "false")
		return t, t
	case 1:
		t, _ := numeral("num", 2)
		vxAssume(t[0] != '+' && jsonNumber(t))
		return t, t
	case 2:
		s := vxStr("val", 1, max, alphabet)
		return s, quoted(s)
	}
	s := vxPick("word", "true", "null", "{}", "[]", "[1]")
	return s, quoted(s)
}

// EQ and NEQ at every kind of path
func Check_C09_equal() {
	n := 2
	if vxTier() == 1 {
		n = 3
	}
	val, want := vxStr("val", 1, n, "aB"), vxStr("want", 1, n, "aB")
	doc, attr := place(quoted(val))
	method, neg := "NE", true
	switch vxChoose("spelling", 3) {
	case 0:
		method, neg = strMethod("method", "EQ", "NEQ")
	case 1:
		method = "ne"
	}
	got := holds(cond(attr, method, want), c09Message(doc))
	vxObs("got", got)
	vxAssert(vxIff(got, (val == want) != neg), "EQ compares the text at the path literally")
	vxCover("end")
}

// every character stands for itself
func Check_C09_literal() {
	n := 2
	if vxTier() == 1 {
		n = 3
	}
	const alphabet = "aB*.$ \"\\[]{,-"
	val, want := vxStr("val", 1, n, alphabet), vxStr("want", 1, n, alphabet)
	method, neg := "EQ", false
	if vxChoose("method", 2) == 1 {
		method, neg = "NEQ", true
	}
	got := holds(cond("jsonpath:$.a", method, want), c09Message(`{"b":"w","a":`+quoted(val)+`,"c":"w"}`))
	vxObs("got", got)
	vxAssert(vxIff(got, (val == want) != neg), "EQ compares the text at the path literally")
	vxCover("end")
}

// values which are no strings, and strings that look like them
func Check_C09_kinds() {
	text, value := c09Text(2, "aB")
	method, neg := strMethod("method", "EQ", "NEQ")
	want := vxPick("want", "true", "false", "null", "a", "{}", "[]", "[1]")
	got := holds(cond("jsonpath:$.a", method, want), c09Message(`{"b":"w","a":`+value+`,"c":"w"}`))
	vxObs("got", got)
	vxAssert(vxIff(got, (text == want) != neg), "EQ compares the text at the path literally")
	vxCover("end")
}

func Check_C09_regex() {
	max := 3
	if vxTier() == 1 {
		max = 4
	}
	val := vxStr("val", 1, max, "aB-Z.")
	pat, want := c08Regex(val)
	doc, attr := `{"b":"w","a":`+quoted(val)+`,"c":"w"}`, "jsonpath:$.a"
	if vxTier() == 1 {
		doc, attr = place(quoted(val))
	}
	method, neg := strMethod("method", "RE", "NRE")
	got := holds(cond(attr, method, pat), c09Message(doc))
	vxObs("got", got)
	vxAssert(vxIff(got, want != neg), "RE searches the text at the path")
	vxCover("end")
}

// regular expressions on numbers and truth values
func Check_C09_reKinds() {
	text, value := c09Text(1, "aB")
	method, neg := strMethod("method", "RE", "NRE")
	pat, want := "", false
	n := len(text)
	switch vxChoose("re", 4) {
	case 0:
		pat, want = "^true$", text == "true"
	case 1:
		pat, want = "e$", text[n-1] == 'e'
	case 2:
		pat, want = "^[0-9]", text[0] >= '0' && text[0] <= '9'
	case 3:
		c := vxByte("c", "0123456789tr")
		pat = string([]byte{c})
		want = vxContains(text, pat)
	}
	got := holds(cond("jsonpath:$.a", method, pat), c09Message(`{"b":"w","a":`+value+`,"c":"w"}`))
	vxObs("got", got)
	vxAssert(vxIff(got, want != neg), "RE searches the text at the path")
	vxCover("end")
}

func Check_C09_lists() {
	max := 2
	if vxTier() == 1 {
		max = 3
	}
	val := vxStr("val", 1, 2, "aB-Z")
	n := 1 + vxChoose("items", max)
	list := ""
	want := false
	for i := 0; i < n; i++ {
		item := vxStr("item", 1, 2, "aB-")
		if i > 0 {
			list += ","
		}
		list += item
		want = vxOr(want, item == val)
	}
	if vxChoose("brackets", 2) == 1 {
		list = "[" + list + "]"
	}
	method, neg := "IS", false
	if vxChoose("is", 2) == 0 {
		method, neg = strMethod("method", "IN", "NIN")
	}
	got := holds(cond("jsonpath:$.a", method, list), c09Message(`{"b":"w","a":`+quoted(val)+`,"c":"w"}`))
	vxObs("got", got)
	vxAssert(vxIff(got, want != neg), "IN tests whether the text at the path is one of the listed values")
	vxCover("end")
}

func Check_C09_exists() {
	value := ""
	present := false
	switch vxChoose("content", 4) {
	case 0:
	case 1:
		value = "null"
	case 2:
		value = `""`
	case 3:
		_, value = c09Text(2, "aB \"")
		present = true
	}
	doc, attr := place(value)
	method, neg := strMethod("method", "EX", "NEX")
	got := holds(cond(attr, method, vxStr("value", 0, 1, "aB1")), c09Message(doc))
	vxObs("got", got)
	vxAssert(vxIff(got, present != neg), "EX tests whether a value is present, NEX whether it is not")
	vxCover("end")
}

// absent, null and empty values
func Check_C09_absent() {
	doc, attr := place(vxPick("content", "", "null", `""`))
	method := vxPick("method", "EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "IS", "EX", "GT", "GE", "LT", "LE", "eq", "neq", "ne", "re", "nre", "in", "nin", "ex", "gt", "ge", "lt", "le")
	got := holds(cond(attr, method, vxPick("value", "0", "1", "10", "0.5")), c09Message(doc))
	vxObs("got", got)
	vxAssert(!got, "a condition on an absent, null or empty value is false")
	vxCover("end")
}

// no field of the path is there
func Check_C09_missing() {
	doc := vxPick("doc", `{}`, `{"b":"w"}`, `{"a":"w"}`, `{"a":null}`, `{"a":3}`, `{"a":true}`, `{"a":{}}`, `{"a":[]}`, `{"a":{"bb":{"c":"w"}}}`, `{"a":{"c":"w"}}`, `{"a":{"b":{}}}`, `{"a":{"b":[]}}`, `{"a":{"b":null}}`)
	attr := vxPick("attr", "jsonpath:$.a.b.c", "jsonpath:$.a['b'].c", "jsonpath:$.a.b[0]", "jsonpath:$.a.b[0].c")
	method := vxPick("method", "EQ", "NEQ", "RE", "NRE", "IN", "NIN", "EX", "NEX", "nex", "GT", "LE")
	got := holds(cond(attr, method, vxPick("value", "0", "1", "10", "0.5")), c09Message(doc))
	vxObs("got", got)
	vxAssert(got == (method == "NEX" || method == "nex"), "a condition on an absent value is false, NEX is true")
	vxCover("end")
}

// words that Go reads as numbers
func Check_C09_words() {
	words := []string{"nan", "NaN", "inf", "Inf", "+Inf", "-inf", "infinity", "Infinity", "na", "infi", "Nano", "x", "null"}
	v, w := vxChoose("val", len(words)), vxChoose("want", len(words))
	method, neg := strMethod("method", "EQ", "NEQ")
	got := holds(cond("jsonpath:$.a", method, words[w]), c09Message(`{"b":"w","a":"`+words[v]+`","c":"w"}`))
	vxObs("got", got)
	vxKnown("K02", v < 8 && w < 8)
	vxAssert(vxIff(got, (v == w) != neg), "EQ compares the text at the path literally")
	vxCover("end")
}

// a text which is no number, compared with a number
func Check_C09_nonumber() {
	val := vxStr("val", 1, 2, "aBx_")
	method := vxPick("method", "EQ", "eq", "NEQ", "neq", "NE", "ne", "LT", "GT", "LE", "GE", "lt", "ge")
	want := vxPick("want", "1", "0", "-2", "1.5")
	doc, attr := place(quoted(val))
	got := holds(cond(attr, method, want), c09Message(doc))
	vxObs("got", got)
	vxAssert(vxIff(got, method[0] == 'N' || method[0] == 'n'), "a text which is no number differs from every number")
	vxCover("end")
}
