package main

import "github.com/octarinesec/MAPL/MAPL_engine"

// sameForms checks that a tree gives one answer on the raw bytes, on the decoded
// document, and on a message with both.
func sameForms(tree interface{}, doc string) {
	raw, dec := docMessage(doc, 0), docMessage(doc, 1)
	a, b := holds(tree, raw), holds(tree, dec)
	c := holds(tree, &MAPL_engine.MessageAttributes{RequestJsonRaw: raw.RequestJsonRaw, RequestRawInterface: dec.RequestRawInterface})
	vxObs("a", a)
	vxAssert(vxIff(a, b), "raw bytes and decoded document give the same answer")
	vxAssert(vxIff(a, c), "both forms together give the same answer")
	vxCover("end")
}

// c10Value is a JSON value of any kind.
func c10Value() string {
	switch vxChoose("value", 7) {
	case 0:
		return quoted(vxStr("s", 0, 2, "a1[]{}\"\\, "))
	case 1:
		return vxPick("esc", `"a"`, `"\n"`, `"\/"`, `"a\tb"`, `"é"`, `"é"`, `"😀"`, `"<"`)
	case 2:
		t, _ := numeral("num", 2)
		vxAssume(t[0] != '+' && jsonNumber(t))
		return t
	case 3:
		return vxPick("const", "null", "true", "false", `""`, "[]", "{}")
	case 4:
		return `[` + vxPick("e0", "1", `"a"`, `"1"`, "null", "[1]", `["a"]`, `{"x":"a"}`, "[]") + vxPick("e1", "", ",1", `,"a"`, ",[2]", `,{"y":1}`) + `]`
	case 5:
		return `{"x":` + vxPick("x", "1", `"a"`, "null", "[1]", `{"z":"a"}`) + vxPick("w", "", `,"y":1`, `,"a":"a"`, ` , "y" : [ "a" , 1 ] `) + `}`
	}
	return vxPick("num", "1.5", "-0.5", "100000000", "12345678901", "0")
}

// one condition
func Check_C10_single() {
	doc := `{"b":"w","a":` + c10Value() + `,"c":"w"}`
	method := vxPick("method", "EQ", "NEQ", "IN", "NIN", "EX", "NEX", "GT", "LE")
	value := vxPick("want", "1", "a", "[1]", "null", "{}", "[]", "true", `{"x":1}`, "1,a")
	switch method {
	case "IN", "NIN":
		vxAssume(value != "{}" && value != "[]" && value != `{"x":1}`)
	case "GT", "LE":
		vxAssume(value == "1")
	}
	sameForms(cond("jsonpath:$.a", method, value), doc)
}

// the text of the value as seen by a regular expression
func Check_C10_text() {
	doc := `{"b":"w","a":` + c10Value() + `,"c":"w"}`
	value := vxPick("re", "1", "a", "^.$", "^..$", "^.{3}$", "^.{5}$", "x.*y", "x.*a", "[{]", "[[]", "\"", ",", "^1", "1$", "a$", "<", "\\s", "[\\\\]", "^\\[", "\\]$")
	sameForms(cond("jsonpath:$.a", "RE", value), doc)
}

// a quantifier over a value of any kind
func Check_C10_elements() {
	parent := vxPick("parent", "jsonpath:$.a[:]", "jsonpath:$.a", "jsonpath:$.a[*]", "jsonpath:$.a.x", "jsonpath:$.a.x[:]", "jsonpath:$..x", "jsonpath:$.a[:],$.c")
	attr := vxPick("attr", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.x", "jsonpath:$KEY", "jsonpath:$VALUE", "jsonpath:$VALUE.x", "jsonpath:$VALUE[0]", "jsonpath:$.c")
	method := vxPick("method", "EQ", "NEX")
	if vxTier() == 1 {
		method = vxPick("method", "EQ", "NEQ", "EX", "NEX", "RE")
	}
	tree, _ := quantify(vxChoose("all", 2) == 1, parent, cond(attr, method, "a"), nil)
	sameForms(tree, `{"b":"w","a":`+c10Value()+`,"c":{"x":"1"}}`)
}

// numbers which are not written in the shortest form
func Check_C10_numerals() {
	num := vxPick("num", "1.50", "1.0", "1e3", "-0", "12345678901234567890", "0.1", "17", "100000000000000000000", "1E2")
	method := vxPick("method", "EQ", "NEQ", "RE", "NRE", "IN", "NIN", "EX", "GT", "LE")
	want := vxPick("want", "1.5", "1.50", "1", "1000", "1e3", "0", "100", "12345678901234567890")
	vxKnown("K03", (method == "RE" || method == "NRE" || method == "IN" || method == "NIN") && num != "0.1" && num != "17" && num != "100000000000000000000")
	sameForms(cond("jsonpath:$.a", method, want), `{"b":"w","a":`+num+`,"c":"w"}`)
}

func Check_C10_array() {
	tree, doc, _ := c06Array()
	sameForms(tree, doc)
}

func Check_C10_nothing() {
	tree, doc, _ := c06Nothing()
	sameForms(tree, doc)
}

func Check_C10_strings() {
	tree, doc, _ := c06Strings()
	sameForms(tree, doc)
}

func Check_C10_scalars() {
	tree, doc, _ := c06Scalars()
	sameForms(tree, doc)
}

func Check_C10_object() {
	tree, doc, _ := c06Object()
	sameForms(tree, doc)
}

func Check_C10_nested() {
	tree, doc, _ := c06Nested(1 + vxTier())
	sameForms(tree, doc)
}

func Check_C10_absolute() {
	tree, doc, _ := c06Absolute()
	sameForms(tree, doc)
}

func Check_C10_siblings() {
	tree, doc, _ := c06Siblings()
	sameForms(tree, doc)
}

func Check_C10_entries() {
	tree, doc, _ := c06Entries()
	sameForms(tree, doc)
}

func Check_C10_paths() {
	tree, doc, _ := c06Paths()
	sameForms(tree, doc)
}

// every kind of path with every method
func Check_C10_places() {
	value := ""
	switch vxChoose("content", 5) {
	case 0:
	case 1:
		value = "null"
	case 2:
		value = `""`
	case 3:
		value = quoted(vxStr("val", 1, 1, "a1"))
	case 4:
		value = vxPick("const", "1", "true", "{}", "[]", `{"a":"1"}`, "2Ki")
		if value == "2Ki" {
			value = `"2Ki"`
		}
	}
	doc, attr := place(value)
	method := vxPick("method", "EQ", "NEQ", "RE", "NRE", "IN", "NIN", "EX", "NEX", "GT", "LE", "eq", "nex")
	sameForms(cond(attr, method, vxPick("want", "1", "2048")), doc)
}

// paths of several steps
func Check_C10_routes() {
	doc, path := route(3, vxPick("value", `"a"`, "1", "null", "[]", `{"a":"a"}`, `["w","a"]`))
	sameForms(cond("jsonpath:$"+path+vxPick("more", "", ".a", "[1]", ".x"), vxPick("method", "EQ", "RE", "NEX"), "a"), doc)
}

// numbers with and without units
func Check_C10_units() {
	text := vxPick("n", "1", "10", "1.5", "1K", "2Ki", "500m", "10%", "3e3")
	if vxTier() == 1 {
		text, _, _ = withUnit("n")
	}
	doc := vxStr("doc", 1, 2, "0123456789")
	unit := vxPick("doc.unit", "", "K", "Ki", "m", "%", "e3")
	value := quoted(doc + unit)
	if unit == "" && vxChoose("number", 2) == 1 {
		vxAssume(jsonNumber(doc))
		value = doc
	}
	sameForms(cond("jsonpath:$.a", vxPick("method", "EQ", "NEQ", "LT", "LE", "GT", "GE"), text), `{"b":"w","a":`+value+`,"c":"w"}`)
}

// every unit in the document and in the condition
func Check_C10_everyunit() {
	doc := vxStr("doc", 1, 1, "0129") + units[vxChoose("doc.unit", len(units))].text
	want := vxPick("n", "1", "9") + units[vxChoose("unit", len(units))].text
	sameForms(cond("jsonpath:$.a", vxPick("method", "EQ", "GT", "LE"), want), `{"b":"w","a":"`+doc+`","c":"w"}`)
}
