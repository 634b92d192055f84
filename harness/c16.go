package main

import (
	"regexp"
	"strings"

	"github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
)

// below are the values a path of a query leads to. Arrays on the way are
// searched element by element.
func below(doc interface{}, path []string) []interface{} {
	if len(path) == 0 {
		return []interface{}{doc}
	}
	switch v := doc.(type) {
	case map[string]interface{}:
		if x, ok := v[path[0]]; ok {
			return below(x, path[1:])
		}
	case []interface{}:
		var out []interface{}
		for i, x := range v {
			if path[0] == string(rune('0'+i)) {
				out = append(out, below(x, path[1:])...)
			}
			if _, ok := x.(map[string]interface{}); ok {
				out = append(out, below(x, path)...)
			}
		}
		return out
	}
	return nil
}

// queryMap and queryList are the objects and lists of a query, whatever type
// is used for them.
func queryMap(x interface{}) map[string]interface{} {
	switch x := x.(type) {
	case bson.M:
		return x
	case map[string]interface{}:
		return x
	case bson.D:
		out := map[string]interface{}{}
		for _, e := range x {
			out[e.Key] = e.Value
		}
		return out
	}
	return nil
}

func queryList(x interface{}) []interface{} {
	var out []interface{}
	switch x := x.(type) {
	case []interface{}:
		return x
	case bson.A:
		return x
	case []bson.M:
		for _, e := range x {
			out = append(out, e)
		}
	case []bson.D:
		for _, e := range x {
			out = append(out, e)
		}
	case []string:
		for _, e := range x {
			out = append(out, e)
		}
	}
	return out
}

func queryNumber(x interface{}) (float64, bool) {
	switch x := x.(type) {
	case float64:
		return x, true
	case int:
		return float64(x), true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	}
	return 0, false
}

// otherOperator stops at operators of MongoDB this interpreter does not know.
func otherOperator(op string) {
	switch op {
	case "$all", "$size", "$type", "$expr", "$mod", "$where", "$text", "$comment", "$options":
		vxAssume(false)
	}
	panic("unknown operator " + op)
}

// mongoEq tells whether a value of a document is equal to one of a query.
func mongoEq(v, x interface{}) bool {
	switch x := x.(type) {
	case string:
		s, ok := v.(string)
		return ok && s == x
	case bool:
		b, ok := v.(bool)
		return ok && b == x
	case nil:
		return v == nil
	}
	n, isNumber := queryNumber(x)
	if !isNumber {
		panic("unknown kind of value in a query")
	}
	f, ok := v.(float64)
	return ok && f == n
}

// mongoOne tells whether one value fulfils an operator.
func mongoOne(v interface{}, op string, x interface{}) bool {
	switch op {
	case "$eq":
		return mongoEq(v, x)
	case "$in":
		for _, y := range queryList(x) {
			if mongoEq(v, y) {
				return true
			}
		}
		return false
	case "$regex":
		s, ok := v.(string)
		if !ok {
			return false
		}
		re, err := regexp.Compile(x.(string))
		if err != nil {
			panic("invalid regular expression in a query")
		}
		return re.MatchString(s)
	case "$gt", "$gte", "$lt", "$lte":
		f, ok := v.(float64)
		g, ok2 := queryNumber(x)
		if !ok2 {
			panic("order of something other than numbers")
		}
		if !ok {
			return false
		}
		switch op {
		case "$gt":
			return f > g
		case "$gte":
			return f >= g
		case "$lt":
			return f < g
		}
		return f <= g
	}
	otherOperator(op)
	return false
}

// mongoField tells whether the values at a path fulfil all operators.
func mongoField(values []interface{}, ops map[string]interface{}) bool {
	for op, x := range ops {
		ok := false
		switch op {
		case "$exists":
			ok = len(values) > 0 == x.(bool)
		case "$ne":
			ok = !mongoField(values, map[string]interface{}{"$eq": x})
		case "$nin":
			ok = !mongoField(values, map[string]interface{}{"$in": x})
		case "$not":
			ok = !mongoField(values, queryMap(x))
		case "$elemMatch":
			for _, v := range values {
				elements, _ := v.([]interface{})
				for _, e := range elements {
					if _, isObject := e.(map[string]interface{}); isObject && mongo(queryMap(x), e) {
						ok = true
					}
				}
			}
		default:
			for _, v := range values {
				if mongoOne(v, op, x) {
					ok = true
				}
				elements, _ := v.([]interface{})
				for _, e := range elements {
					if mongoOne(e, op, x) {
						ok = true
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// mongo tells whether MongoDB selects a document for a query.
func mongo(q map[string]interface{}, doc interface{}) bool {
	for k, v := range q {
		ok := false
		switch k {
		case "$and", "$or", "$nor":
			nodes := queryList(v)
			if len(nodes) == 0 {
				panic("empty list in a query")
			}
			ok = k != "$or"
			for _, n := range nodes {
				switch t := mongo(queryMap(n), doc); k {
				case "$and":
					ok = vxAnd(ok, t)
				case "$or":
					ok = vxOr(ok, t)
				default:
					ok = vxAnd(ok, !t)
				}
			}
		default:
			if len(k) == 0 || k[0] == '.' {
				panic("unknown field " + k)
			}
			if k[0] == '$' {
				otherOperator(k)
			}
			ops := queryMap(v)
			if ops == nil { // the value itself
				ops = map[string]interface{}{"$eq": v}
			}
			ok = mongoField(below(doc, strings.Split(k, ".")), ops)
		}
		if !ok {
			return false
		}
	}
	return true
}

// added is a document with a value set at a path.
func added(doc interface{}, path []string, v interface{}) interface{} {
	if len(path) == 0 {
		return v
	}
	out := map[string]interface{}{}
	var inner interface{}
	if m, ok := doc.(map[string]interface{}); ok {
		for k, x := range m {
			out[k] = x
		}
		inner = m[path[0]]
	}
	out[path[0]] = added(inner, path[1:], v)
	return out
}

// selected tells whether the query of a rule selects a document.
func selected(r MAPL_engine.MaplToMongoResult, doc interface{}) bool {
	if r.Type == MAPL_engine.QueryTypeSimple {
		return mongo(queryMap(r.Query), doc)
	}
	for _, s := range queryList(r.Query) {
		step := queryMap(s)
		if match, ok := step["$match"]; ok {
			if !mongo(queryMap(match), doc) {
				return false
			}
			continue
		}
		fields, ok := step["$addFields"]
		if !ok {
			fields, ok = step["$set"]
		}
		vxAssume(ok)
		for name, x := range queryMap(fields) {
			from, ok := queryMap(x)["$objectToArray"].(string)
			vxAssume(ok)
			values := below(doc, strings.Split(from[1:], "."))
			var entries interface{}
			if len(values) == 1 {
				list := []interface{}{}
				for k, v := range values[0].(map[string]interface{}) {
					list = append(list, map[string]interface{}{"k": k, "v": v})
				}
				entries = list
			}
			doc = added(doc, strings.Split(name, "."), entries)
		}
	}
	return true
}

// c16Check compares a query to the evaluation of the rule.
func c16Check(tree interface{}, text string, label string) {
	c16CheckAt("raw", tree, text, label)
}

func c16CheckAt(base string, tree interface{}, text string, label string) {
	m := docMessage(text, 1)
	r := parseRule(tree)
	q, err := r.ToMongoQuery(base)
	vxAssert(err == nil, "conditions within the limits are translated")
	vxAssume(err == nil)
	var doc interface{} = *m.RequestRawInterface
	switch base {
	case "raw":
		doc = map[string]interface{}{"id": "1", "raw": doc}
	case "a.b":
		doc = map[string]interface{}{"a": map[string]interface{}{"b": doc}, "b": "x"}
	}
	got := selected(q, doc)
	want, _ := r.TestConditions(m)
	vxObs("selected", got)
	vxObs("holds", want)
	vxAssert(vxIff(got, want), label)
	vxCover("end")
}

// c16Field is an attribute and the document with a value at it.
func c16Field(v string) (string, string) {
	field := `"x":` + v
	if v == "" {
		field = `"y":1`
	}
	switch vxChoose("path", 6) {
	case 0:
		return "jsonpath:$.x", `{` + field + `}`
	case 1:
		return "jsonpath:$.m.x", `{"x":"other","m":{` + field + `}}`
	case 2:
		return "jsonpath:$.m['x']", `{"m":{` + field + `}}`
	case 3:
		return "jsonpath:$.m[\"x\"]", `{"m":{` + field + `}}`
	case 4:
		return "jsonpath:$.l[1].x", `{"l":[{"x":"a"},{` + field + `}]}`
	}
	return "jsonpath:$.l[0]['m'].x", `{"l":[{"m":{` + field + `}},{"m":{"x":"a"}}]}`
}

// fields that hold the document
func Check_C16_base() {
	c, _ := tf("c")
	leaf := cond("jsonpath:$.x", vxPick("method", "EQ", "NEQ", "NEX"), "t")
	all := vxChoose("all", 2) == 1
	inner, _ := quantify(all, "jsonpath:$RELATIVE.l[:]", cond("jsonpath:$RELATIVE.x", "EQ", "t"), nil)
	tree, _ := quantify(all, "jsonpath:$.l"+vxPick("suffix", "[:]", "[*]", ""), inner, nil)
	entries, _ := quantify(false, "jsonpath:$.m", cond("jsonpath:$VALUE", "EQ", "t"), nil)
	text := `{"x":"` + c + `","l":[{"l":[{"x":"` + c + `"}]}],"m":{"k":"` + c + `"}}`
	switch vxChoose("tree", 4) {
	case 0:
		tree = leaf
	case 1:
		tree = entries
	case 2:
		tree = obj{"AND": arr{leaf, obj{"NOT": tree}, entries}}
	}
	c16CheckAt(vxPick("base", "raw", "", "a.b"), tree, text, "a query selects what conditions accept under any field")
}

// every method under every field
func Check_C16_methods() {
	v := vxPick("v", "", `"t"`, `"u"`, "5", "true")
	inArray := vxChoose("array", 3)
	attr := "jsonpath:$.x"
	if inArray > 0 {
		attr = "jsonpath:$RELATIVE.x"
	}
	method := vxPick("method", "EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "EX", "NEX", "IS", "GT", "GE", "LT", "LE", "eq", "neq", "re", "nre", "in", "nin", "ex", "nex", "gt", "ge", "lt", "le")
	value := vxPick("value", "t", "5")
	switch strings.ToUpper(method) {
	case "GT", "GE", "LT", "LE":
		vxAssume(value == "5")
	case "RE", "NRE", "IN", "NIN", "IS":
		vxAssume(v == "" || v[0] == '"')
	}
	var tree interface{} = cond(attr, method, value)
	if vxChoose("not", 2) == 1 {
		tree = obj{"NOT": tree}
	}
	text := `{"y":1`
	if v != "" {
		text += `,"x":` + v
	}
	text += `}`
	if inArray > 0 {
		tree, _ = quantify(inArray == 2, "jsonpath:$.l[:]", tree, nil)
		text = `{"l":[` + text + vxPick("more", "", `,{"x":"t"}`) + `]}`
	}
	c16CheckAt(vxPick("base", "raw", "", "a.b"), tree, text, "a query selects what a condition accepts under any field")
}

// texts
func Check_C16_text() {
	v := ""
	if vxChoose("present", 4) > 0 {
		v = `"` + vxStr("v", 1, 2, "ab.") + `"`
	}
	attr, text := c16Field(v)
	method := vxPick("method", "EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "EX", "NEX", "IS", "eq", "neq", "re", "nre", "in", "nin", "ex", "nex")
	value := vxStr("value", 1, 2, "ab")
	if strings.ToUpper(method) == "IN" || strings.ToUpper(method) == "NIN" {
		value += "," + vxStr("value2", 1, 1, "ab")
	}
	c16Check(cond(attr, method, value), text, "a query selects what a condition accepts")
}

// numbers
func Check_C16_number() {
	v := ""
	switch vxChoose("v", 3) {
	case 0:
		v = vxStr("n", 1, 2, "0123456789")
		vxAssume(len(v) == 1 || v[0] != '0')
	case 1:
		v = vxPick("f", "-1", "0.5", "12.25", "1000000", "1e3")
	}
	attr, text := c16Field(v)
	method := vxPick("method", "EQ", "NEQ", "GT", "GE", "LT", "LE", "EX", "NEX", "gt", "ge", "lt", "le", "ne")
	value := vxPick("value", "1", "10", "0.5", "-1", "1000", "1e3", "5")
	c16Check(cond(attr, method, value), text, "a query selects what a condition accepts")
}

// booleans
func Check_C16_bool() {
	v := vxPick("v", "true", "false", `"true"`, `"x"`, "1", "")
	attr, text := c16Field(v)
	c16Check(cond(attr, vxPick("method", "EQ", "NEQ", "EX", "NEX"), vxPick("value", "true", "false", "x")), text, "a query selects what a condition accepts")
}

// trees
func Check_C16_tree() {
	names := []string{"x", "y", "z"}
	var leaves [3]interface{}
	text := `{"w":"w"`
	for i, n := range names {
		c, _ := tf(n)
		if i == 0 || vxBool(n+".present") {
			text += `,"` + n + `":"` + c + `"`
		}
		leaves[i] = cond("jsonpath:$."+n, vxPick("method", "EQ", "NEQ"), "t")
		if i > 0 {
			leaves[i] = cond("jsonpath:$."+n, "EQ", "t")
		}
	}
	text += `}`
	var tree interface{}
	op, op2 := vxPick("op", "AND", "OR"), vxPick("op2", "AND", "OR")
	switch vxChoose("shape", 6) {
	case 0:
		tree = obj{op: arr{leaves[0], leaves[1], leaves[2]}}
	case 1:
		tree = obj{op: arr{leaves[0], obj{op2: arr{leaves[1], leaves[2]}}}}
	case 2:
		tree = obj{"NOT": obj{op: arr{leaves[0], obj{"NOT": leaves[1]}}}}
	case 3:
		tree = obj{op: arr{obj{"NOT": obj{op2: arr{leaves[0], leaves[1]}}}, leaves[2]}}
	case 4:
		tree = obj{"NOT": obj{"NOT": leaves[0]}}
	default:
		tree = obj{op: arr{leaves[0]}}
	}
	c16Check(tree, text, "a query selects what a tree accepts")
}

// c16Parent is an array of objects and a parent.
func c16Parent(elements string) (string, string) {
	suffix := vxPick("suffix", "[:]", "[*]", "")
	switch vxChoose("parent", 6) {
	case 4:
		c, _ := tf("k")
		return "jsonpath:$.k" + suffix + ",$.l" + suffix, `{"x":"t","l":` + elements + `,"k":[{"x":"` + c + `"}]}`
	case 5:
		return "jsonpath:$.m.l" + suffix + ",$.k" + suffix, `{"m":{"l":` + elements + `}}`
	case 0:
		return "jsonpath:$.l" + suffix, `{"x":"t","l":` + elements + `}`
	case 1:
		return "jsonpath:$.m.l" + suffix, `{"x":"t","m":{"l":` + elements + `}}`
	case 2:
		return `jsonpath:$.m["l"]` + suffix, `{"x":"t","m":{"l":` + elements + `}}`
	}
	return "jsonpath:$.k[0].l" + suffix, `{"x":"t","k":[{"l":` + elements + `},{"l":[{"x":"t"},{"x":"f"}]}]}`
}

// arrays of objects
func Check_C16_array() {
	texts, _ := elements("e", 2)
	parent, text := c16Parent(`[` + join(texts) + `]`)
	inner := cond("jsonpath:$RELATIVE.x", vxPick("method", "EQ", "NEQ", "NEX"), "t")
	switch vxChoose("inner", 4) {
	case 0:
		inner = obj{"NOT": inner}
	case 1:
		inner = obj{"AND": arr{inner, cond("jsonpath:$RELATIVE.y", "EQ", "t")}}
	case 2:
		inner = obj{"OR": arr{inner, obj{"NOT": cond("jsonpath:$RELATIVE.y.x", "EQ", "t")}}}
	}
	tree, _ := quantify(vxChoose("all", 2) == 1, parent, inner, nil)
	c16Check(tree, text, "a query selects what ANY and ALL accept")
}

// absent arrays
func Check_C16_nothing() {
	parent := vxPick("parent", "jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:$.l[*]", "jsonpath:$.m.l[:]")
	text := vxPick("doc", `{"s":"t"}`, `{"l":[]}`, `{"m":{}}`, `{"m":{"l":[]}}`)
	tree, _ := quantify(vxChoose("all", 2) == 1, parent, cond("jsonpath:$RELATIVE.x", vxPick("method", "EQ", "NEX", "EX", "NEQ"), "t"), nil)
	if vxBool("not") {
		tree = obj{"NOT": tree}
	}
	c16Check(tree, text, "a query selects what ANY and ALL of nothing accept")
}

// ANY and ALL within each other and within trees
func Check_C16_nested() {
	n := vxChoose("n", 3)
	var texts []string
	for i := 0; i < n; i++ {
		max := 1
		if i == 1 || vxTier() == 1 {
			max = 2
		}
		inner, _ := elements("e", max)
		if i == 0 || vxBool("present") {
			texts = append(texts, `{"x":"t","m":[`+join(inner)+`]}`)
		} else {
			texts = append(texts, `{"x":"f"}`)
		}
	}
	s, _ := tf("s")
	text := `{"s":"` + s + `","l":[` + join(texts) + `]}`
	tree, _ := quantify(vxChoose("all2", 2) == 1, "jsonpath:$RELATIVE.m"+vxPick("suffix", "[:]", "[*]", ""), cond("jsonpath:$RELATIVE.x", "EQ", "t"), nil)
	switch vxChoose("mid", 3) {
	case 0:
		tree = obj{"NOT": tree}
	case 1:
		tree = obj{"AND": arr{cond("jsonpath:$RELATIVE.x", "EQ", "t"), tree}}
	}
	tree, _ = quantify(vxChoose("all", 2) == 1, "jsonpath:$.l[:]", tree, nil)
	if vxBool("or") {
		tree = obj{"OR": arr{tree, obj{"NOT": cond("jsonpath:$.s", "EQ", "t")}}}
	}
	c16Check(tree, text, "a query selects what nested ANY and ALL accept")
}

// entries of objects
func Check_C16_entries() {
	n := vxChoose("n", 3)
	var texts []string
	what := vxPick("what", "$KEY", "$VALUE", "$VALUE.x", "$VALUE['x']")
	for i := 0; i < n; i++ {
		c, _ := tf("e")
		k := string(rune('a' + i))
		switch what {
		case "$KEY":
			texts = append(texts, `"`+c+k+`":"x"`)
		case "$VALUE":
			texts = append(texts, `"`+k+`":"`+c+`"`)
		default:
			texts = append(texts, `"`+k+`":{"x":"`+c+`"}`)
		}
	}
	value := "t"
	if what == "$KEY" {
		value = "ta"
	}
	text := `{"s":"t","m":{` + join(texts) + `}}`
	if n == 0 && vxBool("absent") {
		text = `{"s":"t"}`
	}
	inner := cond("jsonpath:"+what, vxPick("method", "EQ", "NEQ", "RE", "NRE"), value)
	switch vxChoose("inner", 4) {
	case 0:
		inner = obj{"NOT": inner}
	case 1:
		inner = obj{"AND": arr{inner, cond("jsonpath:$KEY", vxPick("method2", "EQ", "NEQ"), "b")}}
	case 2:
		inner = obj{"OR": arr{obj{"NOT": inner}, cond("jsonpath:$KEY", "EQ", "b")}}
	}
	tree, _ := quantify(false, "jsonpath:$.m", inner, nil)
	switch vxChoose("shape", 4) {
	case 0:
		tree = obj{"NOT": tree}
	case 3: // of different objects
		k, _ := tf("k")
		text = strings.TrimSuffix(text, "}") + `,"k":{"a":"x","b":"` + k + `"}}`
		other, _ := quantify(false, "jsonpath:$.k", cond("jsonpath:$VALUE", "EQ", "t"), nil)
		items := arr{tree, other}
		if vxBool("first") {
			items = arr{other, tree}
		}
		tree = obj{vxPick("op", "AND", "OR"): items}
	case 1:
		other, _ := quantify(false, "jsonpath:$.m", cond("jsonpath:$KEY", "EQ", "b"), nil)
		tree = obj{vxPick("op", "AND", "OR"): arr{tree, cond("jsonpath:$.s", "EQ", "t"), other}}
	}
	c16Check(tree, text, "a query selects what ANY over entries accepts")
}

// what cannot be translated
func Check_C16_unsupported() {
	rel := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	any := func(parent string, inner interface{}) interface{} {
		t, _ := quantify(vxChoose("all", 2) == 1, parent, inner, nil)
		return t
	}
	var tree interface{}
	switch vxChoose("what", 12) {
	case 0:
		tree = cond(vxPick("attr", "domain", "payloadSize", "$sender.namespace", "senderLabel[k]"), "EQ", "1")
	case 1:
		tree = any("jsonpath:$..l[:]", rel)
	case 2:
		tree = cond(vxPick("attr", "jsonpath:$..x", "jsonpath:$.m..x"), "EQ", "t")
	case 3:
		tree = any("jsonpath:$.l[:]", any("jsonpath:$RELATIVE.m", cond(vxPick("attr", "jsonpath:$KEY", "jsonpath:$VALUE", "jsonpath:$VALUE.x"), "EQ", "t")))
	case 4:
		tree, _ = quantify(true, "jsonpath:$.m", cond(vxPick("attr", "jsonpath:$KEY", "jsonpath:$VALUE"), "EQ", "t"), nil)
	case 5:
		tree = any("jsonpath:$.l[:]", cond("jsonpath:$.x", "EQ", "t"))
	case 6:
		tree = any("jsonpath:$.l[:]", any("jsonpath:$.m[:]", rel))
	case 7:
		tree, _ = quantify(false, "jsonpath:$.l,$.m", cond(vxPick("attr", "jsonpath:$KEY", "jsonpath:$VALUE"), "EQ", "t"), nil)
	case 8:
		tree = any(vxPick("parent", "jsonpath:$RELATIVE.l[:]", "jsonpath:$.m..l[:]", "jsonpath:$.m[:],$RELATIVE.l[:]"), rel)
	case 9:
		tree = cond(vxPick("attr", "jsonpath:$RELATIVE.x", "jsonpath:$KEY", "jsonpath:$VALUE.x", "jsonpath:$['x']", "jsonpath:$[0].x"), "EQ", "t")
	case 10:
		tree = any("jsonpath:$.l[:]", cond(vxPick("attr", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE['x']"), "EQ", "t"))
	default:
		tree = cond(vxPick("attr", "true", "false"), "EQ", "t")
	}
	if vxBool("nested") {
		tree = obj{vxPick("op", "AND", "OR"): arr{cond("jsonpath:$.s", "EQ", "t"), obj{"NOT": tree}}}
	}
	node, err := MAPL_engine.ParseConditionsTree(tree)
	vxAssume(err == nil)
	r := parseRule(cond("true", "EQ", ""))
	r.Conditions.ConditionsTree = node
	_, err = r.ToMongoQuery("raw")
	vxAssert(err != nil, "what cannot be translated is reported")
	vxCover("end")
}
