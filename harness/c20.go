package main

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// field, fields and plain are a text to be written as YAML or JSON; strings are
// quoted, plain text is not.
type field struct {
	k string
	v interface{}
}
type fields []field
type plain string

func jsonText(v interface{}) string {
	switch v := v.(type) {
	case fields:
		var items []string
		for _, f := range v {
			items = append(items, quoted(f.k)+":"+jsonText(f.v))
		}
		return "{" + join(items) + "}"
	case arr:
		var items []string
		for _, x := range v {
			items = append(items, jsonText(x))
		}
		return "[" + join(items) + "]"
	case plain:
		return string(v)
	}
	return quoted(v.(string))
}

// yamlText is v in block style, beginning on a new line unless it is a scalar.
func yamlText(v interface{}, indent string) string {
	switch v := v.(type) {
	case fields:
		if len(v) == 0 {
			return " {}\n"
		}
		s := "\n"
		for _, f := range v {
			s += indent + f.k + ":" + yamlText(f.v, indent+"  ")
		}
		return s
	case arr:
		if len(v) == 0 {
			return " []\n"
		}
		s := "\n"
		for _, x := range v {
			s += indent + "-" + yamlText(x, indent+"  ")
		}
		return s
	case plain:
		return " " + string(v) + "\n"
	}
	return " " + quoted(v.(string)) + "\n"
}

// asFields writes a decoded tree with its fields in a fixed order.
func asFields(v interface{}) interface{} {
	switch v := v.(type) {
	case obj:
		out := fields{}
		for _, k := range []string{"parentJsonpathAttribute", "returnValueJsonpath", "attribute", "Attribute", "method", "Method", "value", "Value", "condition", "conditions", "conditionsTree", "AND", "OR", "NOT", "ANY", "ALL", "r"} {
			if x, ok := v[k]; ok {
				out = append(out, field{k, asFields(x)})
			}
		}
		vxAssert(len(out) == len(v), "every key is known")
		return out
	case arr:
		out := arr{}
		for _, x := range v {
			out = append(out, asFields(x))
		}
		return out
	}
	return v
}

func rulesText(rules ...interface{}) fields {
	return fields{{"rules", arr(rules)}}
}

// c20Read reads rules in one of the ways.
func c20Read(way int, text fields) (MAPL_engine.Rules, error) {
	switch way {
	case 0:
		return MAPL_engine.YamlReadRulesFromString(yamlText(text, ""))
	case 1: // in flow style
		return MAPL_engine.YamlReadRulesFromString(jsonText(text))
	case 2:
		return MAPL_engine.YamlReadRulesFromStringWithPredefinedStrings(yamlText(text, ""), MAPL_engine.PredefinedStringsAndLists{})
	}
	rules := MAPL_engine.Rules{}
	err := json.Unmarshal([]byte(jsonText(text)), &rules)
	return rules, err
}

const c20Ways = 4

var c20Fields = []string{"ruleID", "senderName", "senderType", "receiverName", "receiverType", "protocol", "resourceType", "resourceName", "operation", "decision", "description", "hash"}

// c20Rule is a rule with the given texts; those which are absent are left out.
func c20Rule(text []string, present []bool) fields {
	out := fields{}
	part := func(name string, to ...int) {
		in := fields{}
		for _, i := range to {
			if present[i] {
				in = append(in, field{c20Fields[i], text[i]})
			}
		}
		if len(in) > 0 {
			out = append(out, field{name, in})
		}
	}
	one := func(i int) {
		if present[i] {
			out = append(out, field{c20Fields[i], text[i]})
		}
	}
	one(0)
	part("sender", 1, 2)
	part("receiver", 3, 4)
	one(5)
	part("resource", 6, 7)
	one(8)
	one(9)
	part("metadata", 10)
	one(11)
	return out
}

func c20Has(r *MAPL_engine.Rule, i int) string {
	switch i {
	case 0:
		return r.RuleID
	case 1:
		return r.Sender.SenderName
	case 2:
		return r.Sender.SenderType
	case 3:
		return r.Receiver.ReceiverName
	case 4:
		return r.Receiver.ReceiverType
	case 5:
		return r.Protocol
	case 6:
		return r.Resource.ResourceType
	case 7:
		return r.Resource.ResourceName
	case 8:
		return r.Operation
	case 9:
		return r.Decision
	case 10:
		return r.Metadata["description"]
	}
	return r.Hash
}

// every field holds what the text says
func Check_C20_fields() {
	n := len(c20Fields)
	text, present := make([]string, n), make([]bool, n)
	i := vxChoose("field", n)
	j := i
	if vxTier() == 1 {
		j = vxChoose("other", n)
	}
	all := vxChoose("all", 2) == 1
	for k := range text {
		text[k], present[k] = "t"+strconv.Itoa(k), all
	}
	text[j], present[j] = vxStr("y", 1, 1, "ab"), true
	text[i], present[i] = vxStr("x", 0, 3, "aB*,.#/ :-"), true
	way := vxChoose("way", c20Ways)
	if way == 2 { // names are looked up
		vxAssume(!vxContains(text[i], "#") && text[2] != "subnet" && text[4] != "subnet")
	}
	rules, err := c20Read(way, rulesText(c20Rule(text, present)))
	vxAssert(err == nil, "a rule is read")
	vxAssume(err == nil)
	vxAssert(len(rules.Rules) == 1, "one rule is read")
	for k := range text {
		want := text[k]
		if !present[k] {
			want = ""
		}
		vxAssert(c20Has(&rules.Rules[0], k) == want, "every field holds what the text says")
	}
	vxAssert(rules.Rules[0].Conditions.ConditionsTree == nil, "a rule without conditions has none")
	vxCover("end")
}

// the rules come in the order of the text
func Check_C20_order() {
	n := vxChoose("n", 4)
	ids := make([]string, n)
	items := make(arr, n)
	for i := range ids {
		ids[i] = vxStr("id", 1, 1, "abc")
		items[i] = fields{{"ruleID", ids[i]}, {"decision", "allow"}}
		if vxChoose("conditions", 2) == 1 {
			items[i] = append(items[i].(fields), field{"conditions", asFields(cond("domain", "EQ", ids[i]))})
		}
	}
	rules, err := c20Read(vxChoose("way", c20Ways), rulesText(items...))
	vxAssert(err == nil, "rules are read")
	vxAssume(err == nil)
	vxAssert(len(rules.Rules) == n, "every rule is read")
	for i := range ids {
		vxAssert(rules.Rules[i].RuleID == ids[i], "rules keep their order")
		node := rules.Rules[i].Conditions.ConditionsTree
		if node != nil {
			vxAssert(node.String() == "<domain-EQ-"+ids[i]+">", "every rule has its own conditions")
		}
		vxAssert((node != nil) == (len(items[i].(fields)) == 3), "a rule has conditions if it is written with conditions")
	}
	vxCover("end")
}

// the conditions of a rule, read in any way
func c20Conditions(way int, tree interface{}) (*MAPL_engine.Rule, error) {
	rule := fields{{"ruleID", "r"},
		{"sender", fields{{"senderName", "*"}, {"senderType", "*"}}}, {"receiver", fields{{"receiverName", "*"}, {"receiverType", "*"}}},
		{"protocol", "*"}, {"operation", "*"}, {"conditions", tree}, {"decision", "allow"}}
	rules, err := c20Read(way, rulesText(rule))
	if err != nil {
		vxAssert(len(rules.Rules) == 0 || way == 3, "an error gives no rules")
		return nil, err
	}
	vxAssert(len(rules.Rules) == 1, "one rule is read")
	return &rules.Rules[0], nil
}

func c20Check(tree interface{}, m *MAPL_engine.MessageAttributes) {
	want := parseRule(tree)
	r, err := c20Conditions(vxChoose("way", c20Ways), asFields(tree))
	vxAssert(err == nil, "well formed conditions are read")
	vxAssume(err == nil)
	vxAssert(r.Conditions.ConditionsTree.String() == want.Conditions.ConditionsTree.String(), "the text of the conditions is the same however they are read")
	vxAssert(MAPL_engine.RuleMD5Hash(*r) == MAPL_engine.RuleMD5Hash(*want), "the hash is the same however the rule is read")
	a, _ := r.Check(m)
	b, _ := want.Check(m)
	vxObs("a", a)
	vxAssert(a == b, "the decision is the same however the rule is read")
	vxCover("end")
	if a == MAPL_engine.ALLOW {
		vxCover("applies")
	}
}

// trees of AND, OR and NOT
func Check_C20_trees() {
	g := &c05{labels: map[string]string{}}
	tree, _ := g.tree(2, 2, 1)
	c20Check(tree, &MAPL_engine.MessageAttributes{SourceLabels: g.labels})
}

// keywords and lists
func Check_C20_spelling() {
	g := &c05{labels: map[string]string{}}
	a, _ := g.leaf()
	b, _ := g.leaf()
	var tree interface{}
	switch vxChoose("shape", 4) {
	case 0:
		tree = wrap(a, true)
	case 1:
		tree = wrap(obj{"AND": arr{wrap(a, true), b}}, false)
	case 2:
		tree = wrap(obj{"OR": arr{b, a}}, false)
	case 3:
		tree = wrap(obj{"NOT": wrap(a, true)}, false)
	}
	if _, err := MAPL_engine.ParseConditionsTree(tree); err != nil {
		_, err := c20Conditions(vxChoose("way", c20Ways), asFields(tree))
		vxAssert(err != nil, "conditions which are rejected are rejected however they are read")
		return
	}
	c20Check(tree, &MAPL_engine.MessageAttributes{SourceLabels: g.labels})
}

// conditions with and without a value and return values, keys with a capital letter
func Check_C20_forms() {
	key := func(name string) string {
		if vxChoose("capital", 2) == 1 {
			return strings.ToUpper(name[:1]) + name[1:]
		}
		return name
	}
	method := vxPick("method", "EX", "NEX", "EQ")
	c := obj{key("attribute"): "jsonpath:$.a", key("method"): method}
	value := ""
	if method == "EQ" || vxChoose("value", 2) == 1 {
		value = vxStr("v", 0, 1, "ab")
		c[key("value")] = value
	}
	returns := vxChoose("returns", 2) == 1
	if returns {
		c["returnValueJsonpath"] = obj{"r": "jsonpath:$.b"}
	}
	r, err := c20Conditions(vxChoose("way", c20Ways), asFields(c))
	vxAssert(err == nil, "every form of a condition is read")
	vxAssume(err == nil)
	vxAssert(r.Conditions.ConditionsTree.String() == "<jsonpath:$.a-"+method+"-"+value+">", "a condition has its text")
	got, data := r.TestConditions(docMessage(`{"a":"`+vxStr("a", 1, 1, "ab")+`","b":"x"}`, vxChoose("form", 2)))
	vxAssert((len(data) > 0) == vxAnd(got, returns), "a true condition with return paths gives data")
	if method != "EQ" {
		vxAssert(got == (method == "EX"), "a condition is decided by its method")
	}
	vxCover("end")
}

// ANY and ALL with return values
func Check_C20_elements() {
	texts, _ := elements("e", 2)
	inner := cond("jsonpath:$RELATIVE.x", vxPick("method", "EQ", "NEX", "RE"), "t")
	node, _ := quantify(vxChoose("all", 2) == 1, vxPick("parent", "jsonpath:$.l[:]", "jsonpath:$.l,$.m"), inner, nil)
	var tree interface{} = node
	switch vxChoose("returns", 3) {
	case 1:
		for _, v := range node {
			v.(obj)["returnValueJsonpath"] = obj{"r": "jsonpath:$RELATIVE.x"}
		}
	case 2:
		tree = obj{"AND": arr{node, cond("jsonpath:$.s", "EQ", "t")}}
	}
	doc := `{"s":"t","l":[` + join(texts) + `]}`
	want := parseRule(tree)
	r, err := c20Conditions(vxChoose("way", c20Ways), asFields(tree))
	vxAssert(err == nil, "well formed conditions are read")
	vxAssume(err == nil)
	a, ea := r.TestConditions(docMessage(doc, 0))
	b, eb := want.TestConditions(docMessage(doc, 0))
	vxObs("a", a)
	vxAssert(a == b, "the result is the same however the rule is read")
	vxAssert(sameData(ea, eb), "the data is the same however the rule is read")
	vxCover("end")
}

// values written without quotes mean their text
func Check_C20_plain() {
	var text, value string
	switch vxChoose("kind", 3) {
	case 0: // an integer
		text = vxPick("sign", "", "-") + vxPick("n", "1", "7", "42", "100", "99999") + strings.Repeat("0", 3*vxChoose("thousands", 4))
		value = text
	case 1:
		text = vxPick("fraction", "1.5", "0.25", "-12.125", "0.001", "0.00001", "1234567.5", "1.50")
		value = text
		if text == "1.50" {
			value = "1.5"
		}
	case 2:
		text = vxPick("word", "true", "false", "0")
		value = text
	}
	attr := vxPick("attr", "senderLabel[k]", "payloadSize", "jsonpath:$.s")
	method := vxPick("method", "EQ", "RE", "GT", "IN")
	tree := fields{{"attribute", attr}, {"method", method}, {"value", plain(text)}}
	want, err := MAPL_engine.ParseConditionsTree(cond(attr, method, value))
	r, err2 := c20Conditions(vxChoose("way", c20Ways), tree)
	vxAssert(vxIff(err == nil, err2 == nil), "a value without quotes is accepted if its text is")
	if err == nil && err2 == nil {
		got := r.Conditions.ConditionsTree.String()
		vxObs("got", got)
		vxAssert(got == want.String(), "a value without quotes means its text")
	}
	vxCover("end")
}

// a malformed condition in any rule
func Check_C20_malformed() {
	n := 1 + vxChoose("n", 3)
	at := vxChoose("at", n)
	var bad interface{}
	switch vxChoose("bad", 6) {
	case 0:
		bad = asFields(cond("domain", vxStr("method", 1, 2, "EQX"), "a"))
		vxAssume(vxAnd(bad.(fields)[1].v.(string) != "EQ", bad.(fields)[1].v.(string) != "EX"))
	case 1:
		bad = asFields(cond("domain"+vxStr("more", 1, 1, "sX "), "EQ", "a"))
	case 2:
		bad = asFields(cond("payloadSize", "GT", vxStr("value", 1, 1, "abx")))
	case 3:
		bad = asFields(cond("domain", "RE", "("))
	case 4:
		bad = fields{{"XOR", arr{asFields(cond("domain", "EQ", "a"))}}}
	case 5:
		bad = vxPick("text", "a", "true")
	}
	items := make(arr, n)
	for i := range items {
		c := interface{}(asFields(cond("domain", "EQ", "a")))
		if i == at {
			c = bad
		}
		items[i] = fields{{"ruleID", "r"}, {"conditions", c}}
	}
	way := vxChoose("way", c20Ways)
	rules, err := c20Read(way, rulesText(items...))
	vxAssert(err != nil, "a malformed condition in any rule is an error")
	vxAssert(len(rules.Rules) == 0 || way == 3, "an error gives no rules")
	vxCover("end")
}

// reading with definitions is reading and then setting the definitions
func Check_C20_definitions() {
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": vxStr("content", 1, 1, "ab")}, PredefinedLists: map[string][]string{"l": {"a", "#s"}}})
	vxAssert(err == nil, "definitions are accepted")
	items := arr{}
	known := true
	n := 1 + vxChoose("n", 2)
	for i := 0; i < n; i++ {
		ref := "#" + vxStr("name", 1, 1, "slx")
		known = vxAnd(known, ref != "#x")
		sender, value := "*", ref
		if vxChoose("place", 2) == 1 {
			sender, value = ref, "*"
		}
		items = append(items, fields{{"sender", fields{{"senderName", sender}, {"senderType", "*"}}}, {"receiver", fields{{"receiverName", "*"}, {"receiverType", "*"}}},
			{"protocol", "*"}, {"operation", "*"}, {"conditions", asFields(cond("domain", "EQ", value))}, {"decision", "allow"}})
	}
	text := yamlText(rulesText(items...), "")
	rules, err := MAPL_engine.YamlReadRulesFromStringWithPredefinedStrings(text, d)
	vxAssert(vxIff(err == nil, known), "reading fails exactly when a reference is undefined")
	if err != nil {
		vxAssert(len(rules.Rules) == 0, "an error gives no rules")
		return
	}
	other, err := MAPL_engine.YamlReadRulesFromString(text)
	vxAssert(err == nil && len(other.Rules) == n && len(rules.Rules) == n, "every rule is read")
	m := &MAPL_engine.MessageAttributes{SourceService: vxStr("who", 1, 1, "ab"), Domain: "a"}
	for i := range rules.Rules {
		vxAssert(other.Rules[i].SetPredefinedStringsAndLists(d) == nil, "definitions are accepted")
		a, _ := rules.Rules[i].Check(m)
		b, _ := other.Rules[i].Check(m)
		vxObs("a", a)
		vxAssert(a == b, "reading with definitions is the same as setting them")
	}
	vxCover("end")
}

// empty conditions are no conditions
func Check_C20_empty() {
	r, err := c20Conditions(vxChoose("way", c20Ways), plain(vxPick("text", "{}", "[]", "null", "{ }", "[ ]")))
	vxAssert(err == nil, "empty conditions are read")
	vxAssume(err == nil)
	vxAssert(r.Conditions.ConditionsTree == nil, "empty conditions are no conditions")
	got, _ := r.Check(&MAPL_engine.MessageAttributes{})
	vxObs("got", got)
	vxAssert(got == MAPL_engine.ALLOW, "a rule with empty conditions applies")
	vxCover("end")
}

// the parts of a condition are exactly those written
func Check_C20_condition() {
	key, value := vxStr("key", 1, 2, "aB. "), vxStr("value", 0, 3, "aB ,#:")
	method := vxPick("method", "EQ", "neq", "IN", "NEX")
	vxAssume(method != "IN" || value != "")
	way := vxChoose("way", c20Ways)
	vxAssume(way != 2 || value == "" || value[0] != '#')
	r, err := c20Conditions(way, asFields(cond("senderLabel["+key+"]", method, value)))
	vxAssert(err == nil, "a condition is read")
	vxAssume(err == nil)
	got := r.Conditions.ConditionsTree.String()
	vxObs("got", got)
	vxAssert(got == "<senderLabel["+key+"]-"+method+"-"+value+">", "the parts of a condition are those written")
	vxCover("end")
}
