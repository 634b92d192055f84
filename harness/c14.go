package main

import (
	"encoding/json"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

const c14Odd = "a\"\\\n\x01<%"

// c14Round writes conditions and reads them back.
func c14Round(node MAPL_engine.Node, form int) MAPL_engine.Node {
	in := MAPL_engine.ConditionsTree{ConditionsTree: node}
	out := MAPL_engine.ConditionsTree{}
	var err error
	switch form {
	case 0: // the node itself
		var b []byte
		b, err = json.Marshal(node)
		vxAssert(err == nil, "conditions can be written")
		vxAssume(err == nil)
		err = json.Unmarshal(b, &out)
	case 1: // within a rule
		var b []byte
		b, err = json.Marshal(MAPL_engine.Rule{RuleID: "r", Conditions: in, Decision: "allow"})
		vxAssert(err == nil, "conditions can be written")
		vxAssume(err == nil)
		r := MAPL_engine.Rule{}
		err = json.Unmarshal(b, &r)
		out = r.Conditions
	default:
		var b []byte
		b, err = in.MarshalBSON()
		vxAssert(err == nil, "conditions can be written")
		vxAssume(err == nil)
		err = out.UnmarshalBSON(b)
	}
	vxAssert(err == nil, "written conditions can be read")
	vxAssume(err == nil)
	return out.ConditionsTree
}

func sameData(a, b interface{}) bool {
	x, err := json.Marshal(a)
	y, err2 := json.Marshal(b)
	return err == nil && err2 == nil && string(x) == string(y)
}

// c14Check compares conditions before and after a round trip on messages.
func c14Check(tree interface{}, messages ...*MAPL_engine.MessageAttributes) {
	r := parseRule(tree)
	node := r.Conditions.ConditionsTree
	text := node.String()
	vxObs("text", text)
	way := vxChoose("way", 5) // how it is written and whether the rule was used before
	form, used := []int{0, 1, 2, 0, 2}[way], []int{0, 1, 1, 2, 2}[way]
	switch used {
	case 1: // prepared before
		vxAssume(r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{}) == nil)
	case 2: // the prepared conditions themselves
		vxAssume(r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{}) == nil)
		node = r.GetPreparedRule().Conditions.ConditionsTree
	}
	back := c14Round(node, form)
	vxAssert(back != nil && back.String() == text, "conditions have the same text after a round trip")
	vxAssume(back != nil)
	r2 := parseRule(tree)
	r2.Conditions.ConditionsTree = back
	for _, m := range messages {
		got, data := r.TestConditions(m)
		got2, data2 := r2.TestConditions(m)
		vxObs("got", got)
		vxAssert(vxIff(got, got2), "conditions evaluate the same after a round trip")
		vxAssert(sameData(data, data2), "conditions return the same values after a round trip")
	}
	vxCover("end")
}

func withReturns(node obj, key string, paths obj) obj {
	for _, v := range node {
		if body, ok := v.(obj); ok {
			body[key] = paths
		}
	}
	return node
}

// any text in a condition
func Check_C14_strings() {
	max := 2
	if vxTier() == 1 {
		max = 3
	}
	s := vxStr("text", 0, max, c14Odd)
	m := &MAPL_engine.MessageAttributes{SourceLabels: map[string]string{"k": vxStr("val", 0, 1, c14Odd), s: "a"}}
	var c obj
	switch vxChoose("where", 3) {
	case 0:
		c = cond("senderLabel[k]", vxPick("method", "EQ", "neq", "EX"), s)
	case 1:
		c = cond("senderLabel["+s+"]", "EQ", "a")
	default:
		c = cond("jsonpath:$."+"a"+s, "EQ", "a")
		m = docMessage(`{"a":"a"}`, 0)
	}
	c14Check(c, m)
}

// text outside of ASCII and characters which encoders escape
func Check_C14_unicode() {
	s := vxPick("before", "", "a") + vxPick("char", "é", " ", "\u2028", "\U0001F600", "\x7f", "&", ">", "\x00", "\t", "/", "\\u0041", "%v", "%!s") + vxPick("after", "", "\"")
	m := &MAPL_engine.MessageAttributes{SourceLabels: map[string]string{"k": s}}
	c := cond("senderLabel[k]", vxPick("method", "EQ", "RE"), s)
	if _, err := MAPL_engine.ParseConditionsTree(c); err != nil {
		return // not a regular expression
	}
	c14Check(c, m, docMessage("{}", 0))
}

// any tree
func Check_C14_trees() {
	g := &c05{labels: map[string]string{}}
	depth := 2
	if vxTier() == 1 {
		depth = 3
	}
	tree, _ := g.tree(depth, 2, 0)
	vxObs("labels", len(g.labels))
	c14Check(tree, &MAPL_engine.MessageAttributes{SourceLabels: g.labels})
}

// every method
func Check_C14_methods() {
	method := vxPick("method", "EQ", "NEQ", "NE", "GE", "GT", "LE", "LT", "RE", "NRE", "IN", "NIN", "EX", "NEX", "IS", "eq", "neq", "ne", "ge", "gt", "le", "lt", "re", "nre", "in", "nin", "ex", "nex")
	attr := vxPick("attr", "payloadSize", "domain", "$sender.namespace", "$receiver.cluster", "senderLabel[k]", "receiverLabel[k]", "jsonpath:$.s", "jsonpath:.s")
	value := vxPick("value", "1", "1.5", "1Ki", "a,b", "[1,2]", "*", "receiverLabel[k]", "$receiver.cluster", "")
	_, err := MAPL_engine.ParseConditionsTree(cond(attr, method, value))
	vxAssume(err == nil)
	m := docMessage(`{"s":"1"}`, 0)
	switch attr { // the value compared may be any
	case "payloadSize":
		m.RequestSize = vxInt("size", 0, 2000)
	case "domain":
		m.Domain = vxStr("domain", 0, 1, "1ab")
	case "jsonpath:$.s":
		m = docMessage(`{"s":"`+vxStr("s", 0, 1, "1ab")+`"}`, 0)
	}
	m.SourceNamespace, m.DestinationCluster = "1", "a"
	m.SourceLabels, m.DestinationLabels = map[string]string{"k": "1"}, map[string]string{"k": "1"}
	c14Check(cond(attr, method, value), m)
}

// any text in ANY and ALL nodes
func Check_C14_parents() {
	s := vxStr("path", 0, 2, c14Odd)
	parent := vxPick("parent", "jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:$.l[:],jsonpath:$.m[:]", "jsonpath:$."+s, "jsonpath:$.l['"+s+"']")
	texts, _ := elements("e", 1)
	inner := interface{}(cond("jsonpath:$RELATIVE.x", "EQ", "t"))
	if vxChoose("nested", 2) == 1 {
		inner, _ = quantify(false, "jsonpath:$RELATIVE.y", inner, nil)
	}
	tree, _ := quantify(vxChoose("all", 2) == 1, parent, inner, nil)
	if _, err := MAPL_engine.ParseConditionsTree(tree); err != nil {
		return
	}
	doc := `{"a":"a","l":[` + join(texts) + `]}`
	c14Check(tree, docMessage(doc, vxChoose("form", 2)))
}

// return values
func Check_C14_returns() {
	s := vxStr("name", 0, 1, c14Odd)
	path := vxPick("path", "jsonpath:$RELATIVE.x", "jsonpath:$RELATIVE*", "jsonpath:$RELATIVE."+s, "jsonpath:$.s")
	ret := obj{s: path}
	if vxChoose("more", 2) == 1 {
		ret["w"] = "jsonpath:$RELATIVE.y"
	}
	inner := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	var tree obj
	switch vxChoose("where", 3) {
	case 0:
		inner["returnValueJsonpath"] = ret
		tree, _ = quantify(false, "jsonpath:$.l[:]", inner, nil)
	case 1:
		tree, _ = quantify(vxChoose("all", 2) == 1, "jsonpath:$.l[:]", inner, nil)
		tree = withReturns(tree, "returnValueJsonpath", ret)
	default:
		tree = cond("jsonpath:$.s", "EQ", "t")
		tree["returnValueJsonpath"] = ret
	}
	if _, err := MAPL_engine.ParseConditionsTree(tree); err != nil {
		return
	}
	x, _ := tf("x")
	doc := `{"s":"t","a":"a","l":[{"x":"` + x + `","y":1},{"x":"t"}]}`
	c14Check(tree, docMessage(doc, vxChoose("form", 2)))
}

// rules without conditions
func Check_C14_none() {
	r := MAPL_engine.Rule{RuleID: "r", Decision: "allow"}
	b, err := json.Marshal(r)
	vxAssert(err == nil, "a rule without conditions can be written")
	vxAssume(err == nil)
	r2 := MAPL_engine.Rule{}
	err = json.Unmarshal(b, &r2)
	vxAssert(err == nil && r2.Conditions.ConditionsTree == nil, "a rule without conditions can be read")
	vxCover("end")
}
