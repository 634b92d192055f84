package main

import (
	"net"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

type defs = MAPL_engine.PredefinedStringsAndLists

// defined checks definitions and resolves the references within lists.
func defined(d defs) (defs, error) {
	err := MAPL_engine.SetGlobalPredefinedStringsAndLists(d)
	out := MAPL_engine.GlobalPredefinedStringsAndLists
	MAPL_engine.GlobalPredefinedStringsAndLists = defs{}
	return out, err
}

// c12Same compares a rule with references to a literal one.
func c12Same(r *MAPL_engine.Rule, d defs, literal *MAPL_engine.Rule, m *MAPL_engine.MessageAttributes, label string) {
	err := r.SetPredefinedStringsAndLists(d)
	err2 := literal.SetPredefinedStringsAndLists(defs{})
	vxAssert((err == nil) == (err2 == nil), label+" (accepted)")
	if err != nil || err2 != nil {
		return
	}
	if r.Conditions.ConditionsTree != nil {
		a, _ := r.TestConditions(m)
		b, _ := literal.TestConditions(m)
		vxObs("a", a)
		vxAssert(vxIff(a, b), label)
	}
	a, _ := r.Check(m)
	b, _ := literal.Check(m)
	vxObs("decision", a)
	vxAssert(a == b, label+" (decision)")
}

// c12Value is the name of a definition, the definitions and its content.
func c12Value(alphabet string, sep string) (string, defs, string) {
	s, a, b := vxStr("s", 0, 2, alphabet), vxStr("a", 1, 1, alphabet), vxStr("b", 1, 2, alphabet)
	d := defs{PredefinedStrings: map[string]string{"s": s, "t": b, "both": s}, PredefinedLists: map[string][]string{"l": {a, b}, "one": {b}, "refs": {a, "#t"}, "both": {b, a}}}
	switch vxChoose("def", 5) {
	case 0:
		return "s", d, s
	case 1:
		return "l", d, a + sep + b
	case 2:
		return "one", d, b
	case 3:
		return "refs", d, a + sep + b
	}
	return "both", d, b + sep + a
}

// references in conditions
func Check_C12_values() {
	method := vxPick("method", "EQ", "NEQ", "RE", "NRE", "IN", "NIN", "re", "nre", "in", "EX")
	sep := ","
	switch method {
	case "RE", "NRE", "re", "nre":
		sep = "|"
	}
	name, d, content := c12Value("ab.", sep)
	d, err := defined(d)
	vxAssert(err == nil, "definitions with known references are accepted")
	vxAssume(err == nil)
	attr := vxPick("attr", "senderLabel[k]", "jsonpath:$.s")
	val := vxStr("val", 0, 2, "ab.,")
	m := docMessage(`{"s":"`+val+`"}`, vxChoose("form", 2))
	m.SourceLabels = map[string]string{"k": val}
	literal, err := MAPL_engine.ParseConditionsTree(cond(attr, method, content))
	if err != nil {
		return // such as membership in an empty list
	}
	r2 := parseRule(cond("true", "EQ", ""))
	r2.Conditions.ConditionsTree = literal
	c12Same(parseRule(cond(attr, method, "#"+name)), d, r2, m, "a reference in a condition means its content")
	vxCover("end")
}

// what the content may mean
func Check_C12_content() {
	content := vxPick("content", "12", "1.5K", "receiverLabel[j]", "$receiver.namespace", "a*", "a,b", "[a,b]", "(", "a b", "")
	attr := vxPick("attr", "senderLabel[k]", "jsonpath:$.s", "domain", "$sender.namespace", "payloadSize", "utcHoursFromMidnight")
	method := vxPick("method", "EQ", "NEQ", "RE", "IN")
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": content}})
	vxAssume(err == nil)
	v := vxPick("v", "12", "1500", "a", "ab", "b", "(", "a b", "")
	m := docMessage(`{"s":"`+v+`"}`, 1)
	m.SourceLabels, m.DestinationLabels, m.Domain, m.SourceNamespace, m.DestinationNamespace = map[string]string{"k": v}, map[string]string{"j": "a"}, v, v, "b"
	m.RequestSize, m.RequestTimeHoursFromMidnightUTC = vxInt("size", 0, 2000), 12
	r2 := parseRule(cond("true", "EQ", ""))
	literal, err := MAPL_engine.ParseConditionsTree(cond(attr, method, content))
	r := parseRule(cond(attr, method, "#s"))
	if err != nil {
		vxAssert(r.SetPredefinedStringsAndLists(d) != nil, "a reference to an unusable content is reported")
		return
	}
	r2.Conditions.ConditionsTree = literal
	c12Same(r, d, r2, m, "a reference in a condition means its content")
	vxCover("end")
}

// references anywhere in a tree
func Check_C12_trees() {
	place := func(c obj) interface{} {
		t := cond("jsonpath:$.t", "EQ", "t")
		switch vxChoose("place", 7) {
		case 0:
			return obj{"AND": arr{t, c}}
		case 1:
			return obj{"OR": arr{c, t}}
		case 2:
			return obj{"NOT": c}
		case 3:
			return obj{"OR": arr{obj{"NOT": t}, obj{"AND": arr{t, obj{"NOT": c}}}}}
		case 4:
			q, _ := quantify(false, "jsonpath:$.l[:]", c, nil)
			return q
		case 5:
			q, _ := quantify(true, "jsonpath:$.l[:]", obj{"OR": arr{t, c}}, nil)
			return q
		}
		q, _ := quantify(false, "jsonpath:$RELATIVE.m[:]", c, nil)
		q, _ = quantify(false, "jsonpath:$.l[:]", q, nil)
		return q
	}
	known := vxBool("known")
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": vxStr("content", 1, 1, "ab")}})
	vxAssume(err == nil)
	name := "#s"
	if !known {
		name = "#" + vxStr("name", 0, 2, "sx#")
		vxAssume(name != "#s")
	}
	r := parseRule(place(cond("jsonpath:$RELATIVE.x", "EQ", name)))
	if !known {
		vxAssert(r.SetPredefinedStringsAndLists(d) != nil, "a reference to an undefined name is reported")
		vxCover("unknown")
		return
	}
	x := vxStr("x", 1, 1, "ab")
	m := docMessage(`{"t":"t","l":[{"x":"`+x+`","m":[{"x":"`+x+`"}]}]}`, vxChoose("form", 2))
	// a tree of the same shape
	a, _ := r.TestConditions(m)
	vxAssert(!a, "conditions with references need definitions")
	err = r.SetPredefinedStringsAndLists(d)
	vxAssert(err == nil, "a reference to a defined name is accepted")
	vxCover("end")
}

// the same content in trees with and without references
func Check_C12_nested() {
	content, x := vxStr("content", 1, 2, "ab"), vxStr("x", 1, 2, "ab")
	method := vxPick("method", "EQ", "NEQ", "IN")
	shape := vxChoose("shape", 4)
	tree := func(value string) interface{} {
		c := cond("jsonpath:$RELATIVE.x", method, value)
		q, _ := quantify(shape == 1, "jsonpath:$.l[:]", c, nil)
		switch shape {
		case 2:
			return obj{"NOT": q}
		case 3:
			q, _ := quantify(true, "jsonpath:$.l[:]", obj{"OR": arr{cond("jsonpath:$RELATIVE.x", "EQ", "a"), obj{"NOT": c}}}, nil)
			return obj{"AND": arr{q}}
		}
		return q
	}
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": content}})
	vxAssume(err == nil)
	m := docMessage(`{"l":[{"x":"`+x+`"},{"x":"a"}]}`, vxChoose("form", 2))
	c12Same(parseRule(tree("#s")), d, parseRule(tree(content)), m, "a reference in a tree means its content")
	vxCover("end")
}

// references as names of sender and receiver
func Check_C12_names() {
	name, d, content := c12Value("ab*", ",")
	d, err := defined(d)
	vxAssume(err == nil)
	who := vxStr("who", 0, 2, "ab")
	m := &MAPL_engine.MessageAttributes{SourceService: who, DestinationService: "x", RequestHost: "y"}
	r, r2 := starRule("r", "block"), starRule("r", "block")
	switch vxChoose("side", 3) {
	case 0:
		r.Sender.SenderName, r2.Sender.SenderName = "#"+name, content
		typ := vxPick("type", "*", "workload")
		r.Sender.SenderType, r2.Sender.SenderType = typ, typ
	case 1:
		m.SourceService, m.DestinationService = "x", who
		r.Receiver.ReceiverName, r2.Receiver.ReceiverName = "#"+name, content
		r.Receiver.ReceiverType, r2.Receiver.ReceiverType = "workload", "workload"
	default:
		m.SourceService, m.RequestHost = "x", who
		r.Receiver.ReceiverName, r2.Receiver.ReceiverName = "#"+name, content
		r.Receiver.ReceiverType, r2.Receiver.ReceiverType = "hostname", "hostname"
	}
	c12Same(&r, d, &r2, m, "a reference as a name means its content")
	vxCover("end")
}

// references to subnets
func Check_C12_subnets() {
	content := vxPick("content", "10.0.0.0/8", "10.1.2.3", "*", "x")
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": content}, PredefinedLists: map[string][]string{"l": {"#s", "11.0.0.0/8"}}})
	vxAssume(err == nil)
	name := vxPick("name", "s", "l")
	if name == "l" {
		content += ",11.0.0.0/8"
	}
	text, _ := address("ip", [4]int{2, 1, 1, 1})
	m := &MAPL_engine.MessageAttributes{SourceIp: text, SourceNetIp: net.ParseIP(text), DestinationIp: text, DestinationNetIp: net.ParseIP(text)}
	r, r2 := starRule("r", "block"), starRule("r", "block")
	if vxChoose("side", 2) == 0 {
		r.Sender, r2.Sender = MAPL_engine.Sender{SenderName: "#" + name, SenderType: "subnet"}, MAPL_engine.Sender{SenderName: content, SenderType: "subnet"}
	} else {
		r.Receiver, r2.Receiver = MAPL_engine.Receiver{ReceiverName: "#" + name, ReceiverType: "subnet"}, MAPL_engine.Receiver{ReceiverName: content, ReceiverType: "subnet"}
	}
	c12Same(&r, d, &r2, m, "a reference as a subnet means its content")
	vxCover("end")
}

// unknown names
func Check_C12_unknown() {
	names := "sl#"
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": "a"}, PredefinedLists: map[string][]string{"l": {"a"}}})
	vxAssume(err == nil)
	name := vxStr("name", 0, 2, names)
	bad := vxAnd(name != "s", name != "l")
	r := starRule("r", "block")
	switch vxChoose("place", 3) {
	case 0:
		r.Sender.SenderName, r.Sender.SenderType = "#"+name, vxPick("type", "*", "workload", "subnet")
	case 1:
		r.Receiver.ReceiverName, r.Receiver.ReceiverType = "#"+name, vxPick("type", "*", "workload", "hostname", "subnet")
	default:
		r.Conditions.ConditionsTree = parseRule(cond("domain", vxPick("method", "EQ", "RE", "NIN", "EX", "NEX"), "#"+name)).Conditions.ConditionsTree
	}
	err = r.SetPredefinedStringsAndLists(d)
	if r.Sender.SenderType == "subnet" || r.Receiver.ReceiverType == "subnet" { // the contents are no addresses
		bad = true
	}
	vxAssert(vxIff(err != nil, bad), "exactly the references to undefined names are reported")
	if err != nil {
		decision, _ := r.Check(&MAPL_engine.MessageAttributes{Domain: "#" + name, SourceService: "#" + name, DestinationService: "#" + name})
		vxAssert(decision == MAPL_engine.DEFAULT, "a rule with an undefined reference never applies")
	}
	vxCover("end")
}

// references within lists
func Check_C12_lists() {
	item := vxStr("item", 0, 2, "st#")
	d := defs{PredefinedStrings: map[string]string{"s": "S", "#s": "T"}, PredefinedLists: map[string][]string{"k": {"x"}, "l": {"x", item}}}
	out, err := defined(d)
	ref := len(item) > 0 && item[0] == '#'
	want := item
	if ref {
		switch item[1:] {
		case "s":
			want = "S"
		default:
			want = ""
		}
	}
	vxAssert(vxIff(err != nil, ref && want == ""), "exactly the lists with undefined references are reported")
	if err == nil {
		got := out.PredefinedListsWithoutRefs["l"]
		vxAssert(len(got) == 2 && got[0] == "x" && got[1] == want, "references within lists are replaced by the strings they name")
		vxAssert(d.PredefinedLists["l"][1] == item && out.PredefinedLists["l"][1] == item, "the definitions keep their references")
	}
	vxCover("end")
}

// definitions read from yaml
func Check_C12_yaml() {
	s, a := vxStr("s", 0, 2, "ab."), vxStr("a", 1, 2, "ab.")
	text := "predefinedStrings:\n  s: \"" + s + "\"\npredefinedLists:\n  l:\n    - \"" + a + "\"\n    - \"#s\"\n  e: []\n"
	d, err := MAPL_engine.YamlReadStringListsFromString(text)
	vxAssert(err == nil, "definitions are read")
	vxAssume(err == nil)
	vxAssert(d.PredefinedStrings["s"] == s, "strings are read")
	got := d.PredefinedListsWithoutRefs["l"]
	vxAssert(len(got) == 2 && got[0] == a && got[1] == s, "lists are read")
	_, err = MAPL_engine.YamlReadStringListsFromString("predefinedLists:\n  l:\n    - \"#" + a + "\"\n")
	vxAssert(err != nil, "undefined references within lists are reported")
	vxCover("end")
}

// different definitions one after another
func Check_C12_again() {
	a, b, x := vxStr("a", 1, 1, "ab"), vxStr("b", 1, 1, "ab"), vxStr("x", 1, 1, "ab")
	d1, err := defined(defs{PredefinedStrings: map[string]string{"s": a}})
	vxAssume(err == nil)
	d2, err := defined(defs{PredefinedLists: map[string][]string{"s": {b, "c"}}})
	vxAssume(err == nil)
	kind := vxChoose("kind", 3)
	r := starRule("r", "block")
	m := &MAPL_engine.MessageAttributes{SourceService: x, DestinationService: x, Domain: x}
	switch kind {
	case 0:
		r.Sender.SenderName = "#s"
	case 1:
		r.Receiver.ReceiverName = "#s"
	default:
		r.Conditions.ConditionsTree = parseRule(cond("domain", "IN", "#s")).Conditions.ConditionsTree
	}
	text := r.String()
	for i := 0; i < 3; i++ {
		var err error
		want := false
		switch vxChoose("next", 3) {
		case 0:
			err = r.SetPredefinedStringsAndLists(d1)
			want = x == a
		case 1:
			err = r.SetPredefinedStringsAndLists(d2)
			want = x == b
		default:
			err = r.SetPredefinedStringsAndLists(defs{})
			vxAssert(err != nil, "a reference to an undefined name is reported")
			err = nil
		}
		vxAssert(err == nil, "a reference to a defined name is accepted")
		decision, _ := r.Check(m)
		vxAssert(vxIff(decision == MAPL_engine.BLOCK, want), "the definitions supplied last count")
		vxAssert(r.String() == text, "the rule keeps the reference")
	}
	vxCover("end")
}
