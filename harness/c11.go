package main

import (
	"net"
	"reflect"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// c11Defs are the definitions the rules refer to.
func c11Defs() defs {
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": "t"}, PredefinedLists: map[string][]string{"l": {"u", "#s"}}})
	vxAssume(err == nil)
	return d
}

// c11Tree is a tree of conditions over the fields of c11Message.
func c11Tree(kind int) interface{} {
	x := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	any, _ := quantify(false, "jsonpath:$.l[:]", x, nil)
	all, _ := quantify(true, "jsonpath:$.l[:]", x, nil)
	nested, _ := quantify(false, "jsonpath:$RELATIVE.m[:]", x, nil)
	nested, _ = quantify(true, "jsonpath:$.k[:]", obj{"OR": arr{nested, x}}, nil)
	switch kind {
	case 0:
		return cond("jsonpath:$.s", "EQ", "t")
	case 1:
		return any
	case 2:
		return obj{"NOT": all}
	case 3: // there is no current element
		return obj{"OR": arr{x, cond("jsonpath:$KEY", "EX", "")}}
	case 4:
		return obj{"AND": arr{any, obj{"NOT": x}}}
	case 5:
		return nested
	case 6:
		return anyOf("jsonpath:$.l[:]", obj{"v": "jsonpath:$RELATIVE.x", "w": "jsonpath:$RELATIVE*"}, x)
	case 7:
		return cond("senderLabel[k]", "IN", "#l")
	case 8:
		return cond("senderLabel[k]", "EQ", "receiverLabel[k]")
	case 9:
		q, _ := quantify(false, "jsonpath:$.o", obj{"AND": arr{cond("jsonpath:$VALUE", "EQ", "t"), cond("jsonpath:$KEY", "NEQ", "q")}}, nil)
		return q
	}
	return cond("payloadSize", "GT", "1K")
}

const c11Kinds = 11

// c11Rule is a new rule of a kind.
func c11Rule(kind int) *MAPL_engine.Rule {
	r := parseRule(c11Tree(kind))
	r.Decision = "block"
	switch kind {
	case 7:
		r.Sender.SenderName = "#l"
	case 8:
		r.Receiver.ReceiverName = "x*,t"
	}
	return r
}

// c11Data are the values of a message.
type c11Data struct{ a, b, s string }

func c11Message(d c11Data, form int) *MAPL_engine.MessageAttributes {
	m := docMessage(`{"s":"`+d.s+`","l":[{"x":"`+d.a+`"},{"x":"`+d.b+`"}],"k":[{"x":"`+d.a+`","m":[{"x":"`+d.b+`"}]}],"o":{"p":"`+d.a+`","q":"`+d.b+`"}}`, form)
	m.SourceLabels = map[string]string{"k": d.a, "j": "z"}
	m.DestinationLabels = map[string]string{"k": d.b}
	m.SourceService, m.DestinationService = d.s, d.a
	m.RequestSize = 1500
	return m
}

// c11Run evaluates a rule one of several ways.
func c11Run(how int, r *MAPL_engine.Rule, m *MAPL_engine.MessageAttributes) bool {
	switch how {
	case 0:
		t, _ := r.TestConditions(m)
		return t
	case 1:
		d, _ := r.Check(m)
		return d == MAPL_engine.BLOCK
	case 2:
		d, _ := MAPL_engine.CheckOneRule(m, r)
		return d == MAPL_engine.BLOCK
	}
	d, _, _, _, _, _, _ := MAPL_engine.Check(m, &MAPL_engine.Rules{Rules: []MAPL_engine.Rule{*r}})
	return d == MAPL_engine.BLOCK
}

func c11Values(name string) c11Data {
	a, _ := tf(name + ".a")
	b, _ := tf(name + ".b")
	s, _ := tf(name + ".s")
	return c11Data{a, b, s}
}

// evaluations before do not change the result
func Check_C11_history() {
	d0, d1 := c11Values("0"), c11Values("1")
	k0, k1 := vxChoose("k0", c11Kinds), vxChoose("k1", c11Kinds)
	f0 := vxChoose("f0", 2)
	f1 := 1 - f0
	if vxTier() == 1 {
		f1 = vxChoose("f1", 2)
	}
	ds := c11Defs()
	rules := []*MAPL_engine.Rule{c11Rule(k0), c11Rule(k1)}
	for _, r := range rules {
		vxAssert(r.SetPredefinedStringsAndLists(ds) == nil, "a rule is accepted")
	}
	messages := []*MAPL_engine.MessageAttributes{c11Message(d0, f0), c11Message(d1, f1)}
	// what is asked in the end
	how := vxChoose("how", 2)
	fresh := c11Rule(k0)
	vxAssert(fresh.SetPredefinedStringsAndLists(ds) == nil, "a rule is accepted")
	want := c11Run(how, fresh, c11Message(d0, f0))
	// what was evaluated before
	switch vxChoose("before", 4) {
	case 0:
		c11Run(1, rules[1], messages[0])
		c11Run(0, rules[0], messages[1])
	case 1:
		c11Run(1, rules[0], messages[1])
		c11Run(0, rules[1], messages[1])
	case 2:
		c11Run(how, rules[0], messages[0])
		c11Run(0, rules[1], messages[0])
	default:
		c11Run(0, rules[1], messages[1])
		c11Run(1, rules[1], messages[0])
	}
	got := c11Run(how, rules[0], messages[0])
	vxObs("got", got)
	vxAssert(vxIff(got, want), "a result does not depend on what was evaluated before")
	vxCover("end")
}

// all ways to evaluate agree
func Check_C11_ways() {
	d := c11Values("0")
	k, form := vxChoose("k", c11Kinds), vxChoose("form", 2)
	ds := c11Defs()
	r := c11Rule(k)
	r.Sender.SenderName, r.Receiver.ReceiverName = "*", "*"
	vxAssert(r.SetPredefinedStringsAndLists(ds) == nil, "a rule is accepted")
	want := c11Run(0, r, c11Message(d, form))
	m := c11Message(d, form)
	for how := 0; how < 4; how++ {
		vxAssert(vxIff(c11Run(how, r, m), want), "all ways to evaluate a rule agree")
	}
	vxCover("end")
}

// many rules at once
func Check_C11_together() {
	d := c11Values("0")
	form := vxChoose("form", 2)
	k0, k1 := vxChoose("k0", c11Kinds), vxChoose("k1", c11Kinds)
	ds := c11Defs()
	var rules MAPL_engine.Rules
	var want []bool
	for _, k := range []int{k0, k1, k0} {
		r := c11Rule(k)
		vxAssert(r.SetPredefinedStringsAndLists(ds) == nil, "a rule is accepted")
		want = append(want, c11Run(1, r, c11Message(d, form)))
		rules.Rules = append(rules.Rules, *r)
	}
	_, _, _, results, _, _, _ := MAPL_engine.Check(c11Message(d, form), &rules)
	vxAssert(len(results) == 3, "a result per rule")
	for i := range results {
		vxAssert(vxIff(results[i] == MAPL_engine.BLOCK, want[i]), "a result does not depend on the other rules")
	}
	vxCover("end")
}

// rules as parts of trees
func Check_C11_parts() {
	d := c11Values("0")
	form := vxChoose("form", 2)
	k0, k1 := vxChoose("k0", 7), vxChoose("k1", 7)
	truth := func(tree interface{}) bool {
		r := parseRule(tree)
		t, _ := r.TestConditions(c11Message(d, form))
		return t
	}
	a, b := truth(c11Tree(k0)), truth(c11Tree(k1))
	r := parseRule(obj{"AND": arr{c11Tree(k0), c11Tree(k1)}})
	want := vxAnd(a, b)
	if vxChoose("op", 2) == 1 {
		r = parseRule(obj{"OR": arr{c11Tree(k0), obj{"NOT": c11Tree(k1)}}})
		want = vxOr(a, !b)
	}
	got, _ := r.TestConditions(c11Message(d, form))
	vxAssert(vxIff(got, want), "a condition means the same within a tree")
	vxCover("end")
}

// rule, message and definitions stay as they are
func Check_C11_untouched() {
	d := c11Values("0")
	k, form, how := vxChoose("k", c11Kinds), vxChoose("form", 2), vxChoose("how", 4)
	ds, same := c11Defs(), c11Defs()
	r, other := c11Full(c11Rule(k)), c11Full(c11Rule(k))
	vxAssert(r.SetPredefinedStringsAndLists(ds) == nil, "a rule is accepted")
	m, n := c11FullMessage(c11Message(d, form)), c11FullMessage(c11Message(d, form))
	c11Run(how, r, m)
	vxAssert(m.RequestJsonRawRelative == nil && m.RequestRawInterfaceRelative == nil, "there is no current element after an evaluation")
	if form == 0 {
		vxAssert(string(*m.RequestJsonRaw) == string(*n.RequestJsonRaw), "the document stays as it is")
	} else {
		vxAssert(reflect.DeepEqual(*m.RequestRawInterface, *n.RequestRawInterface), "the document stays as it is")
	}
	vxAssert(reflect.DeepEqual(m.SourceLabels, n.SourceLabels) && reflect.DeepEqual(m.DestinationLabels, n.DestinationLabels), "the labels stay as they are")
	vxAssert(c11Plain(m) == c11Plain(n) && m.RequestSize == n.RequestSize, "the message stays as it is")
	vxAssert(c11PlainRule(r) == c11PlainRule(other), "the rule stays as it is")
	vxAssert(r.String() == other.String() && MAPL_engine.RuleMD5Hash(*r) == MAPL_engine.RuleMD5Hash(*other), "the text of a rule stays as it is")
	vxAssert(reflect.DeepEqual(ds, same), "the definitions stay as they are")
	vxCover("end")
}

// the order of maps does not matter
func Check_C11_order() {
	d := c11Values("0")
	k, form := vxChoose("k", c11Kinds), vxChoose("form", 2)
	// where the order is open: reading, preparation or evaluation
	phase := vxChoose("phase", 3)
	mode := 2
	if phase < 2 && k != 0 && k != 7 {
		mode = 3
	}
	open := func(p int) {
		vxMapOrder(0)
		if p == phase {
			vxMapOrder(mode)
		}
	}
	want, data := c11Fresh(k).TestConditions(c11Message(d, form))
	open(0)
	r := c11Rule(k)
	open(1)
	vxAssert(r.SetPredefinedStringsAndLists(c11Defs()) == nil, "a rule is accepted")
	open(2)
	got, data2 := r.TestConditions(c11Message(d, form))
	vxMapOrder(0)
	vxAssert(vxIff(got, want), "a result does not depend on the order of maps")
	vxAssert(reflect.DeepEqual(data, data2), "return values do not depend on the order of maps")
	vxCover("end")
}

// the order of larger maps does not matter either
func Check_C11_orderlarge() {
	keys := []string{"p", "q", "r", "s", "t", "u"}
	texts := []string{}
	a, _ := tf("a")
	b, _ := tf("b")
	at := vxChoose("at", len(keys))
	returns := obj{}
	for i, k := range keys {
		v := a
		if i == at {
			v = b
		}
		texts = append(texts, `"`+k+`":"`+v+`"`)
		returns[k] = "jsonpath:$RELATIVE*"
	}
	inner := obj{"AND": arr{cond("jsonpath:$VALUE", "EQ", "t"), cond("jsonpath:$KEY", "NEQ", keys[vxChoose("not", 2)*at])}}
	tree := anyOf("jsonpath:$.o", obj{"v": "jsonpath:$RELATIVE*"}, inner)
	if vxChoose("names", 2) == 1 {
		tree = anyOf("jsonpath:$.o", returns, inner)
	}
	doc := `{"o":{` + join(texts) + `}}`
	form := vxChoose("form", 2)
	want, data := parseRule(tree).TestConditions(docMessage(doc, form))
	mode := 1
	phase := vxChoose("phase", 2)
	if phase == 0 {
		mode = 3
		vxMapOrder(mode)
	}
	r := parseRule(tree)
	vxAssert(r.SetPredefinedStringsAndLists(defs{}) == nil, "a rule is accepted")
	vxMapOrder(0)
	m := docMessage(doc, form)
	if phase == 1 {
		vxMapOrder(mode)
	}
	got, data2 := r.TestConditions(m)
	vxMapOrder(0)
	vxAssert(vxIff(got, want), "a result does not depend on the order of maps")
	vxAssert(reflect.DeepEqual(data, data2), "return values do not depend on the order of maps")
	vxCover("end")
}

func c11Fresh(kind int) *MAPL_engine.Rule {
	r := c11Rule(kind)
	vxAssert(r.SetPredefinedStringsAndLists(c11Defs()) == nil, "a rule is accepted")
	return r
}

// c11Plain is the text of the plain attributes of a message.
func c11Plain(m *MAPL_engine.MessageAttributes) string {
	return join([]string{m.SourceIp, m.SourceNamespace, m.SourceCluster, m.DestinationIp, m.DestinationPort, m.DestinationNamespace, m.DestinationCluster,
		m.RequestPath, m.RequestHost, m.RequestMethod, m.RequestTime, m.RequestUseragent, m.ContextProtocol, m.MessageID, m.SourceService,
		m.DestinationService, m.SourceLabelsJson, m.DestinationLabelsJson, m.ContextType, m.EncryptionType, m.Domain, m.SourceNetIp.String(), m.DestinationNetIp.String()})
}

// c11PlainRule is the text of the fields of a rule.
func c11PlainRule(r *MAPL_engine.Rule) string {
	return join([]string{r.RuleID, r.Sender.SenderName, r.Sender.SenderType, r.Receiver.ReceiverName, r.Receiver.ReceiverType, r.Protocol,
		r.Resource.ResourceType, r.Resource.ResourceName, r.Operation, r.Decision, r.Hash, r.Metadata["description"]})
}

// c11Full fills in the other fields of a rule.
func c11Full(r *MAPL_engine.Rule) *MAPL_engine.Rule {
	r.RuleID, r.Hash, r.Metadata = "Id", "Ff", map[string]string{"description": "D"}
	r.Protocol, r.Operation = "Http", " GET , Put"
	r.Resource.ResourceType, r.Resource.ResourceName = "path", "/A*, /B"
	return r
}

// c11FullMessage fills in the other attributes of a message.
func c11FullMessage(m *MAPL_engine.MessageAttributes) *MAPL_engine.MessageAttributes {
	m.SourceIp, m.DestinationIp, m.DestinationPort = "1.2.3.4", "5.6.7.8", "80"
	m.SourceNetIp, m.DestinationNetIp = net.ParseIP("1.2.3.4"), net.ParseIP("5.6.7.8")
	m.SourceNamespace, m.SourceCluster, m.DestinationNamespace, m.DestinationCluster = "Sn", "Sc", "Dn", "Dc"
	m.RequestPath, m.RequestHost, m.RequestMethod, m.RequestTime, m.RequestUseragent = "/Ab", "Ho", "GET", "2018-07-29T14:30:00Z", "Ua"
	m.ContextProtocol, m.ContextType, m.MessageID = "HTTP", "path", "Id"
	m.EncryptionType, m.Domain = "Tls", "Do"
	return m
}
