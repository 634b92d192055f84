package main

import (
	"github.com/octarinesec/MAPL/MAPL_engine"
)

// c13Fields are the fields of a rule which its text tells, and whether the
// letter case of a field matters.
var c13Fields = []struct {
	name   string
	cased  bool
	member func(r *MAPL_engine.Rule) *string
}{
	{"decision", false, func(r *MAPL_engine.Rule) *string { return &r.Decision }},
	{"sender type", false, func(r *MAPL_engine.Rule) *string { return &r.Sender.SenderType }},
	{"sender name", true, func(r *MAPL_engine.Rule) *string { return &r.Sender.SenderName }},
	{"receiver type", false, func(r *MAPL_engine.Rule) *string { return &r.Receiver.ReceiverType }},
	{"receiver name", true, func(r *MAPL_engine.Rule) *string { return &r.Receiver.ReceiverName }},
	{"operation", false, func(r *MAPL_engine.Rule) *string { return &r.Operation }},
	{"protocol", false, func(r *MAPL_engine.Rule) *string { return &r.Protocol }},
	{"resource type", true, func(r *MAPL_engine.Rule) *string { return &r.Resource.ResourceType }},
	{"resource name", true, func(r *MAPL_engine.Rule) *string { return &r.Resource.ResourceName }},
}

// alike compares two texts of the same length, regardless of letter case unless cased.
func alike(a, b string, cased bool) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		x := a[i] == b[i]
		if !cased {
			x = vxOr(x, vxOr(vxAnd(a[i] == 'a', b[i] == 'A'), vxAnd(a[i] == 'A', b[i] == 'a')))
		}
		same = vxAnd(same, x)
	}
	return same
}

func c13Same(a, b *MAPL_engine.Rule, same bool, label string) {
	ta, tb := MAPL_engine.RuleToString(*a), b.String()
	vxObs("a", ta)
	vxObs("b", tb)
	vxAssert(vxIff(ta == tb, same), label+" (text)")
	vxAssert(vxIff(MAPL_engine.RuleMD5Hash(*a) == MAPL_engine.RuleMD5Hash(*b), same), label+" (hash)")
	vxCover("end")
}

func c13Rule() *MAPL_engine.Rule {
	r := starRule("r", "allow")
	return &r
}

// one or two fields with any content
func Check_C13_fields() {
	a, b := c13Rule(), c13Rule()
	n := len(c13Fields)
	i := vxChoose("field", n)
	j := i + vxChoose("other", 2)
	if vxTier() == 1 {
		j = vxChoose("any", n)
	}
	vxAssume(j < n)
	min := 0
	if i == j {
		min = 1
	}
	same := true
	for k, f := range c13Fields {
		if k != i && k != j {
			continue
		}
		alphabet := "aAb"
		if i == j {
			alphabet = "aAb*.,/#"
		}
		x, y := vxStr("x", min, 2, alphabet), vxStr("y", min, 2, alphabet)
		*f.member(a), *f.member(b) = x, y
		same = vxAnd(same, alike(x, y, f.cased))
	}
	c13Same(a, b, same, "rules have the same text and hash only if their fields are the same")
}

// two rules whose fields are exchanged
func Check_C13_exchanged() {
	a, b := c13Rule(), c13Rule()
	n := len(c13Fields)
	i := vxChoose("field", n)
	j := vxChoose("other", n)
	vxAssume(i < j)
	x, y := vxStr("x", 1, 2, "ab-"), vxStr("y", 1, 2, "ab-")
	vxAssume(x[0] != '-' && y[0] != '-')
	*c13Fields[i].member(a), *c13Fields[j].member(a) = x, y
	*c13Fields[i].member(b), *c13Fields[j].member(b) = y, x
	c13Same(a, b, x == y, "exchanging two fields changes the text and hash")
}

// letter case of known words
func Check_C13_case() {
	a, b := c13Rule(), c13Rule()
	words := []string{"allow", "workload", "", "hostname", "", "write", "http"}
	f := vxChoose("field", len(words))
	vxAssume(words[f] != "")
	w := []byte(words[f])
	u := []byte(words[f])
	for i := range u {
		if vxBool("upper") {
			u[i] -= 'a' - 'A'
		}
	}
	*c13Fields[f].member(a), *c13Fields[f].member(b) = string(w), string(u)
	c13Same(a, b, true, "letter case of decision, types, operation and protocol does not matter")
}

// the parts of a condition
func Check_C13_condition() {
	a, b := c13Rule(), c13Rule()
	ka, kb := vxStr("ka", 1, 1, "aAb"), vxStr("kb", 1, 1, "aAb")
	va, vb := vxStr("va", 0, 2, "aA*,"), vxStr("vb", 0, 2, "aA*,")
	methods := []string{"EQ", "NEQ", "RE", "EX", "eq"}
	ma, mb := vxChoose("ma", len(methods)), vxChoose("mb", len(methods))
	sides := []string{"senderLabel[", "receiverLabel["}
	sa, sb := vxChoose("sa", 2), vxChoose("sb", 2)
	na, err := MAPL_engine.ParseConditionsTree(cond(sides[sa]+ka+"]", methods[ma], va))
	vxAssume(err == nil)
	nb, err := MAPL_engine.ParseConditionsTree(cond(sides[sb]+kb+"]", methods[mb], vb))
	vxAssume(err == nil)
	a.Conditions.ConditionsTree, b.Conditions.ConditionsTree = na, nb
	same := vxAnd(vxAnd(ka == kb, va == vb), ma == mb && sa == sb)
	c13Same(a, b, same, "conditions have the same text and hash only if they are the same")
	vxAssert(vxIff(a.ConditionsEqual(*b), same), "conditions are equal only if they are the same")
	b.Decision = "block"
	vxAssert(vxIff(MAPL_engine.RuleMD5HashConditions(*a) == MAPL_engine.RuleMD5HashConditions(*b), same), "the hash of conditions depends on them alone")
}

// c13Node is a tree of known structure.
type c13Node struct {
	kind int // 0 condition, 1 AND, 2 OR, 3 NOT, 4 ANY, 5 ALL
	leaf byte
	path byte
	kids []*c13Node
}

func c13Tree(name string, depth, maxKids int) *c13Node {
	kinds := 1
	if depth > 0 {
		kinds = 6
	}
	t := &c13Node{kind: vxChoose(name, kinds)}
	switch t.kind {
	case 0:
		t.leaf = vxByte(name+".v", "ab")
	case 1, 2:
		n := vxChoose(name+".n", maxKids+1)
		for i := 0; i < n; i++ {
			t.kids = append(t.kids, c13Tree(name, depth-1, maxKids))
		}
	case 3:
		t.kids = append(t.kids, c13Tree(name, depth-1, maxKids))
	default:
		t.path = vxByte(name+".p", "ab")
		t.kids = append(t.kids, c13Tree(name, depth-1, maxKids))
	}
	return t
}

func (t *c13Node) tree() interface{} {
	switch t.kind {
	case 1, 2:
		kids := arr{}
		for _, k := range t.kids {
			kids = append(kids, k.tree())
		}
		if t.kind == 1 {
			return obj{"AND": kids}
		}
		return obj{"OR": kids}
	case 3:
		return obj{"NOT": t.kids[0].tree()}
	case 4, 5:
		q, _ := quantify(t.kind == 5, "jsonpath:$."+string([]byte{t.path})+"[:]", t.kids[0].tree(), nil)
		return q
	}
	return cond("senderLabel[k]", "EQ", string([]byte{t.leaf}))
}

// equal compares trees up to the order of operands; AND and OR of a single
// operand are that operand.
func (t *c13Node) equal(u *c13Node) bool {
	for (t.kind == 1 || t.kind == 2) && len(t.kids) == 1 {
		t = t.kids[0]
	}
	for (u.kind == 1 || u.kind == 2) && len(u.kids) == 1 {
		u = u.kids[0]
	}
	if t.kind != u.kind || len(t.kids) != len(u.kids) {
		return false
	}
	switch t.kind {
	case 0:
		return t.leaf == u.leaf
	case 1, 2:
		return permuted(t.kids, u.kids)
	case 3:
		return t.kids[0].equal(u.kids[0])
	}
	return vxAnd(t.path == u.path, t.kids[0].equal(u.kids[0]))
}

func permuted(a, b []*c13Node) bool {
	if len(a) == 0 {
		return true
	}
	found := false
	for i := range b {
		rest := append(append([]*c13Node{}, b[:i]...), b[i+1:]...)
		found = vxOr(found, vxAnd(a[0].equal(b[i]), permuted(a[1:], rest)))
	}
	return found
}

func c13Conditions(r *MAPL_engine.Rule, tree interface{}) {
	node, err := MAPL_engine.ParseConditionsTree(tree)
	vxAssert(err == nil, "a well formed tree is accepted")
	vxAssume(err == nil)
	r.Conditions.ConditionsTree = node
}

// any two trees
func Check_C13_structure() {
	a, b := c13Rule(), c13Rule()
	da, db, kids := 1, 1, 2
	if vxTier() == 1 {
		db, kids = 2, 2
	}
	ta, tb := c13Tree("a", da, kids), c13Tree("b", db, kids)
	c13Conditions(a, ta.tree())
	c13Conditions(b, tb.tree())
	c13Same(a, b, ta.equal(tb), "trees have the same text and hash only if they are the same up to order")
}

// nested trees which differ in one place
func Check_C13_nested() {
	a, b := c13Rule(), c13Rule()
	leaf := func(name string) *c13Node { return &c13Node{leaf: vxByte(name, "ab")} }
	t := &c13Node{kind: 1 + vxChoose("outer", 2), kids: []*c13Node{leaf("x"), {kind: 1 + vxChoose("inner", 2), kids: []*c13Node{leaf("y"), leaf("z")}}}}
	var u *c13Node
	outer, inner := 1+vxChoose("outer2", 2), 1+vxChoose("inner2", 2)
	x, y, z := leaf("x2"), leaf("y2"), leaf("z2")
	switch vxChoose("shape", 4) {
	case 0:
		u = &c13Node{kind: outer, kids: []*c13Node{x, {kind: inner, kids: []*c13Node{y, z}}}}
	case 1:
		u = &c13Node{kind: outer, kids: []*c13Node{{kind: inner, kids: []*c13Node{y, z}}, x}}
	case 2:
		u = &c13Node{kind: outer, kids: []*c13Node{x, y, z}}
	default:
		u = &c13Node{kind: outer, kids: []*c13Node{x, {kind: 3, kids: []*c13Node{{kind: inner, kids: []*c13Node{y, z}}}}}}
	}
	c13Conditions(a, t.tree())
	c13Conditions(b, u.tree())
	c13Same(a, b, t.equal(u), "trees have the same text and hash only if they are the same up to order")
}

// operands in any order
func Check_C13_order() {
	a, b := c13Rule(), c13Rule()
	n := 3
	if vxTier() == 1 {
		n = 4
	}
	var ops []interface{}
	for i := 0; i < n; i++ {
		v := vxStr("v", 1, 2, "ab")
		switch vxChoose("kind", 3) {
		case 0:
			ops = append(ops, cond("senderLabel[k]", "EQ", v))
		case 1:
			ops = append(ops, obj{"NOT": cond("domain", "EQ", v)})
		default:
			q, _ := quantify(i == 1, "jsonpath:$."+v, cond("jsonpath:$RELATIVE.x", "EQ", "t"), nil)
			ops = append(ops, q)
		}
	}
	op := vxPick("op", "AND", "OR")
	left := append(arr{}, ops...)
	var mixed arr
	for len(ops) > 0 {
		i := vxChoose("next", len(ops))
		mixed = append(mixed, ops[i])
		ops = append(append([]interface{}{}, ops[:i]...), ops[i+1:]...)
	}
	c13Conditions(a, obj{op: left})
	c13Conditions(b, obj{op: mixed})
	c13Same(a, b, true, "the order of operands does not matter")
}

// what the hash does not depend on
func Check_C13_used() {
	a, b := c13Rule(), c13Rule()
	s, t := vxStr("s", 1, 1, "a*,"), vxStr("t", 1, 2, "a*.")
	value, method := "v"+s, vxPick("method", "EQ", "IN", "re", "NEX", "IS", "GT")
	attr := vxPick("attr", "senderLabel[k]", "domain", "jsonpath:$.s", "$sender.namespace", "payloadSize", "jsonpath:$RELATIVE.x")
	if method == "GT" {
		value = "1Ki"
	}
	tree := interface{}(obj{"AND": arr{cond(attr, method, value), cond("jsonpath:$RELATIVE.x", "EQ", "t")}})
	if vxChoose("any", 2) == 1 {
		tree = anyOf("jsonpath:$.l[:]", obj{"v": "jsonpath:$RELATIVE.x"}, tree)
	}
	node, err := MAPL_engine.ParseConditionsTree(tree)
	vxAssume(err == nil)
	a.Conditions.ConditionsTree = node
	c13Conditions(b, tree)
	a.Sender.SenderName, b.Sender.SenderName = t, t
	b.RuleID, b.Hash, b.Metadata = "other", "x", map[string]string{"description": "text"}
	m := docMessage(`{"s":"x","l":[{"x":"t"}]}`, vxChoose("form", 2))
	switch vxChoose("use", 4) {
	case 0:
		vxAssume(b.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{}) == nil)
	case 1:
		b.Check(m)
	case 2:
		b.TestConditions(m)
		b.TestConditions(m)
	default:
		MAPL_engine.ValidateRule(b)
		b.ToMongoQuery("raw")
	}
	c13Same(a, b, true, "id, description and use do not change the text and hash")
}
