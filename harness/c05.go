package main

import (
	"strconv"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// ---- helpers shared by several properties ----

type obj = map[string]interface{}
type arr = []interface{}

func cond(attr, method, value string) obj {
	return obj{"attribute": attr, "method": method, "value": value}
}

// toYaml turns a JSON-like decoded tree into the YAML-like form.
func toYaml(v interface{}) interface{} {
	switch v := v.(type) {
	case obj:
		r := map[interface{}]interface{}{}
		for k, x := range v {
			r[k] = toYaml(x)
		}
		return r
	case arr:
		r := make(arr, len(v))
		for i := range v {
			r[i] = toYaml(v[i])
		}
		return r
	}
	return v
}

func parseRule(tree interface{}) *MAPL_engine.Rule {
	node, err := MAPL_engine.ParseConditionsTree(tree)
	vxAssert(err == nil, "a well formed tree is accepted")
	vxAssume(err == nil)
	return &MAPL_engine.Rule{RuleID: "r", Sender: MAPL_engine.Sender{SenderName: "*", SenderType: "*"}, Receiver: MAPL_engine.Receiver{ReceiverName: "*", ReceiverType: "*"}, Protocol: "*", Operation: "*",
		Conditions: MAPL_engine.ConditionsTree{ConditionsTree: node}, Decision: "allow"}
}

// leaves are conditions on sender labels whose values are symbolic
type c05 struct {
	n      int
	labels map[string]string
}

func (g *c05) leaf() (interface{}, bool) {
	k := "l" + strconv.Itoa(g.n)
	g.n++
	v := vxByte("leaf", "tf")
	g.labels[k] = string([]byte{v})
	return cond("senderLabel["+k+"]", "EQ", "t"), v == 't'
}

func (g *c05) tree(depth, maxKids, minKids int) (interface{}, bool) {
	kind := 0
	if depth > 0 {
		kind = vxChoose("kind", 4)
	}
	switch kind {
	case 1, 2:
		n := minKids + vxChoose("kids", maxKids-minKids+1)
		kids := arr{}
		truth := kind == 1
		for i := 0; i < n; i++ {
			k, t := g.tree(depth-1, maxKids, minKids)
			kids = append(kids, k)
			if kind == 1 {
				truth = vxAnd(truth, t)
			} else {
				truth = vxOr(truth, t)
			}
		}
		if kind == 1 {
			return obj{"AND": kids}, truth
		}
		return obj{"OR": kids}, truth
	case 3:
		k, t := g.tree(depth-1, maxKids, minKids)
		return obj{"NOT": k}, !t
	}
	return g.leaf()
}

func (g *c05) check(tree interface{}, truth bool, label string) {
	rule := parseRule(tree)
	msg := &MAPL_engine.MessageAttributes{SourceLabels: g.labels}
	got, _ := rule.TestConditions(msg)
	vxObs("got", got)
	vxAssert(vxIff(got, truth), label)
}

func Check_C05_shapes() {
	g := &c05{labels: map[string]string{}}
	kids := 2 + vxTier()
	depth := 2
	tree, truth := g.tree(depth, kids, 1)
	if vxTier() == 1 && vxChoose("form", 2) == 1 {
		tree = toYaml(tree)
	}
	g.check(tree, truth, "tree equals the formula it spells")
	vxCover("end")
}

// an AND or OR without operands, alone or inside another node
func Check_C05_empty() {
	g := &c05{labels: map[string]string{}}
	var e interface{}
	var truth bool
	if vxChoose("op", 2) == 0 {
		e, truth = obj{"AND": arr{}}, true
	} else {
		e, truth = obj{"OR": arr{}}, false
	}
	l, t := g.leaf()
	switch vxChoose("place", 4) {
	case 1:
		e, truth = obj{"NOT": e}, !truth
	case 2:
		e, truth = obj{"AND": arr{l, e}}, vxAnd(t, truth)
	case 3:
		e, truth = obj{"OR": arr{e, l}}, vxOr(t, truth)
	}
	g.check(e, truth, "an empty AND is true and an empty OR is false")
	vxCover("end")
}

// wrap spells the same node in one of the optional ways.
func wrap(v interface{}, isCond bool) interface{} {
	switch vxChoose("wrap", 6) {
	case 1:
		return obj{"condition": v}
	case 2:
		return obj{"conditionsTree": v}
	case 3:
		return obj{"conditions": v}
	case 4:
		return arr{v}
	case 5:
		return obj{"conditionsTree": obj{"condition": v}}
	}
	return v
}

func Check_C05_spelling() {
	g := &c05{labels: map[string]string{}}
	a, ta := g.leaf()
	var tree interface{}
	var truth bool
	switch vxChoose("shape", 5) {
	case 0:
		tree, truth = wrap(a, true), ta
	case 1:
		b, tb := g.leaf()
		tree, truth = wrap(obj{"AND": arr{wrap(a, true), b}}, false), vxAnd(ta, tb)
	case 2:
		b, tb := g.leaf()
		tree, truth = wrap(obj{"OR": arr{b, wrap(a, true)}}, false), vxOr(ta, tb)
	case 3:
		b, tb := g.leaf()
		tree, truth = obj{"AND": arr{wrap(obj{"OR": arr{a, b}}, false)}}, vxOr(ta, tb)
	case 4:
		tree, truth = wrap(obj{"NOT": obj{"condition": a}}, false), !ta
	}
	if vxChoose("form", 2) == 1 {
		tree = toYaml(tree)
	}
	g.check(tree, truth, "the spelling does not change the result")
	vxCover("end")
}

// operands written as a single map instead of a list
func Check_C05_single() {
	g := &c05{labels: map[string]string{}}
	ops := []string{"AND", "OR", "NOT"}
	op := vxChoose("op", 3)
	inner, t := g.tree(1, 2, 1)
	var tree interface{} = obj{ops[op]: inner}
	if vxChoose("list", 2) == 1 {
		tree = obj{ops[op]: arr{inner}}
	}
	if op == 2 {
		t = !t
	}
	if vxChoose("form", 2) == 1 {
		tree = toYaml(tree)
	}
	g.check(tree, t, "a single operand may be written without a list")
	vxCover("end")
}

// a narrow but deep tree
func Check_C05_deep() {
	g := &c05{labels: map[string]string{}}
	depth := 4
	if vxTier() == 1 {
		depth = 5
	}
	tree, truth := g.leaf()
	for i := 0; i < depth; i++ {
		switch vxChoose("op", 5) {
		case 0:
			tree, truth = obj{"NOT": tree}, !truth
		case 1:
			l, t := g.leaf()
			tree, truth = obj{"AND": arr{l, tree}}, vxAnd(truth, t)
		case 2:
			l, t := g.leaf()
			tree, truth = obj{"AND": arr{tree, l}}, vxAnd(truth, t)
		case 3:
			l, t := g.leaf()
			tree, truth = obj{"OR": arr{l, tree}}, vxOr(truth, t)
		case 4:
			l, t := g.leaf()
			tree, truth = obj{"OR": arr{tree, l}}, vxOr(truth, t)
		}
	}
	g.check(tree, truth, "deep tree equals the formula it spells")
	vxCover("end")
}

// one node with many operands
func Check_C05_wide() {
	g := &c05{labels: map[string]string{}}
	n := 5
	if vxTier() == 1 {
		n = 9
	}
	n = 3 + vxChoose("n", n-2)
	and := vxChoose("op", 2) == 0
	kids := arr{}
	truth := and
	for i := 0; i < n; i++ {
		l, t := g.leaf()
		kids = append(kids, l)
		if and {
			truth = vxAnd(truth, t)
		} else {
			truth = vxOr(truth, t)
		}
	}
	if and {
		g.check(obj{"AND": kids}, truth, "AND of many")
	} else {
		g.check(obj{"OR": kids}, truth, "OR of many")
	}
	vxCover("end")
}
