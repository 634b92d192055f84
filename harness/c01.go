package main

import (
	"strconv"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// decisionCode is the meaning of a decision's spelling.
func decisionCode(s string) int {
	switch s {
	case "allow", "ALLOW", "Allow":
		return MAPL_engine.ALLOW
	case "alert", "ALERT", "Alert":
		return MAPL_engine.ALERT
	case "block", "BLOCK", "Block":
		return MAPL_engine.BLOCK
	}
	return MAPL_engine.DEFAULT
}

// starRule applies to every message.
func starRule(id, decision string) MAPL_engine.Rule {
	return MAPL_engine.Rule{RuleID: id, Sender: MAPL_engine.Sender{SenderName: "*", SenderType: "*"}, Receiver: MAPL_engine.Receiver{ReceiverName: "*", ReceiverType: "*"},
		Protocol: "*", Operation: "*", Resource: MAPL_engine.Resource{ResourceType: "*", ResourceName: "*"}, Decision: decision}
}

func checkC01(rules []MAPL_engine.Rule, want []int, desc []string, msg *MAPL_engine.MessageAttributes) {
	best, rel := MAPL_engine.DEFAULT, -1
	applied := []int{}
	for i, w := range want {
		if w > best {
			best, rel = w, i
		}
		if w != MAPL_engine.DEFAULT {
			applied = append(applied, i)
		}
	}
	rs := MAPL_engine.Rules{Rules: rules}
	dec, text, relevant, results, appliedIdx, description, extra := MAPL_engine.Check(msg, &rs)
	vxObs("decision", dec)
	vxObs("relevant", relevant)
	vxAssert(dec == best, "overall decision is the most restrictive one")
	vxAssert(text == MAPL_engine.DecisionNames[best], "decision text belongs to the decision")
	vxAssert(relevant == rel, "relevant rule is the first that reaches the decision")
	wantDesc := ""
	if rel >= 0 {
		wantDesc = desc[rel]
	}
	vxAssert(description == wantDesc, "description belongs to the relevant rule")
	vxAssert(len(results) == len(want) && len(extra) == len(want), "one result per rule")
	for i := range want {
		vxAssert(results[i] == want[i], "per-rule result in its own position")
	}
	vxAssert(len(appliedIdx) == len(applied), "number of applied rules")
	if len(appliedIdx) == len(applied) {
		for i := range applied {
			vxAssert(appliedIdx[i] == applied[i], "applied rules in ascending order")
		}
	}
	// each rule on its own gives the same
	for i := range rules {
		r := rules[i]
		one, _ := r.Check(msg)
		vxAssert(one == want[i], "a rule alone gives its result")
		two, _ := MAPL_engine.CheckOneRule(msg, &rules[i])
		vxAssert(two == want[i], "a rule checked again gives its result")
	}
	vxCover("end")
	if best == MAPL_engine.BLOCK {
		vxCover("block")
	}
}

// lists of rules with any match pattern and decisions
func Check_C01_lists() {
	n := vxChoose("n", 4)
	if vxTier() == 1 {
		n = vxChoose("n", 5)
	}
	msg := &MAPL_engine.MessageAttributes{SourceService: "a"}
	rules := []MAPL_engine.Rule{}
	want := []int{}
	desc := []string{}
	for i := 0; i < n; i++ {
		d := vxPick("decision", "allow", "alert", "block", "")
		r := starRule("r"+strconv.Itoa(i), d)
		b := vxByte("sender", "ab")
		r.Sender.SenderName = string([]byte{b})
		w := MAPL_engine.DEFAULT
		if b == 'a' {
			w = decisionCode(d)
		}
		t := "d" + strconv.Itoa(i)
		r.Metadata = map[string]string{"description": t, "other": "x"}
		rules, want, desc = append(rules, r), append(want, w), append(desc, t)
	}
	checkC01(rules, want, desc, msg)
}

// every spelling of the decisions, also mixed in a list
func Check_C01_spellings() {
	msg := &MAPL_engine.MessageAttributes{}
	rules := []MAPL_engine.Rule{}
	want := []int{}
	desc := []string{}
	for i := 0; i < 2; i++ {
		d := vxPick("decision", "allow", "ALLOW", "Allow", "alert", "ALERT", "Alert", "block", "BLOCK", "Block", "", "none", "aLLOW", "default")
		rules, want, desc = append(rules, starRule("r", d)), append(want, decisionCode(d)), append(desc, "")
	}
	checkC01(rules, want, desc, msg)
}

// descriptions present, absent or empty, with other metadata
func Check_C01_descriptions() {
	msg := &MAPL_engine.MessageAttributes{}
	rules := []MAPL_engine.Rule{}
	want := []int{}
	desc := []string{}
	n := 3
	for i := 0; i < n; i++ {
		d := vxPick("decision", "allow", "block", "-")
		r := starRule("r", d)
		t := ""
		switch vxChoose("desc", 4) {
		case 1:
			t = vxStr("text", 1, 1, "xy")
			r.Metadata = map[string]string{"description": t}
		case 2:
			r.Metadata = map[string]string{"name": "n"}
		case 3:
			t = "a longer one"
			r.Metadata = map[string]string{"name": "n", "description": t}
		}
		rules, want, desc = append(rules, r), append(want, decisionCode(d)), append(desc, t)
	}
	checkC01(rules, want, desc, msg)
}

// rules that match through their conditions and documents of different kinds
func Check_C01_conditions() {
	size := vxInt64("size")
	agent := vxStr("agent", 1, 1, "uv")
	msg := &MAPL_engine.MessageAttributes{RequestSize: size, RequestUseragent: agent}
	n := 2
	if vxTier() == 1 {
		n = 3
	}
	rules := []MAPL_engine.Rule{}
	want := []int{}
	desc := []string{}
	for i := 0; i < n; i++ {
		d := vxPick("decision", "allow", "alert", "block")
		r := starRule("r"+strconv.Itoa(i), d)
		var c obj
		var t bool
		switch vxChoose("cond", 3) {
		case 0:
			c, t = cond("payloadSize", "GT", "100"), size > 100
		case 1:
			c, t = cond("payloadSize", "LE", "50"), size <= 50
		case 2:
			c, t = cond("requestUseragent", "EQ", "u"), agent == "u"
		}
		node, err := MAPL_engine.ParseConditionsTree(c)
		vxAssert(err == nil, "conditions are accepted")
		r.Conditions.ConditionsTree = node
		w := MAPL_engine.DEFAULT
		if t {
			w = decisionCode(d)
		}
		rules, want, desc = append(rules, r), append(want, w), append(desc, "")
	}
	checkC01(rules, want, desc, msg)
}
