package main

import (
	"strconv"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = vxAnd(same, a[i] == b[i])
	}
	return same
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkC18 compares the report with the table of results the rules were built to
// give: table[j][i] is what rule i gives for message j.
func checkC18(messages []MAPL_engine.MessageAttributes, rules []MAPL_engine.Rule, table [][]int) {
	ms := MAPL_engine.Messages{Messages: messages}
	rs := MAPL_engine.Rules{Rules: rules}
	mc, rc := MAPL_engine.Coverage(&ms, &rs)
	vxAssert(len(mc) == len(messages), "one entry per message")
	perRule := map[string][]string{}
	for i := range rules {
		perRule[rules[i].RuleID] = []string{}
	}
	for j := range messages {
		best := MAPL_engine.DEFAULT
		ids := []string{}
		decisions := []int{}
		for i, d := range table[j] {
			if d == MAPL_engine.DEFAULT {
				continue
			}
			if d > best {
				best = d
			}
			ids = append(ids, rules[i].RuleID)
			decisions = append(decisions, d)
			perRule[rules[i].RuleID] = append(perRule[rules[i].RuleID], messages[j].MessageID)
		}
		got := mc[messages[j].MessageID]
		vxObs("decision", got.Decision)
		vxAssert(got.Decision == best, "the decision of a message is the one checking it gives")
		vxAssert(got.Covered == (best != MAPL_engine.DEFAULT), "covered exactly when the decision is not default")
		vxAssert(sameStrings(got.IdsOfCoveringRules, ids), "the covering rules in rule order")
		vxAssert(sameInts(got.DecisionsOfCoveringRules, decisions), "the decisions of the covering rules in rule order")
		// and the same as a direct check
		dec, _, _, _, applied, _, _ := MAPL_engine.Check(&messages[j], &rs)
		vxAssert(dec == got.Decision, "same decision as a direct check")
		vxAssert(len(applied) == len(got.IdsOfCoveringRules), "same number of rules as a direct check")
	}
	vxAssert(len(rc) == len(perRule), "one entry per rule id")
	for id, want := range perRule {
		got, ok := rc[id]
		vxAssert(ok && got != nil, "every rule has an entry")
		vxAssert(sameStrings(got, want), "the messages a rule applied to, in message order")
	}
	vxCover("end")
}

func Check_C18_coverage() {
	nm, nr := vxChoose("messages", 3), vxChoose("rules", 4)
	if vxTier() == 1 {
		nm, nr = vxChoose("messages", 4), vxChoose("rules", 4)
	}
	rules := []MAPL_engine.Rule{}
	decs := []int{}
	sameId := vxChoose("same", 2) == 1
	for i := 0; i < nr; i++ {
		d := vxPick("decision", "allow", "alert", "block", "none")
		id := "r" + strconv.Itoa(nr-i)
		if sameId && i > 0 {
			id = rules[0].RuleID
		}
		r := starRule(id, d)
		node, err := MAPL_engine.ParseConditionsTree(cond("senderLabel[k"+strconv.Itoa(i)+"]", "EQ", "t"))
		vxAssume(err == nil)
		r.Conditions = MAPL_engine.ConditionsTree{ConditionsTree: node}
		rules = append(rules, r)
		decs = append(decs, decisionCode(d))
	}
	messages := []MAPL_engine.MessageAttributes{}
	table := [][]int{}
	for j := 0; j < nm; j++ {
		labels := map[string]string{}
		row := []int{}
		for i := range rules {
			v := vxByte("match", "tf")
			labels["k"+strconv.Itoa(i)] = string([]byte{v})
			w := MAPL_engine.DEFAULT
			if v == 't' {
				w = decs[i]
			}
			row = append(row, w)
		}
		messages = append(messages, MAPL_engine.MessageAttributes{MessageID: "m" + strconv.Itoa(nm-j), SourceLabels: labels})
		table = append(table, row)
	}
	checkC18(messages, rules, table)
}

// rules that match by names, messages with different senders and any ids
func Check_C18_names() {
	n := 2
	if vxTier() == 1 {
		n = 3
	}
	rules := []MAPL_engine.Rule{}
	names := []byte{}
	decs := []int{}
	for i := 0; i < n; i++ {
		d := vxPick("decision", "Allow", "BLOCK")
		b := vxByte("name", "ab")
		r := starRule(vxStr("id", 0, 1, "xy"), d)
		r.Sender.SenderName = string([]byte{b})
		rules, names, decs = append(rules, r), append(names, b), append(decs, decisionCode(d))
	}
	messages := []MAPL_engine.MessageAttributes{}
	table := [][]int{}
	ids := []string{}
	for j := 0; j < 2; j++ {
		b := vxByte("sender", "abc")
		id := vxStr("message", 0, 1, "xy")
		for _, o := range ids {
			vxAssume(o != id)
		}
		ids = append(ids, id)
		messages = append(messages, MAPL_engine.MessageAttributes{MessageID: id, SourceService: string([]byte{b})})
		row := []int{}
		for i := range rules {
			w := MAPL_engine.DEFAULT
			if names[i] == b {
				w = decs[i]
			}
			row = append(row, w)
		}
		table = append(table, row)
	}
	checkC18(messages, rules, table)
}
