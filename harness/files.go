package main

import "github.com/octarinesec/MAPL/MAPL_engine"

// definitions of a file are those of its text
func Check_C12_file() {
	s, a := vxStr("s", 0, 2, "ab."), vxStr("a", 1, 2, "ab.")
	ref := vxPick("ref", "#s", "#t")
	text := "predefinedStrings:\n  s: \"" + s + "\"\npredefinedLists:\n  l:\n    - \"" + a + "\"\n    - \"" + ref + "\"\n"
	d, err := MAPL_engine.YamlReadStringListsFromFile(vxFile(text))
	vxAssert(vxIff(err == nil, ref == "#s"), "exactly the lists with undefined references are reported")
	if err == nil {
		vxAssert(d.PredefinedStrings["s"] == s, "strings are read")
		got := d.PredefinedListsWithoutRefs["l"]
		vxAssert(len(got) == 2 && got[0] == a && got[1] == s, "lists are read")
	}
	_, err = MAPL_engine.YamlReadStringListsFromFile("/vxfile/none")
	vxAssert(err != nil, "a missing file is reported")
	vxCover("end")
}

// messages of a file are those of its text
func Check_C19_file() {
	h := vxPick("h", "00", "09", "23")
	hv := int64(h[0]-'0')*10 + int64(h[1]-'0')
	proto := vxPick("proto", "HTTP", "http", "TCP", "tcp", "KAFKA")
	ip := "1.2.3." + vxPick("ip", "4", "200")
	label := vxStr("label", 1, 2, "ab.")
	bad := vxChoose("bad", 2) == 1
	when := "2018-07-29T" + h + ":30:00Z"
	if bad {
		when = "2018-07-29T" + h + ":60:00Z"
	}
	text := c19Head + yamlMessage("message_id", "1", "request_time", c19Time) +
		yamlMessage("message_id", "2", "request_time", when, "request_protocol", proto, "request_type", "topic", "sender_ip", ip, "sender_labels", "{k:"+label+"}")
	ms, err := MAPL_engine.YamlReadMessagesFromFile(vxFile(text))
	vxAssert(vxIff(err != nil, bad), "exactly unparsable timestamps make loading fail")
	if err == nil {
		vxAssert(len(ms.Messages) == 2, "two messages")
		m := ms.Messages[1]
		vxAssert(near(m.RequestTimeHoursFromMidnightUTC, 3600, hv*3600+1800), "hours since midnight")
		want := "topic"
		switch proto {
		case "HTTP", "http":
			want = "path"
		case "TCP", "tcp":
			want = "port"
		}
		vxObs("type", m.ContextType)
		vxAssert(m.ContextType == want, "the resource type follows from the protocol")
		vxAssert(m.SourceNetIp.String() == ip, "the address is that of the text")
		vxAssert(m.SourceLabels["k"] == label, "the labels are those of the text")
	}
	_, err = MAPL_engine.YamlReadMessagesFromFile("/vxfile/none")
	vxAssert(err != nil, "a missing file is reported")
	vxCover("end")
}

// rules of a file are those of its text
func Check_C20_file() {
	name, val := vxStr("name", 1, 2, "ab."), vxStr("val", 1, 2, "ab.")
	x := vxStr("x", 1, 2, "ab.")
	flow := vxChoose("flow", 2) == 1
	ref := vxPick("ref", "", "#s", "#t")
	broken := vxChoose("broken", 3)
	value := val
	if ref != "" {
		value = ref
	}
	tree := fields{{"attribute", "domain"}, {"method", "EQ"}, {"value", value}}
	if broken == 1 {
		tree = fields{{"attribute", "nothing"}, {"method", "EQ"}, {"value", value}}
	}
	text := rulesText(
		fields{{"ruleID", "0"}, {"sender", fields{{"senderName", "*"}, {"senderType", "*"}}}, {"decision", "allow"}},
		fields{{"ruleID", "1"}, {"sender", fields{{"senderName", name}, {"senderType", "workload"}}}, {"receiver", fields{{"receiverName", "*"}, {"receiverType", "*"}}},
			{"protocol", "*"}, {"resource", fields{{"resourceType", "*"}, {"resourceName", "*"}}}, {"operation", "*"}, {"conditions", tree}, {"decision", "block"}})
	str := yamlText(text, "")
	if flow {
		str = jsonText(text)
	}
	if broken == 2 {
		str = str[:len(str)-3]
	}
	d, err := defined(defs{PredefinedStrings: map[string]string{"s": val}})
	vxAssume(err == nil)
	var rules MAPL_engine.Rules
	with := vxChoose("with", 2) == 1
	if with {
		rules, err = MAPL_engine.YamlReadRulesFromFileWithPredefinedStrings(vxFile(str), d)
	} else {
		rules, err = MAPL_engine.YamlReadRulesFromFile(vxFile(str))
	}
	vxObs("error", err != nil)
	vxAssert(vxIff(err != nil, broken != 0 || with && ref == "#t"), "exactly malformed rules and undefined references make reading fail")
	if err == nil {
		vxAssert(len(rules.Rules) == 2, "two rules")
		r := &rules.Rules[1]
		vxAssert(r.RuleID == "1" && r.Sender.SenderName == name && r.Decision == "block" && rules.Rules[0].RuleID == "0", "every field holds the text written for it")
		if !with {
			err = r.SetPredefinedStringsAndLists(d)
			vxAssert(vxIff(err != nil, ref == "#t"), "undefined references are reported")
		}
		if err == nil {
			got, _ := r.Check(&MAPL_engine.MessageAttributes{SourceService: name, Domain: x})
			vxAssert(vxIff(got == MAPL_engine.BLOCK, x == val), "the conditions are those of the text")
		}
	}
	_, err = MAPL_engine.YamlReadRulesFromFile("/vxfile/none")
	vxAssert(err != nil, "a missing file is reported")
	_, err = MAPL_engine.YamlReadRulesFromFileWithPredefinedStrings("/vxfile/none", d)
	vxAssert(err != nil, "a missing file is reported")
	vxCover("end")
}
