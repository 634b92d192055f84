package main

import (
	"strings"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// each part of the rule matches or not; symbolic one-character names
func Check_C02_parts() {
	r := starRule("r", "allow")
	ty := vxPick("rtype", "workload", "hostname", "*")
	r.Sender = MAPL_engine.Sender{SenderName: vxStr("sender", 1, 1, "ab"), SenderType: vxPick("stype", "workload", "*")}
	r.Receiver = MAPL_engine.Receiver{ReceiverName: vxStr("receiver", 1, 1, "ab"), ReceiverType: ty}
	r.Operation = vxStr("op", 1, 1, "GP")
	r.Protocol = "http"
	r.Resource = MAPL_engine.Resource{ResourceType: "path", ResourceName: vxStr("path", 1, 1, "/x")}
	m := &MAPL_engine.MessageAttributes{
		SourceService:      vxStr("m.sender", 1, 1, "ab"),
		DestinationService: vxStr("m.receiver", 1, 1, "ab"),
		RequestHost:        vxStr("m.host", 1, 1, "ab"),
		RequestMethod:      vxStr("m.op", 1, 1, "GP"),
		ContextProtocol:    "http", ContextType: "path",
		RequestPath:     vxStr("m.path", 1, 1, "/x"),
		DestinationPort: vxStr("m.port", 1, 1, "/x"),
		RequestSize:     vxInt64("m.size"),
	}
	var ok = true
	switch vxChoose("conds", 3) {
	case 1:
		node, err := MAPL_engine.ParseConditionsTree(cond("payloadSize", "GE", "7"))
		vxAssert(err == nil, "conditions are accepted")
		r.Conditions.ConditionsTree = node
		ok = m.RequestSize >= 7
	case 2:
		node, err := MAPL_engine.ParseConditionsTree(obj{"NOT": cond("payloadSize", "GE", "7")})
		vxAssert(err == nil, "conditions are accepted")
		r.Conditions.ConditionsTree = node
		ok = m.RequestSize < 7
	}
	want := vxAnd(ok, r.Sender.SenderName == m.SourceService)
	if ty == "hostname" {
		want = vxAnd(want, r.Receiver.ReceiverName == m.RequestHost)
	} else {
		want = vxAnd(want, r.Receiver.ReceiverName == m.DestinationService)
	}
	want = vxAnd(want, r.Operation == m.RequestMethod)
	want = vxAnd(want, r.Resource.ResourceName == m.RequestPath)
	got, _ := r.Check(m)
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.ALLOW, want), "applies exactly when all parts match")
	vxAssert(vxOr(got == MAPL_engine.ALLOW, got == MAPL_engine.DEFAULT), "gives its decision or default")
	if got == MAPL_engine.ALLOW {
		vxCover("applies")
	} else {
		vxCover("does not apply")
	}
}

// protocol and resource part
func Check_C02_protocol() {
	r := starRule("r", "block")
	r.Protocol = vxPick("proto", "*", "http", "HTTP", "tcp", "TCP", "Tcp", "kafka", "KAFKA")
	r.Resource = MAPL_engine.Resource{ResourceType: vxPick("rtype", "*", "path", "port", "kafkaTopic", "Path"), ResourceName: vxStr("name", 1, 1, "18")}
	m := &MAPL_engine.MessageAttributes{
		ContextProtocol: vxPick("m.proto", "", "http", "HTTP", "Http", "tcp", "TCP", "kafka"),
		ContextType:     vxPick("m.type", "", "path", "port", "kafkaTopic"),
		RequestPath:     vxStr("m.path", 0, 1, "18"),
		DestinationPort: vxStr("m.port", 0, 1, "18"),
		RequestMethod:   "GET",
	}
	var want bool
	switch {
	case r.Protocol == "*":
		want = true
	case strings.ToLower(r.Protocol) == "tcp":
		want = r.Resource.ResourceName == m.DestinationPort
	default:
		want = strings.ToLower(r.Protocol) == strings.ToLower(m.ContextProtocol)
		if r.Resource.ResourceType != "*" {
			want = vxAnd(want, r.Resource.ResourceType == m.ContextType)
		}
		want = vxAnd(want, r.Resource.ResourceName == m.RequestPath)
	}
	got, _ := r.Check(m)
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.BLOCK, want), "protocol and resource decide")
	vxAssert(vxOr(got == MAPL_engine.BLOCK, got == MAPL_engine.DEFAULT), "gives its decision or default")
	vxCover("end")
}

// protocols as arbitrary strings: the comparison ignores letter case only
func Check_C02_protocolcase() {
	r := starRule("r", "alert")
	n := 2
	if vxTier() == 1 {
		n = 3
	}
	r.Protocol = vxStr("proto", n, n, "aAbBtT1-")
	m := &MAPL_engine.MessageAttributes{ContextProtocol: vxStr("m.proto", n, n, "aAbBtT1-"), RequestPath: "p", ContextType: "t"}
	want := true
	for i := 0; i < n; i++ {
		x, y := r.Protocol[i], m.ContextProtocol[i]
		same := x == y
		same = vxOr(same, vxAnd(vxAnd(x >= 'a', x <= 'z'), y == x-32))
		same = vxOr(same, vxAnd(vxAnd(x >= 'A', x <= 'Z'), y == x+32))
		want = vxAnd(want, same)
	}
	got, _ := r.Check(m)
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.ALERT, want), "protocols compare regardless of case")
	vxCover("end")
}

// any decision text of five letters
func Check_C02_decision() {
	d := vxStr("decision", 4, 6, "abcklowertABCKLOWERT")
	r := starRule("r", d)
	got, _ := r.Check(&MAPL_engine.MessageAttributes{})
	vxObs("got", got)
	is := func(a, b, c string) bool { return vxOr(d == a, vxOr(d == b, d == c)) }
	vxAssert(vxIff(got == MAPL_engine.ALLOW, is("allow", "ALLOW", "Allow")), "allow spellings")
	vxAssert(vxIff(got == MAPL_engine.ALERT, is("alert", "ALERT", "Alert")), "alert spellings")
	vxAssert(vxIff(got == MAPL_engine.BLOCK, is("block", "BLOCK", "Block")), "block spellings")
	vxAssert(vxAnd(got >= MAPL_engine.DEFAULT, got <= MAPL_engine.BLOCK), "no other decision")
	if got != MAPL_engine.DEFAULT {
		vxCover("non-default")
	}
	vxCover("end")
}

// sender and receiver are not mixed up, hostname only looks at the host
func Check_C02_sides() {
	r := starRule("r", "allow")
	st := vxPick("stype", "workload", "*")
	rt := vxPick("rtype", "workload", "hostname", "*")
	r.Sender = MAPL_engine.Sender{SenderName: "a", SenderType: st}
	r.Receiver = MAPL_engine.Receiver{ReceiverName: "b", ReceiverType: rt}
	m := &MAPL_engine.MessageAttributes{SourceService: vxStr("ss", 1, 1, "ab"), DestinationService: vxStr("ds", 1, 1, "ab"), RequestHost: vxStr("host", 1, 1, "ab"), SourceIp: "b", DestinationIp: "a"}
	got, _ := r.Check(m)
	vxObs("got", got)
	want := m.SourceService == "a"
	if rt == "hostname" {
		want = vxAnd(want, m.RequestHost == "b")
	} else {
		want = vxAnd(want, m.DestinationService == "b")
	}
	vxAssert(vxIff(got == MAPL_engine.ALLOW, want), "each side looks at its own attribute")
	// the two tests on the prepared rule agree with it
	p := r.GetPreparedRule()
	vxAssert(vxIff(MAPL_engine.TestSender(p, m), m.SourceService == "a"), "sender test")
	vxCover("end")
}
