package main

import (
	"strings"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

const c08Attributes = 9

// c08Message is a message whose k-th string attribute has the given value; all
// the others carry a value that occurs in no condition.
func c08Message(k int, val string) (string, *MAPL_engine.MessageAttributes) {
	const q = "QQ"
	m := &MAPL_engine.MessageAttributes{RequestUseragent: q, EncryptionType: q, Domain: q, SourceNamespace: q, DestinationNamespace: q,
		SourceCluster: q, DestinationCluster: q, SourceService: q, DestinationService: q, RequestHost: q, RequestPath: q, RequestMethod: q,
		SourceLabels: map[string]string{"k": q, "j": q}, DestinationLabels: map[string]string{"k": q, "j": q}}
	switch k {
	case 0:
		m.RequestUseragent = val
		return "requestUseragent", m
	case 1:
		m.EncryptionType = val
		return "encryptionType", m
	case 2:
		m.Domain = val
		return "domain", m
	case 3:
		m.SourceNamespace = val
		return "$sender.namespace", m
	case 4:
		m.DestinationNamespace = val
		return "$receiver.namespace", m
	case 5:
		m.SourceCluster = val
		return "$sender.cluster", m
	case 6:
		m.DestinationCluster = val
		return "$receiver.cluster", m
	case 7:
		m.SourceLabels["k"] = val
		return "senderLabel[k]", m
	}
	m.DestinationLabels["k"] = val
	return "receiverLabel[k]", m
}

// strMethod is a method of a family in either letter case and whether it is the
// negated one.
func strMethod(name string, yes, no string) (string, bool) {
	switch vxChoose(name, 4) {
	case 0:
		return yes, false
	case 1:
		return strings.ToLower(yes), false
	case 2:
		return no, true
	}
	return strings.ToLower(no), true
}

// EQ with wildcards on each attribute
func Check_C08_equal() {
	n := 3
	if vxTier() == 1 {
		n = 4
	}
	pat := vxStr("pat", 0, n, "aB.*?")
	val := vxStr("val", 0, n, "aB.\n")
	attr, m := c08Message(vxChoose("attr", c08Attributes), val)
	method, neg := "NE", true
	switch vxChoose("spelling", 3) {
	case 0:
		method, neg = strMethod("method", "EQ", "NEQ")
	case 1:
		method = "ne"
	}
	got := holds(cond(attr, method, pat), m)
	vxObs("got", got)
	vxAssert(vxIff(got, wildMatch(pat, val) != neg), "EQ compares the whole attribute with the value and its wildcards")
	vxCover("end")
}

// characters that mean something in regular expressions are ordinary characters
func Check_C08_literal() {
	n := 3
	const special = "/$^+|()[]{}\\ -"
	pat := vxStr("pat", 1, n, "a*"+special)
	val := vxStr("val", 0, n, "a"+special)
	attr, m := c08Message(vxChoose("attr", 2)*7, val)
	got := holds(cond(attr, "EQ", pat), m)
	vxObs("got", got)
	vxAssert(vxIff(got, wildMatch(pat, val)), "other characters of an EQ value stand for themselves")
	vxCover("end")
}

// a longer value
func Check_C08_long() {
	pat := vxPick("head", "", "*", "?", "a") + vxStr("pat", 2, 3, "ab") + vxPick("tail", "", "*", "?", ".")
	val := vxStr("val", 3, 5, "ab.\n")
	attr, m := c08Message(vxChoose("attr", 3)*3, val)
	method, neg := strMethod("method", "EQ", "NEQ")
	got := holds(cond(attr, method, pat), m)
	vxObs("got", got)
	vxAssert(vxIff(got, wildMatch(pat, val) != neg), "EQ compares the whole attribute with the value and its wildcards")
	vxCover("end")
}

// c08Regex is a regular expression and whether it finds a match in val.
func c08Regex(val string) (string, bool) {
	lit := vxStr("lit", 1, 2, "aB-")
	n := len(val)
	prefix, suffix := false, false
	if n >= len(lit) {
		prefix, suffix = val[:len(lit)] == lit, val[n-len(lit):] == lit
	}
	other := vxByte("lit2", "aB-")
	o := string([]byte{other})
	switch vxChoose("re", 7) {
	case 0:
		return lit, vxContains(val, lit)
	case 1:
		return "^" + lit, prefix
	case 2:
		return lit + "$", suffix
	case 3:
		return "^" + lit + "$", val == lit
	case 4:
		return lit + "|" + o, vxOr(vxContains(val, lit), vxContains(val, o))
	case 5: // one character in between
		found := false
		for i := 0; i+len(lit)+1 < n; i++ {
			found = vxOr(found, vxAnd(val[i:i+len(lit)] == lit, val[i+len(lit)+1] == other))
		}
		return lit + "." + o, found
	}
	found := false
	for i := 0; i+len(lit) <= n; i++ {
		for j := i + len(lit); j < n; j++ {
			found = vxOr(found, vxAnd(val[i:i+len(lit)] == lit, val[j] == other))
		}
	}
	return lit + ".*" + o, found
}

func Check_C08_regex() {
	max := 3
	if vxTier() == 1 {
		max = 4
	}
	val := vxStr("val", 0, max, "aB-Z.")
	pat, want := c08Regex(val)
	attr, m := c08Message(vxChoose("attr", c08Attributes), val)
	method, neg := strMethod("method", "RE", "NRE")
	got := holds(cond(attr, method, pat), m)
	vxObs("got", got)
	vxAssert(vxIff(got, want != neg), "RE searches the attribute for the regular expression")
	vxCover("end")
}

func Check_C08_lists() {
	max := 2
	if vxTier() == 1 {
		max = 3
	}
	val := vxStr("val", 0, 2, "aB-Z")
	n := 1 + vxChoose("items", max)
	list := ""
	want := false
	for i := 0; i < n; i++ {
		item := vxStr("item", 1, 2, "aB-")
		if i > 0 {
			list += ","
		}
		list += item
		want = vxOr(want, item == val)
	}
	if vxChoose("brackets", 2) == 1 {
		list = "[" + list + "]"
	}
	attr, m := c08Message(vxChoose("attr", c08Attributes), val)
	method, neg := "IS", false
	if vxChoose("is", 2) == 0 {
		method, neg = strMethod("method", "IN", "NIN")
	}
	got := holds(cond(attr, method, list), m)
	vxObs("got", got)
	vxAssert(vxIff(got, want != neg), "IN tests whether the attribute is one of the listed values")
	vxCover("end")
}

func Check_C08_exists() {
	val := vxStr("val", 0, 2, "aB.*")
	k := vxChoose("attr", c08Attributes)
	attr, m := c08Message(k, val)
	present := len(val) > 0
	if k >= 7 {
		present = true
		if vxChoose("absent", 2) == 1 {
			present = false
			if vxChoose("none", 2) == 1 {
				m.SourceLabels, m.DestinationLabels = nil, nil
			} else if k == 7 {
				delete(m.SourceLabels, "k")
			} else {
				delete(m.DestinationLabels, "k")
			}
		}
	}
	method, neg := strMethod("method", "EX", "NEX")
	got := holds(cond(attr, method, vxStr("value", 0, 1, "aB*")), m)
	vxObs("got", got)
	vxAssert(vxIff(got, present != neg), "EX tests whether the attribute is present, NEX whether it is not")
	vxCover("end")
}

// a label the message does not carry
func Check_C08_absent() {
	k := 7 + vxChoose("side", 2)
	attr, m := c08Message(k, "a")
	switch vxChoose("none", 3) {
	case 0:
		m.SourceLabels, m.DestinationLabels = nil, nil
	case 1:
		delete(m.SourceLabels, "k")
		delete(m.DestinationLabels, "k")
	default: // only the other side carries it
		if k == 7 {
			delete(m.SourceLabels, "k")
		} else {
			delete(m.DestinationLabels, "k")
		}
	}
	method := vxPick("method", "EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "IS", "EX", "eq", "neq", "ne", "re", "nre", "in", "nin", "ex")
	got := holds(cond(attr, method, vxStr("value", 1, 2, "aQ")), m)
	vxObs("got", got)
	vxAssert(!got, "a condition on a label the message does not carry is false")
	vxCover("end")
}

// the label is looked up by the whole key
func Check_C08_keys() {
	const keys = "ab./-"
	key := vxStr("key", 1, 2, keys)
	a, b := vxStr("a", 1, 2, keys), vxStr("b", 1, 2, keys)
	vxAssume(a != b)
	va, vb := vxByte("va", "xy"), vxByte("vb", "xy")
	labels := map[string]string{a: string([]byte{va}), b: string([]byte{vb})}
	other := map[string]string{key: "x"}
	attr := "senderLabel[" + key + "]"
	m := &MAPL_engine.MessageAttributes{SourceLabels: labels, DestinationLabels: other}
	if vxChoose("side", 2) == 1 {
		attr = "receiverLabel[" + key + "]"
		m = &MAPL_engine.MessageAttributes{SourceLabels: other, DestinationLabels: labels}
	}
	method, neg := strMethod("method", "EQ", "NEQ")
	got := holds(cond(attr, method, "x"), m)
	vxObs("got", got)
	want := vxOr(vxAnd(key == a, (va == 'x') != neg), vxAnd(key == b, (vb == 'x') != neg))
	vxAssert(vxIff(got, want), "a label condition reads the label with exactly that key")
	vxCover("end")
}

// sender labels against receiver labels
func Check_C08_labels() {
	a, b := vxStr("a", 0, 2, "aB.*?"), vxStr("b", 0, 2, "aB.*?")
	m := &MAPL_engine.MessageAttributes{SourceLabels: map[string]string{"j": b}, DestinationLabels: map[string]string{"k": a}}
	hasA, hasB := vxBool("hasA"), vxBool("hasB")
	if hasA {
		m.SourceLabels["k"] = a
	}
	if hasB {
		m.DestinationLabels["j"] = b
	}
	method := vxPick("method", "EQ", "eq", "NEQ", "neq", "NE", "ne")
	neg := method != "EQ" && method != "eq"
	got := holds(cond("senderLabel[k]", method, "receiverLabel[j]"), m)
	vxObs("got", got)
	vxAssert(vxIff(got, vxAnd(vxAnd(hasA, hasB), (a == b) != neg)), "two labels are compared literally")
	vxCover("end")
}

// sender attributes against receiver attributes
func Check_C08_sides() {
	a, b := vxStr("a", 0, 2, "aB.*?"), vxStr("b", 0, 2, "aB.*?")
	what := vxPick("sender", "namespace", "cluster")
	with := vxPick("receiver", "namespace", "cluster")
	m := &MAPL_engine.MessageAttributes{SourceNamespace: "a", SourceCluster: "a", DestinationNamespace: "a", DestinationCluster: "a"}
	if what == "namespace" {
		m.SourceNamespace = a
	} else {
		m.SourceCluster = a
	}
	if with == "namespace" {
		m.DestinationNamespace = b
	} else {
		m.DestinationCluster = b
	}
	method := vxPick("method", "EQ", "eq", "NEQ", "neq", "NE", "ne")
	neg := method != "EQ" && method != "eq"
	got := holds(cond("$sender."+what, method, "$receiver."+with), m)
	vxObs("got", got)
	vxAssert(vxIff(got, (a == b) != neg), "a sender attribute is compared literally with a receiver attribute")
	vxCover("end")
}
