package main

import (
	"strconv"
	"strings"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// Larger inputs of which a part anywhere varies.

// longText is a text of the given length over lower-case letters and hyphens
// with one variable character at a variable place, and that place.
func longText(name string, n int, alphabet string) (string, int) {
	const base = "kube-system-node-exporter-metrics-7f9c-service-cluster-local-example"
	at := []int{0, n / 2, n - 1}[vxChoose(name+".at", 3)]
	return base[:at] + string([]byte{vxByte(name, alphabet)}) + base[at+1:n], at
}

func plainText(n int) string {
	return "kube-system-node-exporter-metrics-7f9c-service-cluster-local-example"[:n]
}

// many rules of which two vary
func Check_C01_many() {
	n := 6 + 5*vxChoose("n", 2)
	at := []int{0, 1, n / 2, n - 2, n - 1}
	i := at[vxChoose("i", 5)]
	j := at[vxChoose("j", 5)]
	vxAssume(i < j)
	filler := vxPick("filler", "none", "allow", "alert")
	msg := &MAPL_engine.MessageAttributes{SourceService: "a"}
	rules := []MAPL_engine.Rule{}
	want := []int{}
	desc := []string{}
	for k := 0; k < n; k++ {
		d, name := filler, "a"
		if filler == "none" {
			d, name = "block", "b"
		}
		if k == i || k == j {
			d = vxPick("decision", "allow", "alert", "block")
			name = string([]byte{vxByte("sender", "ab")})
		}
		w := MAPL_engine.DEFAULT
		if name == "a" {
			w = decisionCode(d)
		}
		r := starRule("r"+strconv.Itoa(k), d)
		r.Sender.SenderName = name
		t := "d" + strconv.Itoa(k)
		r.Metadata = map[string]string{"description": t}
		rules, want, desc = append(rules, r), append(want, w), append(desc, t)
	}
	checkC01(rules, want, desc, msg)
}

// long names, anywhere in a long list
func Check_C03_many() {
	k := vxChoose("field", 6)
	n := 12 + 18*vxChoose("long", 2)
	pat, _ := longText("pat", n, "*?k-.x")
	val := plainText(n)
	val, _ = longText("val", n, "ek.-Zs")
	if vxChoose("short", 2) == 1 {
		val = plainText(n - 1)
	}
	items := []string{"first", "second-a", "third.b", "/fourth", "fifth-*-x", "sixth?"}
	at := []int{0, 3, 6}[vxChoose("at", 3)]
	list := append(append(append([]string{}, items[:at]...), pat), items[at:]...)
	got := c03Field(k, strings.Join(list, ","), val)
	vxObs("got", got)
	vxAssert(vxIff(got, wildMatch(pat, val)), "a long name anywhere in a long list")
	vxCover("end")
}

// several wildcards in one pattern
func Check_C03_wildcards() {
	k := vxChoose("field", 6)
	pat := vxPick("pat", "a*b*a", "*a*b*", "?a?b", "**a", "a**", "*?*", "??*", "*??", "a?*b", "*.*.a", "?*?", "a.?*")
	val := vxStr("val", 1, 5, "ab.")
	got := c03Field(k, pat, val)
	vxObs("got", got)
	vxAssert(vxIff(got, wildMatch(pat, val)), "every wildcard of a pattern counts")
	vxCover("end")
}

// a long list of subnets
func Check_C04_many() {
	side := vxChoose("side", 2)
	at, a := address("addr", [4]int{2, 1, 1, 1})
	m := &MAPL_engine.MessageAttributes{SourceIp: at, DestinationIp: "9.9.9.9"}
	if side == 1 {
		m.SourceIp, m.DestinationIp = "9.9.9.9", at
	}
	MAPL_engine.AddNetIpToMessage(m)
	items := []string{"192.168.1.1", "172.16.0.0/12", "192.168.0.0/24", "203.0.113.7", "198.51.100.0/25"}
	entry, n := address("entry", [4]int{2, 1, 1, 1})
	want := n == a
	if vxChoose("cidr", 2) == 1 {
		entry += "/22"
		want = inNet(n, 22, a)
	}
	i := vxChoose("at", len(items)+1)
	list := append(append(append([]string{}, items[:i]...), entry), items[i:]...)
	got, _ := subnetRule(side, strings.Join(list, vxPick("sep", ",", ", "))).Check(m)
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.ALLOW, want), "an entry anywhere in a long list")
	vxCover("end")
}

// many operands of which one varies, with trees among them
func Check_C05_many() {
	g := &c05{labels: map[string]string{}}
	n := []int{6, 10, 17}[vxChoose("n", 3)]
	at := vxChoose("at", n)
	and := vxChoose("op", 2) == 0
	op, other := "AND", "OR"
	if !and {
		op, other = other, op
	}
	kids := arr{}
	truth := and
	for i := 0; i < n; i++ {
		var l interface{} = cond("true", "EQ", "")
		if !and {
			l = cond("false", "EQ", "")
		}
		if i == at {
			t := false
			l, t = g.leaf()
			switch vxChoose("kid", 3) {
			case 0:
				l, t = obj{"NOT": l}, !t
			case 1:
				m, u := g.leaf()
				l = obj{other: arr{l, m}}
				if and {
					t = vxOr(t, u)
				} else {
					t = vxAnd(t, u)
				}
			}
			truth = t
		}
		kids = append(kids, l)
	}
	g.check(obj{op: kids}, truth, "one operand of many")
	vxCover("end")
}

// manyElements are n elements of which one varies, and the place of that one.
func manyElements(fill string, fillTruth bool) ([]string, []bool) {
	n := []int{5, 12}[vxChoose("n", 2)]
	at := []int{0, 1, n - 2, n - 1}[vxChoose("at", 4)]
	var texts []string
	var truths []bool
	for i := 0; i < n; i++ {
		c, t := fill, fillTruth
		if i == at {
			c, t = tf("x")
		}
		texts = append(texts, `{"i":`+strconv.Itoa(i)+`,"y":{"x":[{"x":"t"},"}]"]},"x":"`+c+`"}`)
		truths = append(truths, t)
	}
	return texts, truths
}

func c06Many() (interface{}, string, bool) {
	all := vxChoose("all", 2) == 1
	fill, t := "f", false
	if vxChoose("fill", 2) == 1 {
		fill, t = "t", true
	}
	texts, truths := manyElements(fill, t)
	parent := vxPick("parent", "jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:$.l[*]", "jsonpath:$..l[:]")
	tree, want := quantify(all, parent, cond("jsonpath:$RELATIVE.x", "EQ", "t"), truths)
	return tree, `{"x":"t","l":[` + join(texts) + `]}`, want
}

// many elements of which one varies
func Check_C06_many() {
	tree, doc, want := c06Many()
	c06Check(tree, doc, want, "one element of many")
}

func Check_C10_many() {
	tree, doc, _ := c06Many()
	sameForms(tree, doc)
}

// many entries of an object of which one varies
func Check_C06_manyentries() {
	n := []int{5, 12}[vxChoose("n", 2)]
	at := vxChoose("at", n)
	var texts []string
	var truths []bool
	for i := 0; i < n; i++ {
		c, t := "f", false
		if i == at {
			c, t = tf("v")
		}
		texts = append(texts, `"key`+strconv.Itoa(i)+`":"`+c+`"`)
		truths = append(truths, t)
	}
	tree, want := quantify(false, "jsonpath:$.m", obj{"AND": arr{cond("jsonpath:$VALUE", "EQ", "t"), cond("jsonpath:$KEY", "EQ", "key"+strconv.Itoa(at))}}, truths)
	if vxChoose("all", 2) == 1 {
		tree = obj{"NOT": obj{"ALL": obj{"parentJsonpathAttribute": "jsonpath:$.m", "condition": cond("jsonpath:$VALUE", "NEQ", "t")}}}
	}
	c06Check(tree, `{"m":{`+join(texts)+`}}`, want, "one entry of many")
}

// numbers of many digits
func Check_C07_many() {
	n := []int{8, 12, 15}[vxChoose("n", 3)]
	at := []int{0, n / 2, n - 1}[vxChoose("at", 3)]
	const base = "123456789123456789"
	d := vxByte("d", "123456789")
	text := base[:at] + string([]byte{d}) + base[at+1:n]
	v := int64(0)
	for i := 0; i < n; i++ {
		v = v*10 + int64(text[i]-'0')
	}
	method, op := numMethod("method")
	size := vxInt64("size")
	got := holds(cond("payloadSize", method, text), &MAPL_engine.MessageAttributes{RequestSize: size})
	vxObs("got", got)
	vxAssert(vxIff(got, cmpInt(op, size, v)), "numbers of many digits are exact")
	vxCover("end")
}

// long values and long lists
func Check_C08_many() {
	n := 12 + 18*vxChoose("long", 2)
	val, _ := longText("val", n, "ek.-Z")
	attr, m := c08Message(vxChoose("attr", c08Attributes), val)
	method, neg, want, value := "", false, false, ""
	switch vxChoose("method", 3) {
	case 0:
		method, neg = strMethod("eq", "EQ", "NEQ")
		value, _ = longText("value", n, "*?ek")
		want = wildMatch(value, val)
	case 1:
		method, neg = strMethod("in", "IN", "NIN")
		items := []string{"first", "second-a", "third", "fourth", "fifth"}
		item, _ := longText("value", n, "ek")
		at := vxChoose("at", len(items)+1)
		value = join(append(append(append([]string{}, items[:at]...), item), items[at:]...))
		want = item == val
	default:
		method, neg = strMethod("re", "RE", "NRE")
		value = "^" + plainText(4) + ".*" + plainText(n)[n-3:] + "$"
		want = vxAnd(val[:4] == plainText(4), val[n-3:] == plainText(n)[n-3:])
	}
	got := holds(cond(attr, method, value), m)
	vxObs("got", got)
	vxAssert(vxIff(got, want != neg), "long values follow the method")
	vxCover("end")
}

// a label among many
func Check_C08_manylabels() {
	at := vxChoose("at", 8)
	labels, others := map[string]string{}, map[string]string{}
	c := string([]byte{vxByte("c", "tf")})
	for i := 0; i < 8; i++ {
		v := "f"
		if i == at {
			v = c
		}
		labels["app.kubernetes.io/name-"+strconv.Itoa(i)] = v
		others["app.kubernetes.io/name-"+strconv.Itoa(i)] = "q"
	}
	key := vxChoose("key", 9)
	attr := "senderLabel[app.kubernetes.io/name-" + strconv.Itoa(key) + "]"
	m := &MAPL_engine.MessageAttributes{SourceLabels: labels, DestinationLabels: others}
	if vxChoose("side", 2) == 1 {
		attr = "receiver" + attr[len("sender"):]
		m.SourceLabels, m.DestinationLabels = others, labels
	}
	method, neg := strMethod("method", "EQ", "NEQ")
	got := holds(cond(attr, method, "t"), m)
	want := vxAnd(key == at, c == "t") != neg
	if key == 8 {
		want = false
	}
	vxObs("got", got)
	vxAssert(vxIff(got, want), "the label with that key is compared")
	vxCover("end")
}

// c09Many places a value in a large document.
func c09Many(v string) (string, string) {
	var items []string
	switch vxChoose("where", 4) {
	case 0: // an element of a long array
		at := []int{0, 1, 9, 10, 11}[vxChoose("at", 5)]
		for i := 0; i < 12; i++ {
			items = append(items, `"w`+strconv.Itoa(i)+`"`)
		}
		items[at] = `"` + v + `"`
		return `{"l":[` + join(items) + `]}`, "jsonpath:$.l[" + strconv.Itoa(at) + "]"
	case 1: // a field of an object in a long array
		at := []int{0, 1, 9, 10, 11}[vxChoose("at", 5)]
		for i := 0; i < 12; i++ {
			items = append(items, `{"b":{"c":"w"},"c":"w"}`)
		}
		items[at] = `{"b":{"c":"` + v + `"},"c":"w"}`
		return `{"l":[` + join(items) + `]}`, "jsonpath:$.l[" + strconv.Itoa(at) + "].b.c"
	case 2: // a field of a large object
		at := vxChoose("at", 12)
		for i := 0; i < 12; i++ {
			w := "w"
			if i == at {
				w = v
			}
			items = append(items, `"field`+strconv.Itoa(i)+`":"`+w+`"`)
		}
		return `{"m":{` + join(items) + `}}`, "jsonpath:$.m." + vxPick("spelling", "field"+strconv.Itoa(at), "['field"+strconv.Itoa(at)+"']")
	}
	// a field far below
	doc, path := `"`+v+`"`, ""
	for i := 0; i < 7; i++ {
		switch i % 3 {
		case 0:
			doc, path = `{"b":"w","spec":`+doc+`}`, ".spec"+path
		case 1:
			doc, path = `["w",`+doc+`]`, "[1]"+path
		default:
			doc, path = `{"name-`+strconv.Itoa(i)+`":`+doc+`}`, "['name-"+strconv.Itoa(i)+"']"+path
		}
	}
	return doc, "jsonpath:$" + path
}

// fields of large documents
func Check_C09_many() {
	c, t := tf("v")
	doc, attr := c09Many(c)
	method, neg := strMethod("method", "EQ", "NEQ")
	got := holds(cond(attr, method, "t"), c09Message(doc))
	vxObs("got", got)
	vxAssert(vxIff(got, t != neg), "the addressed field of a large document")
	vxCover("end")
}

func Check_C10_large() {
	c, _ := tf("v")
	doc, attr := c09Many(c)
	sameForms(cond(attr, vxPick("method", "EQ", "NEQ", "RE", "IN", "EX"), "t"), doc)
}

// long strings in documents
func Check_C09_long() {
	n := 12 + 18*vxChoose("long", 2)
	val, _ := longText("val", n, "ek.\"\\*")
	want, _ := longText("want", n, "ek.\"\\*")
	doc := `{"b":"w","a":` + quoted(val) + `}`
	method, neg := strMethod("method", "EQ", "NEQ")
	got := holds(cond("jsonpath:$.a", method, want), c09Message(doc))
	vxObs("got", got)
	vxAssert(vxIff(got, (val == want) != neg), "long strings are compared literally")
	vxCover("end")
}

// many evaluations before
func Check_C11_many() {
	d0, d1 := c11Values("0"), c11Values("1")
	k0, k1 := vxChoose("k0", c11Kinds), vxChoose("k1", c11Kinds)
	ds := c11Defs()
	rules := []*MAPL_engine.Rule{c11Rule(k0), c11Rule(k1)}
	fresh := c11Rule(k0)
	for _, r := range append(rules, fresh) {
		vxAssert(r.SetPredefinedStringsAndLists(ds) == nil, "a rule is accepted")
	}
	messages := []*MAPL_engine.MessageAttributes{c11Message(d0, 1), c11Message(d1, 0)}
	want := c11Run(1, fresh, c11Message(d0, 1))
	for i := 0; i < 6; i++ {
		c11Run(i%4, rules[i%2], messages[(i/2)%2])
	}
	got := c11Run(1, rules[0], messages[0])
	vxObs("got", got)
	vxAssert(vxIff(got, want), "a result does not depend on many evaluations before")
	vxCover("end")
}

// long lists with references anywhere
func Check_C12_many() {
	n := 8
	at := vxChoose("at", n)
	c := vxStr("c", 1, 1, "ab")
	strs := map[string]string{"s": c}
	var items, plain []string
	for i := 0; i < n; i++ {
		name, v := "s"+strconv.Itoa(i), "item-"+strconv.Itoa(i)
		strs[name] = v
		if i == at {
			name, v = "s", c
		}
		if i%2 == 0 || i == at {
			items = append(items, "#"+name)
		} else {
			items = append(items, v)
		}
		plain = append(plain, v)
	}
	d, err := defined(defs{PredefinedStrings: strs, PredefinedLists: map[string][]string{"l": items, "k": {"other"}, "m": {"#s1"}}})
	vxAssert(err == nil, "definitions with known references are accepted")
	vxAssume(err == nil)
	x := vxPick("x", "a", "b", "item-1", "item-6", "item-7", "#s", "other")
	m := &MAPL_engine.MessageAttributes{SourceService: x, DestinationService: x, Domain: x}
	a, b := starRule("r", "block"), starRule("r", "block")
	switch vxChoose("where", 3) {
	case 0:
		a.Sender = MAPL_engine.Sender{SenderName: "#l", SenderType: "workload"}
		b.Sender = MAPL_engine.Sender{SenderName: join(plain), SenderType: "workload"}
	case 1:
		a.Receiver = MAPL_engine.Receiver{ReceiverName: "#l", ReceiverType: "workload"}
		b.Receiver = MAPL_engine.Receiver{ReceiverName: join(plain), ReceiverType: "workload"}
	default:
		a.Conditions = parseRule(cond("domain", "IN", "#l")).Conditions
		b.Conditions = parseRule(cond("domain", "IN", join(plain))).Conditions
	}
	c12Same(&a, d, &b, m, "a long list means its content")
	vxCover("end")
}

// many operands, two of which are exchanged or one of which differs
func Check_C13_many() {
	n := 7
	i, j := vxChoose("i", n), vxChoose("j", n)
	vxAssume(i < j)
	v, w := vxStr("v", 1, 2, "ab"), vxStr("w", 1, 2, "ab")
	op := vxPick("op", "AND", "OR")
	var left, right arr
	for k := 0; k < n; k++ {
		x := strconv.Itoa(k)
		switch k {
		case i:
			x = "v" + v
		case j:
			x = "w" + w
		}
		left = append(left, cond("senderLabel[k]", "EQ", x))
	}
	right = append(right, left...)
	same := true
	if vxChoose("differ", 2) == 1 {
		u := vxStr("u", 1, 2, "ab")
		right[j] = cond("senderLabel[k]", "EQ", "w"+u)
		same = u == w
	} else {
		right[i], right[j] = right[j], right[i]
	}
	a, b := c13Rule(), c13Rule()
	c13Conditions(a, obj{op: left})
	c13Conditions(b, obj{op: right})
	c13Same(a, b, same, "long lists of operands")
}

// long texts and many operands
func Check_C14_many() {
	s, _ := longText("s", 24, c14Odd)
	kids := arr{}
	n := 7
	at := []int{0, 3, 6}[vxChoose("at", 3)]
	for i := 0; i < n; i++ {
		x := "v" + strconv.Itoa(i)
		if i == at {
			x = s
		}
		kids = append(kids, cond("senderLabel[k"+strconv.Itoa(i)+"]", "EQ", x))
	}
	val, _ := longText("val", 24, c14Odd)
	labels := map[string]string{"k0": "v0"}
	labels["k"+strconv.Itoa(at)] = val
	c14Check(obj{vxPick("op", "AND", "OR"): kids}, &MAPL_engine.MessageAttributes{SourceLabels: labels})
	vxCover("end")
}

// many elements and operands in queries
func Check_C16_many() {
	if vxChoose("what", 2) == 0 {
		at := vxChoose("at", 6)
		text := `{"w":"w"`
		kids := arr{}
		op := vxPick("op", "AND", "OR")
		for i := 0; i < 6; i++ {
			n := "f" + strconv.Itoa(i)
			c := "t"
			if op == "OR" {
				c = "f"
			}
			if i == at {
				c, _ = tf("c")
			}
			text += `,"` + n + `":"` + c + `"`
			kids = append(kids, cond("jsonpath:$."+n, "EQ", "t"))
		}
		c16Check(obj{op: kids}, text+`}`, "a query selects what many operands accept")
		return
	}
	texts, truths := []string{}, []bool{}
	fill := vxPick("fill", "t", "f")
	at := vxChoose("at", 6)
	for i := 0; i < 6; i++ {
		c, t := fill, fill == "t"
		if i == at {
			c, t = tf("x")
		}
		texts, truths = append(texts, `{"x":"`+c+`","y":{"x":"t"}}`), append(truths, t)
	}
	tree, _ := quantify(vxChoose("all", 2) == 1, "jsonpath:$.l[:]", cond("jsonpath:$RELATIVE.x", vxPick("method", "EQ", "NEQ"), "t"), truths)
	c16Check(tree, `{"l":[`+join(texts)+`]}`, "a query selects what many elements accept")
}

// many elements with return values
func Check_C17_many() {
	n := []int{5, 11}[vxChoose("n", 2)]
	at := []int{0, 1, n - 2, n - 1}[vxChoose("at", 4)]
	fill := vxPick("fill", "t", "f")
	var texts []string
	var want []entry
	truth := false
	for i := 0; i < n; i++ {
		c, t := fill, fill == "t"
		if i == at {
			c, t = tf("x")
		}
		texts = append(texts, `{"x":"`+c+`","y":`+strconv.Itoa(i)+`}`)
		if t {
			truth = true
			want = append(want, entry{"v": strconv.Itoa(i), "u": "null", "w": texts[i]})
		}
	}
	ret := obj{"v": "jsonpath:$RELATIVE.y", "u": "jsonpath:$RELATIVE.z", "w": "jsonpath:$RELATIVE*"}
	c17Check(anyOf("jsonpath:$.l[:]", ret, cond(c17X, "EQ", "t")), `{"l":[`+join(texts)+`]}`, truth, want, "one entry per satisfying element of many")
}

// many messages and rules of which one pair varies
func Check_C18_many() {
	nm, nr := 5, 6
	mi, ri := vxChoose("message", nm), vxChoose("rule", nr)
	rules := []MAPL_engine.Rule{}
	decs := []int{}
	for i := 0; i < nr; i++ {
		d := []string{"allow", "alert", "block"}[i%3]
		if i == ri {
			d = vxPick("decision", "allow", "alert", "block")
		}
		r := starRule("r"+strconv.Itoa(nr-i), d)
		r.Conditions = parseRule(cond("senderLabel[k"+strconv.Itoa(i)+"]", "EQ", "t")).Conditions
		rules, decs = append(rules, r), append(decs, decisionCode(d))
	}
	messages := []MAPL_engine.MessageAttributes{}
	table := [][]int{}
	for j := 0; j < nm; j++ {
		labels := map[string]string{}
		row := []int{}
		for i := range rules {
			c, t := "f", false
			if (i+j)%4 == 0 {
				c, t = "t", true
			}
			if i == ri && j == mi {
				c, t = tf("match")
			}
			labels["k"+strconv.Itoa(i)] = c
			w := MAPL_engine.DEFAULT
			if t {
				w = decs[i]
			}
			row = append(row, w)
		}
		messages = append(messages, MAPL_engine.MessageAttributes{MessageID: "m" + strconv.Itoa(nm-j), SourceLabels: labels})
		table = append(table, row)
	}
	checkC18(messages, rules, table)
}

// many messages of which one varies
func Check_C19_many() {
	n := 6
	at := vxChoose("at", n)
	h, hv := two("h", 24)
	p := vxPick("protocol", "http", "TCP", "kafka")
	v := vxStr("v", 1, 1, "xyz")
	s, sv := address("src", [4]int{2, 1, 1, 1})
	text := c19Head
	for i := 0; i < n; i++ {
		f := []string{"message_id", "m" + strconv.Itoa(i), "request_protocol", "http", "sender_ip", "10.0.0." + strconv.Itoa(i), "request_time", "2018-07-29T0" + strconv.Itoa(i) + ":00:00Z", "sender_labels", "{k: w" + strconv.Itoa(i) + "}"}
		if i == at {
			f[3], f[5], f[7], f[9] = p, s, "2018-07-29T"+h+":00:00Z", "{k: "+v+"}"
		}
		text += yamlMessage(f...)
	}
	ms := load(text)
	vxAssert(len(ms) == n, "every message is loaded")
	for i, m := range ms {
		hour, kind, label, ip := int64(i), "path", "w"+strconv.Itoa(i), uint32(10<<24+i)
		if i == at {
			hour, kind, label, ip = hv, resourceType(p), v, sv
		}
		vxAssert(m.MessageID == "m"+strconv.Itoa(i), "messages keep their order")
		vxAssert(m.ContextType == kind, "the resource type follows from the protocol")
		vxAssert(sameIP(m.SourceNetIp, ip), "the sender address is the one written")
		vxAssert(len(m.SourceLabels) == 1 && m.SourceLabels["k"] == label, "sender labels")
		vxAssert(near(m.RequestTimeHoursFromMidnightUTC, 3600, hour*3600), "hours since midnight")
	}
	vxCover("end")
}

// many labels of which one varies
func Check_C19_manylabels() {
	n := 8
	at := vxChoose("at", n)
	k, v := vxStr("key", 1, 2, "ab.-/"), vxStr("val", 0, 2, "ab.-/")
	text := "{"
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ", "
		}
		if i == at {
			text += k + ": " + v
		} else {
			text += "key" + strconv.Itoa(i) + ": val" + strconv.Itoa(i)
		}
	}
	side := vxChoose("side", 2)
	field := "sender_labels"
	if side == 1 {
		field = "receiver_labels"
	}
	ms := load(c19Head + yamlMessage("request_time", c19Time, field, text+"}"))
	got := ms[0].SourceLabels
	if side == 1 {
		got = ms[0].DestinationLabels
	}
	vxAssert(len(got) == n, "as many labels as written")
	for i := 0; i < n; i++ {
		key, want := "key"+strconv.Itoa(i), "val"+strconv.Itoa(i)
		if i == at {
			key, want = k, v
		}
		x, ok := got[key]
		vxAssert(vxAnd(ok, x == want), "a label has the value written")
	}
	vxCover("end")
}

// many rules, one of which varies
func Check_C20_many() {
	n := 7
	at := vxChoose("at", n)
	id := vxStr("id", 1, 2, "abc")
	bad := vxChoose("bad", 2) == 1
	items := make(arr, n)
	for i := range items {
		name := "rule-" + strconv.Itoa(i)
		method := "EQ"
		if i == at {
			name = id
			if bad {
				method = "EQX"
			}
		}
		items[i] = fields{{"ruleID", name}, {"decision", "allow"}, {"conditions", asFields(cond("domain", method, name))}}
	}
	rules, err := c20Read(vxChoose("way", c20Ways), rulesText(items...))
	vxAssert((err != nil) == bad, "a malformed condition in any of many rules is an error")
	if err == nil {
		vxAssert(len(rules.Rules) == n, "every rule is read")
		for i := range rules.Rules {
			name := "rule-" + strconv.Itoa(i)
			if i == at {
				name = id
			}
			vxAssert(rules.Rules[i].RuleID == name && rules.Rules[i].Conditions.ConditionsTree.String() == "<domain-EQ-"+name+">", "rules keep their order and conditions")
		}
	}
	vxCover("end")
}
