package main

import (
	"encoding/json"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// junk is a decoded value of any kind.
func junk() interface{} {
	switch vxChoose("junk", 16) {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return "x"
	case 3:
		return 7
	case 4:
		return 1.5
	case 5:
		return true
	case 6:
		return arr{}
	case 7:
		return arr{nil}
	case 8:
		return arr{"x", 1}
	case 9:
		return obj{}
	case 10:
		return obj{"x": nil}
	case 11:
		return obj{"AND": nil}
	case 12:
		return map[interface{}]interface{}{}
	case 13:
		return map[interface{}]interface{}{1: "x"}
	case 14:
		return map[interface{}]interface{}{"attribute": 1, "method": nil}
	}
	return arr{arr{}}
}

// spoiler replaces or removes one part of a tree.
type spoiler struct {
	at   int
	n    int
	yaml bool
}

func (s *spoiler) hit() bool {
	s.n++
	return s.n == s.at
}

func (s *spoiler) walk(v interface{}) interface{} {
	if s.hit() {
		return junk()
	}
	switch v := v.(type) {
	case obj:
		out := obj{}
		keys := []string{"attribute", "method", "value", "returnValueJsonpath", "parentJsonpathAttribute", "v", "AND", "OR", "NOT", "ANY", "ALL", "condition", "conditions"}
		for _, k := range keys {
			x, ok := v[k]
			if !ok {
				continue
			}
			if s.hit() { // another key
				switch k2 := vxPick("key", "", "x", "AND", "NOT", "ANY", "condition", "attribute", "Method", "value", "ValueInt"); k2 {
				case "":
				default:
					out[k2] = x
				}
				continue
			}
			out[k] = s.walk(x)
		}
		if s.hit() { // one more key
			out[vxPick("key", "x", "AND", "NOT", "ANY", "condition", "returnValueJsonpath", "value", "ValueInt", "attribute")] = junk()
		}
		if s.yaml {
			r := map[interface{}]interface{}{}
			for k, x := range out {
				r[k] = x
			}
			if s.hit() {
				r[vxPick2("key", 1, 2)] = "x"
			}
			return r
		}
		return out
	case arr:
		out := arr{}
		for _, x := range v {
			out = append(out, s.walk(x))
		}
		if s.hit() {
			out = append(out, junk())
		}
		if s.hit() {
			return arr{}
		}
		return out
	}
	return v
}

func vxPick2(name string, a, b interface{}) interface{} {
	if vxChoose(name, 2) == 0 {
		return a
	}
	return b
}

func c15Tree() interface{} {
	leaf := cond("jsonpath:$RELATIVE.x", "EQ", "t")
	ret := obj{"attribute": "jsonpath:$.s", "method": "EQ", "value": "t", "returnValueJsonpath": obj{"v": "jsonpath:$.s"}}
	switch vxChoose("tree", 6) {
	case 0:
		return obj{"AND": arr{cond("payloadSize", "GT", "1"), obj{"NOT": cond("domain", "EQ", "a")}}}
	case 1:
		return obj{"ANY": obj{"parentJsonpathAttribute": "jsonpath:$.l[:]", "condition": leaf}}
	case 2:
		return obj{"OR": arr{obj{"ALL": obj{"parentJsonpathAttribute": "jsonpath:$.l[:]", "condition": obj{"NOT": leaf}}}, ret}}
	case 3:
		return obj{"ANY": obj{"parentJsonpathAttribute": "jsonpath:$.l", "returnValueJsonpath": obj{"v": "jsonpath:$RELATIVE.x"}, "condition": obj{"AND": arr{leaf}}}}
	case 4:
		return obj{"NOT": obj{"OR": arr{ret}}}
	}
	return obj{"conditions": arr{obj{"condition": obj{"attribute": "$sender.namespace", "method": "EX"}}}}
}

// exercise uses an accepted rule in every way.
func exercise(r *MAPL_engine.Rule) {
	vxObs("text", r.String())
	MAPL_engine.GetRuleStrings(r)
	MAPL_engine.RuleMD5HashConditions(*r)
	b, err := json.Marshal(r)
	vxAssert(err == nil && len(b) > 0, "an accepted rule can be written")
	MAPL_engine.ValidateRule(r)
	if r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{}) != nil {
		return
	}
	doc := `{"s":"t","l":[{"x":"t"},{},"x",null,[1]]}`
	for _, m := range []*MAPL_engine.MessageAttributes{{}, docMessage(doc, 0), docMessage(doc, 1)} {
		r.TestConditions(m)
		r.Check(m)
	}
	r.ToMongoQuery("raw")
	vxCover("accepted")
}

// one spoiled part anywhere in a tree
func Check_C15_parse() {
	tree := c15Tree()
	max := 20
	if vxTier() == 1 {
		max = 40
	}
	s := &spoiler{at: 1 + vxChoose("at", max), yaml: vxChoose("yaml", 2) == 1}
	spoiled := s.walk(tree)
	vxAssume(s.n >= s.at)
	node, err := MAPL_engine.ParseConditionsTree(spoiled)
	if err != nil {
		vxCover("rejected")
		return
	}
	vxAssert(node != nil, "an accepted tree is usable")
	vxAssume(node != nil)
	exercise(&MAPL_engine.Rule{RuleID: "r", Sender: MAPL_engine.Sender{SenderName: "*", SenderType: "*"}, Receiver: MAPL_engine.Receiver{ReceiverName: "*", ReceiverType: "*"}, Protocol: "*", Operation: "*",
		Conditions: MAPL_engine.ConditionsTree{ConditionsTree: node}, Decision: "allow"})
}

func c15Rule(tree interface{}) (*MAPL_engine.Rule, error) {
	node, err := MAPL_engine.ParseConditionsTree(tree)
	return &MAPL_engine.Rule{RuleID: "r", Sender: MAPL_engine.Sender{SenderName: "*", SenderType: "*"}, Receiver: MAPL_engine.Receiver{ReceiverName: "*", ReceiverType: "*"}, Protocol: "*", Operation: "*",
		Conditions: MAPL_engine.ConditionsTree{ConditionsTree: node}, Decision: "allow"}, err
}

// any path text
func Check_C15_path() {
	max := 3
	if vxTier() == 1 {
		max = 4
	}
	attr := vxPick("head", "jsonpath:", "jsonpath:$", "jsonpath:$.", "jsonpath:$.a", "jsonpath:$RELATIVE", "jsonpath:$KEY", "jsonpath:$VALUE") + vxStr("path", 0, max, "a[]'\".0:*")
	tree := interface{}(cond(attr, "EQ", "t"))
	if vxChoose("inner", 2) == 1 {
		tree, _ = quantify(false, "jsonpath:$.l[:]", tree, nil)
	}
	r, err := c15Rule(tree)
	if err == nil {
		exercise(r)
	}
	vxCover("end")
}

// any parent path
func Check_C15_parent() {
	max := 3
	if vxTier() == 1 {
		max = 4
	}
	parent := vxPick("head", "", "jsonpath:", "jsonpath:$", "jsonpath:$.", "jsonpath:$.l", "jsonpath:$RELATIVE", "jsonpath:$KEY.", "jsonpath:$VALUE.", "jsonpath:$.l,") + vxStr("path", 0, max, "l[]'\".0:*,")
	tree, _ := quantify(vxChoose("all", 2) == 1, parent, cond("jsonpath:$RELATIVE.x", "EQ", "t"), nil)
	if vxChoose("inner", 2) == 1 {
		tree, _ = quantify(false, "jsonpath:$.l[:]", tree, nil)
	}
	r, err := c15Rule(tree)
	if err == nil {
		exercise(r)
	}
	vxCover("end")
}

// c15Doc is a document of any kind, well-formed or not.
func c15Doc() string {
	docs := []string{``, `null`, `"x"`, `[]`, `{"s":null}`, `{"s":[[]],"l":[[]]}`, `{"l":[null,1,"x",{},[]]}`, `{"l":{"k":{"x":[]},"j":"x"}}`, `{"s":"\"","l":[{"x":"\""}]}`, `{"l":[{"x":`, `{"s":tru,"l":[tru]}`}
	if vxTier() == 1 {
		docs = append(docs, ` `, `1`, `{}`, `{"s":[],"l":{}}`, `{"s":{},"l":"x"}`, `{"l":{"k":null}}`, `{`, `{"s"`, `{"s":`, `{"s":"`, `{"l":[`, `}`, `x`)
	}
	return docs[vxChoose("doc", len(docs))]
}

// c15Message is a message which may lack anything.
func c15Message(withDoc bool) *MAPL_engine.MessageAttributes {
	m := &MAPL_engine.MessageAttributes{}
	kinds := 2
	if withDoc {
		kinds = 4
	}
	switch vxChoose("message", kinds) {
	case 2:
		raw := []byte(c15Doc())
		m.RequestJsonRaw = &raw
	case 3:
		var v interface{}
		if json.Unmarshal([]byte(c15Doc()), &v) != nil {
			v = nil
		}
		m.RequestRawInterface = &v
	case 1:
		m.SourceLabels, m.DestinationLabels = map[string]string{"k": ""}, map[string]string{}
		version := 1.5
		m.EncryptionVersion = &version
	}
	return m
}

// accepted conditions can be evaluated on any message
func Check_C15_messages() {
	attr := vxPick("attribute", "true", "false", "payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain", "$sender.namespace", "$receiver.x", "$sender.",
		"senderLabel[k]", "receiverLabel[]", "jsonpath:$.s", "jsonpath:$.s.t[0]", "jsonpath:$.l[1].x", "jsonpath:$RELATIVE.x", "jsonpath:$RELATIVE", "jsonpath:$KEY", "jsonpath:$VALUE", "jsonpath:$VALUE.x")
	method := vxPick("method", "EQ", "NEQ", "GT", "LE", "RE", "NRE", "IN", "NIN", "IS", "EX", "NEX", "ne")
	value := vxPick("value", "", "x", "1Ki", "[", "receiverLabel[k]", "$receiver.")
	tree := interface{}(cond(attr, method, value))
	places := 1
	if len(attr) > 9 && attr[:9] == "jsonpath:" {
		places = 4
	}
	switch vxChoose("inner", places) {
	case 1:
		tree, _ = quantify(vxBool("all"), "jsonpath:$.l[:]", tree, nil)
	case 2:
		tree, _ = quantify(vxBool("all"), "jsonpath:$.l", tree, nil)
	case 3:
		tree, _ = quantify(false, "jsonpath:$RELATIVE.x", tree, nil)
		tree, _ = quantify(false, "jsonpath:$.l[:],jsonpath:$.s", tree, nil)
	}
	r, err := c15Rule(tree)
	if err == nil && r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{}) == nil {
		m := c15Message(places > 1)
		r.TestConditions(m)
		r.Check(m)
		vxCover("accepted")
	}
	vxCover("end")
}

// return values on any message
func Check_C15_returns() {
	max := 1
	if vxTier() == 1 {
		max = 3
	}
	path := vxPick("head", "", "jsonpath:", "jsonpath:$", "jsonpath:$.", "jsonpath:$.l", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.", "jsonpath:$KEY", "jsonpath:$VALUE") + vxStr("path", 0, max, "x[]'\".0:*")
	ret := obj{"v": path, "w": "jsonpath:$RELATIVE.x"}
	tree := interface{}(obj{"attribute": "jsonpath:$.l", "method": "EX", "value": "", "returnValueJsonpath": ret})
	switch vxChoose("place", 4) {
	case 1:
		tree = obj{"ANY": obj{"parentJsonpathAttribute": "jsonpath:$.l[:]", "condition": tree}}
	case 2:
		tree = obj{"ANY": obj{"parentJsonpathAttribute": "jsonpath:$.l[:]", "returnValueJsonpath": ret, "condition": cond("jsonpath:$RELATIVE.x", "NEX", "")}}
	case 3:
		tree = obj{"ALL": obj{"parentJsonpathAttribute": "jsonpath:$.l[:]", "returnValueJsonpath": ret, "condition": obj{"attribute": "jsonpath:$RELATIVE", "method": "EX", "value": "", "returnValueJsonpath": ret}}}
	}
	r, err := c15Rule(tree)
	if err == nil && r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{}) == nil {
		doc := vxPick("doc", `{"l":[1]}`, `{"l":[{"x":"t"},{"x":[]},null]}`, `{"l":{"x":{"x":1}}}`, `{"l":[tru`)
		form := vxChoose("form", 2)
		if form == 1 {
			vxAssume(json.Valid([]byte(doc)))
		}
		r.TestConditions(docMessage(doc, form))
		vxCover("accepted")
	}
	vxCover("end")
}

// a rule without conditions and with any field missing
func Check_C15_rules() {
	r := &MAPL_engine.Rule{}
	switch vxChoose("part", 4) {
	case 0:
		r.Sender = MAPL_engine.Sender{SenderName: vxStr("name", 0, 2, "a*,.#["), SenderType: vxPick("type", "", "*", "workload", "subnet", "hostname", "x")}
	case 1:
		r.Receiver = MAPL_engine.Receiver{ReceiverName: vxStr("name", 0, 2, "a*,.#["), ReceiverType: vxPick("type", "", "*", "workload", "subnet", "hostname", "x")}
	case 2:
		r.RuleID, r.Protocol, r.Operation, r.Decision = "r", vxPick("protocol", "", "*", "http", "x"), vxPick("operation", "", "*", "write", "["), vxPick("decision", "", "ALLOW", "x")
		r.Resource = MAPL_engine.Resource{ResourceType: vxPick("resource", "", "*", "path"), ResourceName: vxPick("path", "", "a", "[")}
	}
	vxObs("text", MAPL_engine.RuleToString(*r))
	vxObs("strings", MAPL_engine.GetRuleStrings(r).ResourceString)
	MAPL_engine.RuleMD5Hash(*r)
	_, err := json.Marshal(r)
	vxAssert(err == nil, "any rule can be written")
	MAPL_engine.ValidateRule(r)
	r.ToMongoQuery("raw")
	r.ToLower()
	m := c15Message(false)
	MAPL_engine.CheckOneRule(m, r)
	r.TestConditions(m)
	MAPL_engine.Check(m, &MAPL_engine.Rules{Rules: []MAPL_engine.Rule{{}, *r}})
	vxCover("end")
}

// rejected tells that no way of reading accepts the conditions.
func rejected(tree interface{}) bool {
	_, err := MAPL_engine.ParseConditionsTree(tree)
	if err == nil {
		return false
	}
	text, err := json.Marshal(tree)
	var c MAPL_engine.ConditionsTree
	return err == nil && json.Unmarshal(text, &c) != nil
}

// known tells if name is one of the words.
func known(name string, words []string) bool {
	found := false
	for _, w := range words {
		found = vxOr(found, name == w)
	}
	return found
}

// spelled is a word with a character replaced, added or removed.
func spelled(word string, alphabet string) string {
	i := vxChoose("at", len(word)+1)
	c := string([]byte{vxByte("c", alphabet)})
	switch vxChoose("edit", 3) {
	case 0: // added
		return word[:i] + c + word[i:]
	case 1:
		if i < len(word) {
			return word[:i] + c + word[i+1:]
		}
	}
	if i < len(word) {
		return word[:i] + word[i+1:]
	}
	return ""
}

// inTree puts a condition anywhere in a tree.
func inTree(c obj) interface{} {
	good := cond("true", "EQ", "")
	switch vxChoose("place", 6) {
	case 0:
		return c
	case 1:
		return obj{"AND": arr{good, c}}
	case 2:
		return obj{"OR": arr{c, good}}
	case 3:
		return obj{"NOT": c}
	case 4:
		return obj{"ANY": obj{"parentJsonpathAttribute": "jsonpath:$.l[:]", "condition": c}}
	}
	return obj{"OR": arr{good, obj{"ALL": obj{"parentJsonpathAttribute": "jsonpath:$.l[:]", "condition": obj{"AND": arr{c}}}}}}
}

// an unknown attribute
func Check_C15_attribute() {
	words := []string{"true", "TRUE", "false", "FALSE", "payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain"}
	heads := []string{"$sender.", "$receiver.", "senderLabel[", "receiverLabel[", "jsonpath:"}
	attr := ""
	if vxBool("exact") {
		attr = spelled(words[vxChoose("word", len(words))], "aS ")
	} else {
		attr = spelled(heads[vxChoose("head", len(heads))], "aS.$[ :")
		if vxBool("label") {
			attr += "k]"
		}
	}
	vxAssume(!known(attr, words))
	for _, h := range heads {
		if len(attr) >= len(h) {
			vxAssume(attr[:len(h)] != h)
		}
	}
	vxAssert(rejected(inTree(cond(attr, vxPick("method", "EQ", "EX", "GT"), "1"))), "a condition with an unknown attribute is rejected")
	vxCover("end")
}

// an unknown method
func Check_C15_method() {
	words := []string{"EQ", "NEQ", "NE", "GE", "GT", "LE", "LT", "RE", "NRE", "IN", "NIN", "EX", "NEX", "IS"}
	method := spelled(words[vxChoose("word", len(words))], "ENQI =")
	vxAssume(!known(method, words))
	if vxBool("lower") {
		b := []byte(method)
		for i := range b {
			if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 'a' - 'A'
			}
		}
		method = string(b)
	}
	vxAssert(rejected(inTree(cond(vxPick("attr", "payloadSize", "domain", "jsonpath:$.s", "senderLabel[k]"), method, "1"))), "a condition with an unknown method is rejected")
	vxCover("end")
}

// an ordering method needs a number
func Check_C15_number() {
	max := 3
	if vxTier() == 1 {
		max = 4
	}
	value := vxStr("value", 0, max, "1.x -")
	digits, dots, other := false, 0, false
	for i := 0; i < len(value); i++ {
		switch c := value[i]; {
		case c == '1':
			digits = true
		case c == '.':
			dots++
		case c == '-' && i == 0:
		default:
			other = true
		}
	}
	vxAssume(!digits || dots > 1 || other)
	method := vxPick("method", "GT", "GE", "LT", "LE", "gt", "ge", "lt", "le")
	attr := vxPick("attr", "payloadSize", "utcHoursFromMidnight", "encryptionVersion", "jsonpath:$.s", "jsonpath:$RELATIVE.s")
	vxAssert(rejected(inTree(cond(attr, method, value))), "an ordering condition without a number is rejected")
	vxCover("end")
}

// an invalid regular expression
func Check_C15_regex() {
	bad := vxPick("bad", "(", ")", "[", "[b-a]", "a**", "(?", "(?P<", "a{2,1}", "\\", "[[:x:]]")
	value := vxStr("before", 0, 2, "ab.|") + bad
	if bad != "\\" {
		value += vxStr("after", 0, 1, "ab")
	}
	attr := vxPick("attr", "domain", "requestUseragent", "$sender.namespace", "receiverLabel[k]", "jsonpath:$.s", "jsonpath:$KEY")
	vxAssert(rejected(inTree(cond(attr, vxPick("method", "RE", "re", "NRE", "nre"), value))), "a condition with an invalid regular expression is rejected")
	vxCover("end")
}

// an array without an index
func Check_C15_arrays() {
	head := vxPick("head", "jsonpath:$.", "jsonpath:.", "jsonpath:$RELATIVE.", "jsonpath:$VALUE.")
	name := vxStr("name", 1, 2, "ab.")
	vxAssume(name[0] != '.' && name[len(name)-1] != '.')
	index := vxPick("index", "[:]", "[]", "[*]", "[-1]", "[0:1]", "[:1]", "[a]", "[ ]", "[1,2]", "[?(@.a)]")
	tail := vxPick("tail", "", ".a", "[0]", "['a']")
	if vxBool("first") {
		name += vxPick("indexed", "[0]", "[\"a\"]")
	}
	attr := head + name + index + tail
	vxAssert(rejected(inTree(cond(attr, vxPick("method", "EQ", "RE", "EX", "GT"), "1"))), "a reference to a whole array outside of ANY and ALL is rejected")
	vxCover("end")
}

// a malformed label
func Check_C15_labels() {
	side := vxPick("side", "senderLabel[", "receiverLabel[")
	key := vxStr("key", 0, 2, "ab.")
	bad := side + key + vxPick("bad", "", "]a", "]]", "].", "] ", "]a]", "][b]")
	tree := cond(bad, vxPick("method", "EQ", "RE", "EX"), "a")
	if vxBool("value") {
		vxAssume(side == "receiverLabel[")
		tree = cond("senderLabel[k]", vxPick("method", "EQ", "NEQ"), bad)
	}
	vxAssert(rejected(inTree(tree)), "a malformed label is rejected")
	vxCover("end")
}
