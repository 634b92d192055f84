package main

import (
	"strings"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// wildMatch says whether the whole value matches the wildcard pattern, as one
// formula over the bytes of both.
func wildMatch(pat, val string) bool {
	// row[j]: pat[:i] matches val[:j]
	row := make([]bool, len(val)+1)
	row[0] = true
	for i := 0; i < len(pat); i++ {
		c := pat[i]
		next := make([]bool, len(val)+1)
		next[0] = vxAnd(row[0], c == '*')
		for j := 1; j <= len(val); j++ {
			star := vxAnd(c == '*', vxOr(row[j], next[j-1]))
			one := vxAnd(vxAnd(c != '*', vxOr(c == '?', c == val[j-1])), row[j-1])
			next[j] = vxOr(star, one)
		}
		row = next
	}
	return row[len(val)]
}

const (
	c03Pat = "aB-./$^*?"
	c03Val = "aB-./$^Z\n"
)

// c03Field puts the pattern into one field of a rule and the value into the
// message attribute it is compared with.
func c03Field(k int, pat, val string) bool {
	r := starRule("r", "allow")
	m := &MAPL_engine.MessageAttributes{SourceService: "s", DestinationService: "d", RequestHost: "h", RequestMethod: "GET", ContextProtocol: "http", RequestPath: "p", DestinationPort: "1"}
	switch k {
	case 0:
		r.Sender = MAPL_engine.Sender{SenderName: pat, SenderType: "workload"}
		m.SourceService = val
	case 1:
		r.Receiver = MAPL_engine.Receiver{ReceiverName: pat, ReceiverType: "workload"}
		m.DestinationService = val
	case 2:
		r.Receiver = MAPL_engine.Receiver{ReceiverName: pat, ReceiverType: "hostname"}
		m.RequestHost = val
	case 3:
		r.Protocol = "http"
		r.Resource.ResourceName = pat
		m.RequestPath = val
	case 4:
		r.Protocol = "tcp"
		r.Resource.ResourceName = pat
		m.DestinationPort = val
	case 5:
		r.Operation = pat
		m.RequestMethod = val
	case 6:
		r.Sender = MAPL_engine.Sender{SenderName: pat, SenderType: "*"}
		m.SourceService = val
	case 7:
		r.Receiver = MAPL_engine.Receiver{ReceiverName: pat, ReceiverType: "*"}
		m.DestinationService = val
	}
	got, _ := r.Check(m)
	return got == MAPL_engine.ALLOW
}

func Check_C03_single() {
	k := vxChoose("field", 8)
	max := 2
	vmax := 3
	if k == 0 || k == 3 {
		max = 3
	}
	if vxTier() == 1 {
		max, vmax = 4, 5
	}
	pat := vxStr("pat", 1, max, c03Pat)
	val := vxStr("val", 0, vmax, c03Val)
	got := c03Field(k, pat, val)
	vxObs("got", got)
	vxAssert(vxIff(got, wildMatch(pat, val)), "one pattern matches the whole value")
	vxCover("end")
	if got {
		vxCover("match")
	}
}

// lists with spaces around the items
func Check_C03_lists() {
	k := vxChoose("field", 6)
	n := 2 + vxChoose("n", 2)
	max, vmax := 1, 2
	if vxTier() == 1 {
		max, vmax = 2, 3
	}
	val := vxStr("val", 0, vmax, "ab.\n")
	pats := []string{}
	want := false
	for i := 0; i < n; i++ {
		p := vxStr("pat", 0, max, "ab.*?")
		want = vxOr(want, wildMatch(p, val))
		if i < 2 {
			p = strings.Repeat(" ", vxChoose("before", 2)) + p + strings.Repeat(" ", vxChoose("after", 2))
		}
		pats = append(pats, p)
	}
	got := c03Field(k, strings.Join(pats, ","), val)
	vxObs("got", got)
	vxAssert(vxIff(got, want), "a list matches when one of its items does")
	vxCover("end")
}

// a longer list of longer names, one of which may equal the value
func Check_C03_names() {
	k := vxChoose("field", 6)
	names := []string{"srv-1.ns", "abc.ns_2", "/books/x"}
	suffix := vxStr("suffix", 0, 2, "1n.x")
	val := vxPick("base", "srv-1.n", "/books/", "srv-1xns", "") + suffix
	want := false
	for _, n := range names {
		want = vxOr(want, n == val)
	}
	got := c03Field(k, strings.Join(names, ","), val)
	vxObs("got", got)
	vxAssert(vxIff(got, want), "names without wildcards match literally")
	vxCover("end")
}

// operation words
func Check_C03_words() {
	word := vxPick("word", "*", "read", "READ", "write", "WRITE")
	var set []string
	switch word {
	case "read", "READ":
		set = []string{"GET", "HEAD", "OPTIONS", "TRACE", "CONSUME", "read", "READ"}
	case "write", "WRITE":
		set = []string{"POST", "PUT", "DELETE", "PRODUCE"}
	}
	m := vxStr("method", 0, 8, "GETHADOPINSRCULMTread")
	want := word == "*"
	for _, s := range set {
		want = vxOr(want, s == m)
	}
	got := c03Field(5, word, m)
	vxObs("got", got)
	vxAssert(vxIff(got, want), "operation words stand for their methods")
	vxCover("end")
	if got {
		vxCover("match")
	}
}
