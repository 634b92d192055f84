package main

import (
	"net"
	"strconv"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// two is a number below n written with two digits.
func two(name string, n int64) (string, int64) {
	v := vxInt(name, 0, n-1)
	return string([]byte{byte('0' + v/10), byte('0' + v%10)}), v
}

const c19Head = "messages:\n"

// yamlMessage is one message of a list; fields come in pairs of name and text.
func yamlMessage(fields ...string) string {
	s := ""
	for i := 0; i < len(fields); i += 2 {
		p := "    "
		if i == 0 {
			p = "  - "
		}
		s += p + fields[i] + ": \"" + fields[i+1] + "\"\n"
	}
	return s
}

const c19Time = "2018-07-29T14:30:00Z"

func load(text string) []MAPL_engine.MessageAttributes {
	ms, err := MAPL_engine.YamlReadMessagesFromString(text)
	vxAssert(err == nil, "well formed messages are loaded")
	vxAssume(err == nil)
	return ms.Messages
}

// near tells that got units are the given number of seconds, up to rounding.
func near(got float64, unit float64, seconds int64) bool {
	x := got * unit
	return vxAnd(x >= float64(seconds*10000-1)/10000, x <= float64(seconds*10000+1)/10000)
}

// the time of day of any timestamp of a day
func Check_C19_time() {
	h, hv := two("h", 24)
	m, mv := two("m", 60)
	s, sv := two("s", 60)
	ms := load(c19Head + yamlMessage("request_time", "2018-07-29T"+h+":"+m+":"+s+"Z"))
	vxAssert(len(ms) == 1, "one message")
	want := hv*3600 + mv*60 + sv
	vxObs("seconds", ms[0].RequestTimeSecondsFromMidnightUTC)
	vxAssert(near(ms[0].RequestTimeSecondsFromMidnightUTC, 1, want), "seconds since midnight")
	vxAssert(near(ms[0].RequestTimeMinutesFromMidnightUTC, 60, want), "minutes since midnight")
	vxAssert(near(ms[0].RequestTimeHoursFromMidnightUTC, 3600, want), "hours since midnight")
	vxCover("end")
}

// fractions of a second
func Check_C19_fraction() {
	clock := vxPick("clock", "00:00:00", "14:30:01", "23:59:59")
	base := map[string]int64{"00:00:00": 0, "14:30:01": 52201, "23:59:59": 86399}[clock]
	// two digits that vary, after and before some that do not
	head := vxPick("head", "", "0", "90", "000")
	tail := vxPick("tail", "", "0", "5", "70")
	digits, v := two("f", 100)
	frac, unit := int64(0), int64(1)
	for i := 0; i < len(head); i++ {
		frac = frac*10 + int64(head[i]-'0')
		unit *= 10
	}
	frac, unit = frac*100+v, unit*100
	for i := 0; i < len(tail); i++ {
		frac = frac*10 + int64(tail[i]-'0')
		unit *= 10
	}
	ms := load(c19Head + yamlMessage("request_time", "2018-07-29T"+clock+"."+head+digits+tail+"Z"))
	m := ms[0]
	vxObs("seconds", m.RequestTimeSecondsFromMidnightUTC)
	want := base*unit + frac
	// within a tenth of the last digit
	near := func(got, length float64) bool {
		x := got * length
		return vxAnd(x >= float64(want*10-1)/float64(unit*10), x <= float64(want*10+1)/float64(unit*10))
	}
	vxAssert(near(m.RequestTimeSecondsFromMidnightUTC, 1), "seconds since midnight with a fraction")
	vxAssert(near(m.RequestTimeMinutesFromMidnightUTC, 60), "minutes since midnight with a fraction")
	vxAssert(near(m.RequestTimeHoursFromMidnightUTC, 3600), "hours since midnight with a fraction")
	vxCover("end")
}

// an offset from UTC
func Check_C19_offset() {
	hv := int64(vxChoose("h", 24))
	half := int64(vxChoose("half", 2)) * 30
	mv := vxInt("m", half, half+29)
	sv := vxInt("s", 0, 59)
	offsets := []int64{0, 60, 330, 840}
	if vxTier() == 1 {
		offsets = []int64{0, 30, 60, 120, 210, 330, 420, 570, 690, 720, 840}
	}
	off := offsets[vxChoose("off", len(offsets))]
	sign := vxPick("sign", "+", "-")
	pair := func(v int64) string { return string([]byte{byte('0' + v/10), byte('0' + v%10)}) }
	ms := load(c19Head + yamlMessage("request_time", "2018-07-29T"+pair(hv)+":"+pair(mv)+":"+pair(sv)+sign+pair(off/60)+":"+pair(off%60)))
	if sign == "+" {
		off = -off
	}
	// minutes of the half hour are symbolic, the rest is known
	base := (hv*60 + half + off + 2*24*60) % (24 * 60)
	want := (base+mv-half)*60 + sv
	m := ms[0]
	at := func(t int64) bool {
		return vxAnd(near(m.RequestTimeSecondsFromMidnightUTC, 1, t), vxAnd(near(m.RequestTimeMinutesFromMidnightUTC, 60, t), near(m.RequestTimeHoursFromMidnightUTC, 3600, t)))
	}
	vxObs("minutes", m.RequestTimeMinutesFromMidnightUTC)
	// the clock time as written, whatever the offset
	vxKnown("K01", off != 0 && at((hv*60+mv)*60+sv))
	vxAssert(at(want), "the time of day is taken in UTC")
	vxCover("end")
}

// an unreadable timestamp anywhere in the list
func Check_C19_badtime() {
	bad := vxPick("bad", "", "x", "2018-07-29", "2018-07-29T24:00:00Z", "2018-07-29T14:60:00Z", "2018-13-29T14:30:00Z", "14:30:00", "2018-07-29 14:30:00", "2018-07-29T14:30:00")
	n := 1 + vxChoose("n", 3)
	at := vxChoose("at", n)
	text := c19Head
	for i := 0; i < n; i++ {
		t := c19Time
		if i == at {
			t = bad
		}
		text += yamlMessage("message_id", strconv.Itoa(i), "request_time", t)
	}
	_, err := MAPL_engine.YamlReadMessagesFromString(text)
	vxAssert(err != nil, "an unreadable timestamp is an error")
	vxCover("end")
}

func resourceType(protocol string) string {
	switch protocol {
	case "HTTP", "http":
		return "path"
	case "TCP", "tcp":
		return "port"
	}
	return ""
}

// every message gets its own derived attributes
func Check_C19_derived() {
	n := 2
	text := c19Head
	type want struct {
		kind     string
		src, dst uint32
		a, b     string
		size     int64
		hour     int64
	}
	var ws []want
	for i := 0; i < n; i++ {
		p := vxPick("protocol", "http", "HTTP", "tcp", "TCP", "grpc")
		s, sv := address("src", [4]int{1, 1, 1, 1})
		d, dv := address("dst", [4]int{1, 1, 1, 1})
		a, b := vxStr("a", 1, 1, "xyz"), vxStr("b", 1, 1, "xyz")
		text += yamlMessage("message_id", "m"+strconv.Itoa(i), "request_protocol", p, "sender_ip", s, "receiver_ip", d, "request_time", "2018-07-29T1"+strconv.Itoa(i)+":00:00Z",
			"sender_labels", "{k: "+a+"}", "receiver_labels", "{k: "+b+", j"+strconv.Itoa(i)+":w}")
		ws = append(ws, want{resourceType(p), sv, dv, a, b, 0, 10 + int64(i)})
	}
	ms := load(text)
	vxAssert(len(ms) == n, "every message is loaded")
	for i, w := range ws {
		m := ms[i]
		vxAssert(m.MessageID == "m"+strconv.Itoa(i), "messages keep their order")
		vxAssert(m.ContextType == w.kind, "the resource type follows from the protocol")
		vxAssert(sameIP(m.SourceNetIp, w.src), "the sender address is the one written")
		vxAssert(sameIP(m.DestinationNetIp, w.dst), "the receiver address is the one written")
		vxAssert(len(m.SourceLabels) == 1 && len(m.DestinationLabels) == 2, "the labels of the message and no others")
		vxAssert(m.SourceLabels["k"] == w.a, "sender labels")
		vxAssert(vxAnd(m.DestinationLabels["k"] == w.b, m.DestinationLabels["j"+strconv.Itoa(i)] == "w"), "receiver labels")
		vxAssert(near(m.RequestTimeHoursFromMidnightUTC, 3600, w.hour*3600), "hours since midnight")
	}
	vxCover("end")
}

func sameIP(ip net.IP, want uint32) bool {
	ip = ip.To4()
	if ip == nil {
		return false
	}
	return uint32(ip[0])<<24|uint32(ip[1])<<16|uint32(ip[2])<<8|uint32(ip[3]) == want
}

// labels of any small set
func Check_C19_labels() {
	n := vxChoose("n", 4)
	text := "{"
	keys := []string{}
	vals := []string{}
	for i := 0; i < n; i++ {
		k, v := vxStr("key", 1, 2, "ab.-/"), vxStr("val", 0, 2, "ab.-/")
		for _, o := range keys {
			vxAssume(o != k)
		}
		keys, vals = append(keys, k), append(vals, v)
		if i > 0 {
			text += vxPick("sep", ",", ", ")
		}
		text += k + vxPick("colon", ":", ": ") + v
	}
	text += "}"
	field, other := "sender_labels", "receiver_labels"
	side := vxChoose("side", 2)
	if side == 1 {
		field, other = other, field
	}
	ms := load(c19Head + yamlMessage("request_time", c19Time, field, text, other, "{z:z}"))
	got, rest := ms[0].SourceLabels, ms[0].DestinationLabels
	if side == 1 {
		got, rest = rest, got
	}
	if n > 0 {
		vxAssert(len(got) == n, "as many labels as written")
		for i := range keys {
			v, ok := got[keys[i]]
			vxAssert(vxAnd(ok, v == vals[i]), "a label has the value written")
		}
	}
	vxAssert(len(rest) == 1 && rest["z"] == "z", "the labels of the other side")
	vxCover("end")
}

// addresses of every shape; anything else leaves the address empty
func Check_C19_address() {
	a, v := address("a", pickLens("lens"))
	ms := load(c19Head + yamlMessage("request_time", c19Time, "sender_ip", a, "receiver_ip", "not an address"))
	vxAssert(sameIP(ms[0].SourceNetIp, v), "the address is the one written")
	vxAssert(ms[0].DestinationNetIp == nil, "no address from other text")
	vxCover("end")
}

// the attributes written are kept
func Check_C19_kept() {
	f := vxStr("f", 1, 2, "aB/.-*")
	which := vxChoose("field", 16)
	names := []string{"sender_namespace", "sender_cluster", "receiver_namespace", "receiver_cluster", "receiver_port", "request_path", "request_host", "request_method", "request_user_agent",
		"request_protocol", "message_id", "sender_service", "receiver_service", "encryption_type", "domain", "sender_ip"}
	ms := load(c19Head + yamlMessage("request_time", c19Time) + yamlMessage("request_time", c19Time, names[which], f) + yamlMessage("request_time", c19Time))
	vxAssert(len(ms) == 3, "every message is loaded")
	for i, m := range ms {
		got := []string{m.SourceNamespace, m.SourceCluster, m.DestinationNamespace, m.DestinationCluster, m.DestinationPort, m.RequestPath, m.RequestHost, m.RequestMethod, m.RequestUseragent,
			m.ContextProtocol, m.MessageID, m.SourceService, m.DestinationService, m.EncryptionType, m.Domain, m.SourceIp}
		for k := range got {
			want := ""
			if i == 1 && k == which {
				want = f
			}
			vxAssert(got[k] == want, "an attribute is the one written, in its message only")
		}
	}
	vxCover("end")
}

// a protocol whose resource type is written in the message
func Check_C19_othertype() {
	p := vxPick("protocol", "KAFKA", "kafka", "http", "TCP")
	t := vxPick("type", "kafkaTopic", "consumerGroup", "path")
	ms := load(c19Head + yamlMessage("request_time", c19Time, "request_protocol", p, "request_type", t))
	want := resourceType(p)
	if want == "" {
		want = t
	}
	vxAssert(ms[0].ContextType == want, "for other protocols the resource type written in the message is kept")
	vxCover("end")
}
