package main

import (
	"net"
	"strconv"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// octet is the decimal text of a symbolic number 0..255 with the given number
// of digits, and its value.
func octet(name string, digits int) (string, int) {
	b := make([]byte, digits)
	v := 0
	for i := range b {
		b[i] = vxByte(name, "0123456789")
		v = v*10 + int(b[i]-'0')
	}
	if digits > 1 {
		vxAssume(b[0] != '0')
	}
	if digits > 2 {
		vxAssume(v <= 255)
	}
	return string(b), v
}

// address is dotted decimal text with symbolic octets and its value.
func address(name string, lens [4]int) (string, uint32) {
	s := ""
	var v uint32
	for i, l := range lens {
		t, o := octet(name, l)
		if i > 0 {
			s += "."
		}
		s += t
		v = v<<8 | uint32(o)
	}
	return s, v
}

func pickLens(name string) [4]int {
	all := [][4]int{{1, 1, 1, 1}, {2, 1, 3, 1}, {3, 2, 1, 3}}
	if vxTier() == 1 {
		all = append(all, [4]int{3, 3, 3, 3}, [4]int{1, 2, 2, 3}, [4]int{2, 3, 1, 2})
	}
	return all[vxChoose(name, len(all))]
}

// entryLens are the shapes of address texts compared with each other; some
// texts of one shape begin or end with texts of another.
var entryLens = [][4]int{{1, 1, 1, 1}, {1, 1, 1, 2}, {1, 1, 1, 3}, {2, 1, 1, 1}, {3, 1, 1, 1}, {2, 1, 3, 1}, {3, 2, 1, 3}}

func anyIP(name string) (net.IP, uint32) {
	v := uint32(vxInt32(name))
	ip := net.IP{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	if vxChoose(name+".form", 2) == 1 {
		ip = net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return ip, v
}

func inNet(n uint32, bits int, a uint32) bool {
	if bits == 0 {
		return true
	}
	sh := uint(32 - bits)
	return n>>sh == a>>sh
}

// subnetRule puts entries on one side.
func subnetRule(side int, entries string) *MAPL_engine.Rule {
	r := starRule("r", "allow")
	if side == 0 {
		r.Sender = MAPL_engine.Sender{SenderName: entries, SenderType: "subnet"}
	} else {
		r.Receiver = MAPL_engine.Receiver{ReceiverName: entries, ReceiverType: "subnet"}
	}
	return &r
}

func onSide(side int, mine, other net.IP) *MAPL_engine.MessageAttributes {
	m := &MAPL_engine.MessageAttributes{SourceNetIp: mine, DestinationNetIp: other}
	if side == 1 {
		m.SourceNetIp, m.DestinationNetIp = other, mine
	}
	return m
}

func Check_C04_cidr() {
	side := vxChoose("side", 2)
	text, n := address("net", pickLens("lens"))
	bits := vxChoose("bits", 33)
	ip, a := anyIP("ip")
	other, _ := anyIP("other")
	r := subnetRule(side, text+"/"+strconv.Itoa(bits))
	vxAssert(r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{}) == nil, "a CIDR is accepted")
	got, _ := r.Check(onSide(side, ip, other))
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.ALLOW, inNet(n, bits, a)), "a CIDR matches the addresses that share its prefix")
	vxCover("end")
	if got == MAPL_engine.ALLOW {
		vxCover("match")
	}
}

func Check_C04_star() {
	side := vxChoose("side", 2)
	ip, _ := anyIP("ip")
	r := subnetRule(side, "*")
	got, _ := r.Check(onSide(side, ip, nil))
	vxObs("got", got)
	vxAssert(got == MAPL_engine.ALLOW, "* matches every IPv4 address")
	vxCover("end")
}

// address entries against messages loaded from text
func Check_C04_address() {
	side := vxChoose("side", 2)
	text, n := address("entry", entryLens[vxChoose("lens", len(entryLens))])
	at, a := address("addr", entryLens[vxChoose("alens", len(entryLens))])
	ot, _ := address("other", [4]int{1, 1, 1, 1})
	m := &MAPL_engine.MessageAttributes{SourceIp: at, DestinationIp: ot}
	if side == 1 {
		m.SourceIp, m.DestinationIp = ot, at
	}
	MAPL_engine.AddNetIpToMessage(m)
	r := subnetRule(side, text)
	got, _ := r.Check(m)
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.ALLOW, n == a), "an address entry matches exactly that address")
	vxCover("end")
	if got == MAPL_engine.ALLOW {
		vxCover("match")
	}
}

// lists of two entries of either kind
func Check_C04_lists() {
	side := vxChoose("side", 2)
	at, a := address("addr", [4]int{1, 2, 1, 1})
	m := &MAPL_engine.MessageAttributes{SourceIp: at, DestinationIp: "9.9.9.9"}
	if side == 1 {
		m.SourceIp, m.DestinationIp = "9.9.9.9", at
	}
	MAPL_engine.AddNetIpToMessage(m)
	list := ""
	want := false
	for i := 0; i < 2; i++ {
		text, n := address("entry", [4]int{1, 2, 1, 1})
		if i > 0 {
			list += ","
		}
		switch vxChoose("kind", 6) {
		case 0:
			list += text
			want = vxOr(want, n == a)
		case 1:
			list += text + "/8"
			want = vxOr(want, inNet(n, 8, a))
		case 2:
			list += text + "/23"
			want = vxOr(want, inNet(n, 23, a))
		case 3:
			list += text + "/32"
			want = vxOr(want, inNet(n, 32, a))
		case 4:
			list += text + "/0"
			want = true
		case 5:
			list += "*"
			want = true
		}
	}
	r := subnetRule(side, list)
	got, _ := r.Check(m)
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.ALLOW, want), "a list matches when any entry does")
	vxCover("end")
}

// both sides at once: each entry is compared with its own address
func Check_C04_sides() {
	ip, a := anyIP("src")
	op, b := anyIP("dst")
	r := starRule("r", "allow")
	r.Sender = MAPL_engine.Sender{SenderName: "10.1.0.0/16", SenderType: "subnet"}
	r.Receiver = MAPL_engine.Receiver{ReceiverName: "192.168.7.0/25", ReceiverType: "subnet"}
	m := &MAPL_engine.MessageAttributes{SourceNetIp: ip, DestinationNetIp: op}
	got, _ := r.Check(m)
	vxObs("got", got)
	vxAssert(vxIff(got == MAPL_engine.ALLOW, vxAnd(a>>16 == 10<<8|1, b>>7 == (192<<24|168<<16|7<<8)>>7)), "each side is compared with its own address")
	vxCover("end")
}

// anything that is not an address or CIDR is refused
func Check_C04_invalid() {
	side := vxChoose("side", 2)
	var e string
	switch vxChoose("kind", 6) {
	case 0: // an octet above 255
		d := make([]byte, 3)
		v := 0
		for i := range d {
			d[i] = vxByte("big", "0123456789")
			v = v*10 + int(d[i]-'0')
		}
		vxAssume(v > 255)
		e = "1.2." + string(d) + ".4"
	case 1: // a prefix above 32
		d := make([]byte, 2)
		v := 0
		for i := range d {
			d[i] = vxByte("bits", "0123456789")
			v = v*10 + int(d[i]-'0')
		}
		vxAssume(v > 32)
		e = "1.2.3.4/" + string(d)
	case 2: // too few octets
		t, _ := octet("o", 2)
		e = "1.2." + t
	case 3: // no digits at all
		e = vxStr("word", 1, 3, "ghxyz-")
	case 4: // too short to be an address
		e = vxStr("short", 1, 4, "*x./1")
		vxAssume(e != "*")
	case 5: // an address or CIDR with something around it
		before, after := vxStr("before", 0, 1, "*x./-"), vxStr("after", 0, 1, "*x./-")
		vxAssume(before+after != "")
		e = before + vxPick("inside", "1.2.3.4", "1.2.3.4/8") + after
	}
	list := e
	if vxChoose("list", 2) == 1 {
		list = "1.1.1.1," + e
	}
	r := subnetRule(side, list)
	err := r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{})
	vxObs("err", err != nil)
	vxAssert(err != nil, "an entry that is no address and no CIDR is an error")
	_, err = MAPL_engine.ConvertStringToExpandedSenderReceiver(list, "subnet")
	vxAssert(err != nil, "conversion reports the entry")
	vxCover("end")
}
