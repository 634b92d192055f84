package main

import (
	"encoding/json"

	"github.com/octarinesec/MAPL/MAPL_engine"
)

// ---- helpers shared by several properties ----

// docMessage is a message carrying a document as raw bytes (form 0) or decoded
// (form 1).
func docMessage(text string, form int) *MAPL_engine.MessageAttributes {
	raw := []byte(text)
	if form == 0 {
		return &MAPL_engine.MessageAttributes{RequestJsonRaw: &raw}
	}
	var v interface{}
	err := json.Unmarshal(raw, &v)
	vxAssume(err == nil)
	return &MAPL_engine.MessageAttributes{RequestRawInterface: &v}
}

// holds is the result of a conditions tree for a message.
func holds(tree interface{}, m *MAPL_engine.MessageAttributes) bool {
	r := parseRule(tree)
	err := r.SetPredefinedStringsAndLists(MAPL_engine.PredefinedStringsAndLists{})
	vxAssert(err == nil, "a well formed condition is accepted")
	vxAssume(err == nil)
	got, _ := r.TestConditions(m)
	return got
}

func numMethod(name string) (string, int) {
	m := vxPick(name, "EQ", "NEQ", "LT", "LE", "GT", "GE", "eq", "neq", "lt", "le", "gt", "ge", "NE", "ne")
	switch m {
	case "EQ", "eq":
		return m, 0
	case "NEQ", "neq", "NE", "ne":
		return m, 1
	case "LT", "lt":
		return m, 2
	case "LE", "le":
		return m, 3
	case "GT", "gt":
		return m, 4
	}
	return m, 5
}

func cmpInt(op int, a, b int64) bool {
	switch op {
	case 0:
		return a == b
	case 1:
		return a != b
	case 2:
		return a < b
	case 3:
		return a <= b
	case 4:
		return a > b
	}
	return a >= b
}

func cmpFloat(op int, a, b float64) bool {
	switch op {
	case 0:
		return a == b
	case 1:
		return a != b
	case 2:
		return a < b
	case 3:
		return a <= b
	case 4:
		return a > b
	}
	return a >= b
}

// digits is a numeral of n symbolic digits and its value. Leading zeros are
// chosen first, so that a parser that skips them needs no case of its own.
func digits(name string, n int) (string, int64) {
	b := make([]byte, n)
	var v int64
	zeros := vxChoose(name+".zeros", n+1)
	for i := range b {
		if i < zeros {
			b[i] = '0'
			continue
		}
		if i == zeros {
			b[i] = vxByte(name, "123456789")
		} else {
			b[i] = vxByte(name, "0123456789")
		}
		v = v*10 + int64(b[i]-'0')
	}
	return string(b), v
}

// numeral is an optionally signed numeral of up to max digits.
func numeral(name string, max int) (string, int64) {
	t, v := digits(name, 1+vxChoose(name+".len", max))
	switch vxPick(name+".sign", "", "-", "+") {
	case "-":
		return "-" + t, -v
	case "+":
		return "+" + t, v
	}
	return t, v
}

// integers: every 64-bit size against every written integer
func Check_C07_size() {
	max := 4
	if vxTier() == 1 {
		max = 9
	}
	text, v := numeral("n", max)
	method, op := numMethod("method")
	size := vxInt64("size")
	got := holds(cond("payloadSize", method, text), &MAPL_engine.MessageAttributes{RequestSize: size})
	vxObs("got", got)
	vxAssert(vxIff(got, cmpInt(op, size, v)), "the payload size is compared with the number written")
	vxCover("end")
}

// large written integers are exact
func Check_C07_large() {
	base := vxPick("base", "9007199254740993", "9223372036854775807", "-9223372036854775808", "4611686018427387905")
	var v int64
	switch base {
	case "9007199254740993":
		v = 9007199254740993
	case "9223372036854775807":
		v = 9223372036854775807
	case "-9223372036854775808":
		v = -9223372036854775808
	default:
		v = 4611686018427387905
	}
	method, op := numMethod("method")
	size := vxInt64("size")
	got := holds(cond("payloadSize", method, base), &MAPL_engine.MessageAttributes{RequestSize: size})
	vxObs("got", got)
	vxAssert(vxIff(got, cmpInt(op, size, v)), "large sizes are compared exactly")
	vxCover("end")
}

// units lists every unit with its factor; a negative factor divides.
var units = []struct {
	text   string
	factor int64
}{
	{"K", 1000}, {"M", 1000000}, {"G", 1000000000}, {"T", 1000000000000}, {"P", 1000000000000000}, {"E", 1000000000000000000},
	{"e3", 1000}, {"e6", 1000000}, {"e9", 1000000000}, {"e12", 1000000000000}, {"e15", 1000000000000000}, {"e18", 1000000000000000000},
	{"Ki", 1 << 10}, {"Mi", 1 << 20}, {"Gi", 1 << 30}, {"Ti", 1 << 40}, {"Pi", 1 << 50}, {"Ei", 1 << 60},
	{"m", -1000}, {"%", -100}, {"", 1},
}

// withUnit is a number with a unit; its value is num/den.
func withUnit(name string) (text string, num, den int64) {
	u := units[vxChoose(name+".unit", len(units))]
	n := 2
	if u.factor >= 1000000000000000000 {
		n = 1
	}
	t, v := digits(name, n)
	if u.factor >= 1000000000000000000 {
		vxAssume(v <= 7)
	}
	if u.factor < 0 {
		z := vxPick(name+".zeros", "", "0", "00")
		switch z {
		case "0":
			v *= 10
		case "00":
			v *= 100
		}
		return t + z + u.text, v, -u.factor
	}
	if vxChoose(name+".point", 2) == 1 && n == 2 && u.factor%10 == 0 {
		// one digit before the point and one after it
		return t[:1] + "." + t[1:] + u.text, v * (u.factor / 10), 1
	}
	return t + u.text, v * u.factor, 1
}

// sizes against numbers with units
func Check_C07_units() {
	text, num, den := withUnit("n")
	method, op := numMethod("method")
	bound := int64(1) << 53
	if den > 1 {
		bound = 1 << 40
	}
	size := vxInt("size", -bound, bound)
	got := holds(cond("payloadSize", method, text), &MAPL_engine.MessageAttributes{RequestSize: size})
	vxObs("got", got)
	vxAssert(vxIff(got, cmpInt(op, size*den, num)), "a unit multiplies the number before it")
	vxCover("end")
}

// decimal is a numeral with a point, as the nearest float.
func decimal(name string) (string, float64) {
	a, av := digits(name, 1+vxChoose(name+".int", 2))
	sign := vxPick(name+".sign", "", "-")
	var f float64
	t := a
	switch vxChoose(name+".frac", 3) {
	case 0:
		f = float64(av)
	case 1:
		b, bv := digits(name, 1)
		t = a + "." + b
		f = float64(av*10+bv) / 10
	case 2:
		b, bv := digits(name, 2)
		t = a + "." + b
		f = float64(av*100+bv) / 100
	}
	if sign == "-" {
		f = -f
	}
	return sign + t, f
}

// tenths is a numeral with one digit after the point.
func tenths(name string) (string, float64) {
	a, av := digits(name, 1)
	b, bv := digits(name, 1)
	f := float64(av*10+bv) / 10
	if vxChoose(name+".sign", 2) == 1 {
		return "-" + a + "." + b, -f
	}
	return a + "." + b, f
}

// time of day and encryption version are arbitrary floats
func Check_C07_float() {
	text, v := decimal("n")
	method, op := numMethod("method")
	x := vxFloat64("x")
	vxAssume(x == x)
	m := &MAPL_engine.MessageAttributes{RequestTimeHoursFromMidnightUTC: x}
	attr := "utcHoursFromMidnight"
	if op != 1 && vxChoose("attr", 2) == 1 {
		attr = "encryptionVersion"
		y := x
		m = &MAPL_engine.MessageAttributes{EncryptionVersion: &y, RequestTimeHoursFromMidnightUTC: x + 1}
	}
	got := holds(cond(attr, method, text), m)
	vxObs("got", got)
	vxAssert(vxIff(got, cmpFloat(op, x, v)), "a float attribute is compared with the number written")
	vxCover("end")
}

// numbers written with units apply to the float attributes too
func Check_C07_floatunits() {
	text, num, den := withUnit("n")
	method, op := numMethod("method")
	x := vxInt("x", -100000, 100000)
	got := holds(cond("utcHoursFromMidnight", method, text), &MAPL_engine.MessageAttributes{RequestTimeHoursFromMidnightUTC: float64(x)})
	vxObs("got", got)
	vxAssert(vxIff(got, cmpInt(op, int64(x)*den, num)), "a unit multiplies the number for float attributes")
	vxCover("end")
}

// an absent encryption version satisfies no comparison
func Check_C07_absent() {
	method := vxPick("method", "EQ", "LT", "LE", "GT", "GE", "eq", "lt", "le", "gt", "ge")
	text, _ := numeral("n", 2)
	got := holds(cond("encryptionVersion", method, text), &MAPL_engine.MessageAttributes{})
	vxObs("got", got)
	vxAssert(!got, "a message without an encryption version satisfies no comparison with it")
	vxCover("end")
}

var upperMethods = []string{"EQ", "NEQ", "LT", "LE", "GT", "GE"}

// document fields: numbers and numeric strings
func Check_C07_document() {
	form := vxChoose("form", 2)
	var op int
	var text, a string
	var v, av float64
	side := vxChoose("side", 4)
	if vxTier() == 0 {
		vxAssume(side < 3)
	}
	switch side {
	case 0:
		op = vxChoose("op", 6)
		text, v = tenths("n")
		a, av = tenths("doc")
	case 1:
		op = 2 * vxChoose("op", 2)
		text, v = decimal("n")
		a, av = tenths("doc")
	case 2:
		op = 2 * vxChoose("op", 2)
		text, v = tenths("n")
		a, av = decimal("doc")
	case 3:
		op = vxChoose("op", 6)
		text, v = decimal("n")
		a, av = decimal("doc")
	}
	if vxChoose("quoted", 2) == 1 {
		a = "\"" + a + "\""
	} else {
		vxAssume(jsonNumber(a))
	}
	m := docMessage("{\"f\":"+a+"}", form)
	got := holds(cond("jsonpath:$.f", upperMethods[op], text), m)
	vxObs("got", got)
	vxAssert(vxIff(got, cmpFloat(op, av, v)), "a document number is compared with the number written")
	vxCover("end")
}

// every spelling of the methods
func Check_C07_documentmethods() {
	form := vxChoose("form", 2)
	method, op := numMethod("method")
	text, v := numeral("n", 2)
	a, av := digits("doc", 2)
	m := docMessage("{\"f\":\""+a+"\"}", form)
	got := holds(cond("jsonpath:$.f", method, text), m)
	vxObs("got", got)
	vxAssert(vxIff(got, cmpInt(op, av, v)), "upper-case and lower-case methods compare document numbers alike")
	vxCover("end")
}

// jsonNumber tells whether a decimal may stand unquoted in a document.
func jsonNumber(a string) bool {
	if a[0] == '-' {
		a = a[1:]
	}
	return len(a) == 1 || a[0] != '0' || a[1] == '.'
}

func Check_C07_documentunits() {
	form := vxChoose("form", 2)
	op := vxChoose("op", 6)
	text, num, den := withUnit("n")
	dt := []byte{vxByte("doc", "123456789"), vxByte("doc", "0123456789")}
	dn := int64(dt[0]-'0')*10 + int64(dt[1]-'0')
	us := []int{0, 7, 12, 18, 19, 20}
	if vxTier() == 1 {
		us = []int{0, 1, 2, 3, 6, 7, 8, 9, 12, 13, 14, 18, 19, 20}
	}
	u := units[us[vxChoose("doc.unit", len(us))]]
	dd := int64(1)
	if u.factor < 0 {
		dd = -u.factor
	} else {
		dn *= u.factor
	}
	// cross multiplication would overflow for the largest pairs
	if num >= 1<<52 {
		num = 1 << 52
	}
	m := docMessage("{\"f\":\""+string(dt)+u.text+"\"}", form)
	got := holds(cond("jsonpath:$.f", upperMethods[op], text), m)
	vxObs("got", got)
	vxAssert(vxIff(got, cmpInt(op, dn*den, num*dd)), "units apply to the document and to the condition alike")
	vxCover("end")
}
