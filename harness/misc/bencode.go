package misc

import (
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// A reference reader of the bencode grammar, written from BEP 3. It is used
// as the oracle for the decoders and encoders.
//
// st 0: not bencode; 1: bencode; 2: bencode with a spelling the property
// leaves open (string length with leading zeros).
type refParser struct {
	s     string
	loose bool
}

func refDigit(c byte) bool { return sym.And(c >= '0', c <= '9') }

// item reads one item at i and returns its value and the index behind it, or
// end -1 when there is no complete item.
func (p *refParser) item(i int) (interface{}, int) {
	if i >= len(p.s) {
		return nil, -1
	}
	c := p.s[i]
	switch {
	case c == 'i':
		return p.integer(i)
	case c == 'l':
		r := List{}
		i++
		for i < len(p.s) && p.s[i] != 'e' {
			v, n := p.item(i)
			if n < 0 {
				return nil, -1
			}
			r = append(r, v)
			i = n
		}
		if i >= len(p.s) {
			return nil, -1
		}
		return r, i + 1
	case c == 'd':
		r := Dict{}
		i++
		for i < len(p.s) && p.s[i] != 'e' {
			k, n := p.str(i)
			if n < 0 {
				return nil, -1
			}
			v, n := p.item(n)
			if n < 0 {
				return nil, -1
			}
			r[k] = v
			i = n
		}
		if i >= len(p.s) {
			return nil, -1
		}
		return r, i + 1
	case refDigit(c):
		k, n := p.str(i)
		if n < 0 {
			return nil, -1
		}
		return k, n
	}
	return nil, -1
}

func (p *refParser) integer(i int) (int, int) {
	i++
	neg := false
	if i < len(p.s) && p.s[i] == '-' {
		neg = true
		i++
	}
	st := i
	var v uint64
	for i < len(p.s) && refDigit(p.s[i]) {
		d := uint64(p.s[i] - '0')
		if i-st >= 18 { // the only place where it can overflow
			if i-st > 18 || v > (1<<63)/10 || v*10+d > 1<<63 {
				return 0, -1 // cannot be held, refused or an error either way
			}
		}
		v = v*10 + d
		i++
	}
	if i == st || i >= len(p.s) || p.s[i] != 'e' {
		return 0, -1
	}
	if p.s[st] == '0' && (i-st > 1 || neg) {
		return 0, -1
	}
	if neg {
		if v > 1<<63 {
			return 0, -1
		}
		return int(-v), i + 1
	}
	if v > 1<<63-1 {
		return 0, -1
	}
	return int(v), i + 1
}

func (p *refParser) str(i int) (string, int) {
	st := i
	n := 0
	for i < len(p.s) && refDigit(p.s[i]) {
		n = n*10 + int(p.s[i]-'0')
		if n > 1<<40 {
			return "", -1
		}
		i++
	}
	if i == st || i >= len(p.s) || p.s[i] != ':' {
		return "", -1
	}
	if i-st > 1 && p.s[st] == '0' {
		p.loose = true
	}
	i++
	if n > len(p.s)-i {
		return "", -1
	}
	n = sym.Fix(n)
	return p.s[i : i+n], i + n
}

// sameVal compares two decoded values.
func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case List:
		y, ok := b.(List)
		if !ok || len(x) != len(y) || x == nil || y == nil {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Dict:
		y, ok := b.(Dict)
		if !ok || len(x) != len(y) || x == nil || y == nil {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameVal(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

const (
	decInt = iota
	decStr
	decList
	decDict
	decLead
	decN
)

// runDecoder calls one decoder; leading dictionaries also report their end.
func runDecoder(which int, s string) (v interface{}, end int, err error) {
	end = len(s)
	switch which {
	case decInt:
		v, err = DecodeInteger(s)
	case decStr:
		v, err = DecodeString(s)
	case decList:
		var l List
		l, err = DecodeSlice(s)
		if err == nil && l == nil {
			sym.Fail("list decoder returned neither a list nor an error")
		}
		v = l
	case decDict:
		var d Dict
		d, err = DecodeDict(s)
		if err == nil && d == nil {
			sym.Fail("dictionary decoder returned neither a dictionary nor an error")
		}
		v = d
	case decLead:
		var d Dict
		d, end, err = DecodeDictNoLimit(s)
		if err == nil && d == nil {
			sym.Fail("leading-dictionary decoder returned neither a dictionary nor an error")
		}
		v = d
	}
	sym.Observe("err", err != nil)
	if err == nil {
		sym.Observe("val", v)
		sym.Observe("end", end)
	}
	return
}

// refDecode is the oracle for runDecoder.
func refDecode(which int, s string) (v interface{}, end int, loose bool) {
	p := &refParser{s: s}
	if len(s) == 0 {
		return nil, -1, false
	}
	ok := false
	switch which {
	case decInt:
		ok = s[0] == 'i'
	case decStr:
		ok = refDigit(s[0])
	case decList:
		ok = s[0] == 'l'
	default:
		ok = s[0] == 'd'
	}
	if !ok {
		return nil, -1, false
	}
	v, end = p.item(0)
	if which != decLead && end != len(s) {
		end = -1
	}
	return v, end, p.loose
}

func checkDecode(which int, s string) {
	v, end, err := runDecoder(which, s)
	rv, rend, loose := refDecode(which, s)
	if err == nil {
		sym.Assert(rend >= 0, "a decoder accepted bytes that are not bencode")
		if rend >= 0 {
			sym.Assert(sameVal(v, rv), "a decoder returned another value than the bytes say")
			sym.Assert(end == rend, "a decoder reported another end than that of the item")
		}
	} else {
		sym.Assert(rend < 0 || loose, "a decoder refused well-formed bencode")
	}
}

// Skeletons: well-formed items in which a window of bytes is made arbitrary.
var skeletons = []string{
	"i-12e",
	"i9223372036854775807e",
	"i-9223372036854775808e",
	"11:hello world",
	"5:a:b:c",
	"li1e2:abe",
	"llleledeee",
	"li0ei-7e0:e",
	"d1:ai1e1:b2:xye",
	"d1:a1:be",
	"d0:lee",
	"d1:adi1:b2:cde1:xlee",
	"d1:ad1:bd1:cleee",
	"d8:completei20e5:peersl6:abcdef6:ghijklee",
	"d1:q4:ping1:t2:aa1:y1:qe",
}

func skeleton(win int) string {
	i := sym.Pick("skeleton", len(skeletons))
	s := []byte(skeletons[i])
	// cut at any length, or lengthen by one byte
	at := sym.Pick("at", len(s)+1)
	w := sym.Bytes("win", win)
	switch sym.Pick("op", 3) {
	case 0: // overwrite
		n := copy(s[at:], w)
		_ = n
		return string(s)
	case 1: // overwrite, then end
		return string(s[:at]) + string(w)
	default: // insert
		return string(s[:at]) + string(w) + string(s[at:])
	}
}

// Every decoder on every byte string up to the bound.
//
//verif:opts weight=3
func VH_B01_bytes() {
	which := sym.Pick("decoder", decN)
	n := sym.Pick("len", sym.Bound(7, 9))
	s := sym.Str("s", n)
	_, _, _ = runDecoder(which, s)
	sym.Reach("decoded")
}

// Every decoder on well-formed items with an arbitrary window.
//
//verif:opts weight=3
func VH_B01_window() {
	which := sym.Pick("decoder", decN)
	s := skeleton(sym.Bound(2, 3))
	_, _, _ = runDecoder(which, s)
	sym.Reach("decoded")
}

// digits is a run of decimal digits: wholly arbitrary up to the bound, and
// around the limits of the machine integers with an arbitrary window.
func digits() string {
	var limits = []string{
		"9223372036854775807",
		"9223372036854775808",
		"18446744073709551615",
		"18446744073709551616",
		"999999999999999999",
		"99999999999999999999",
	}
	which := sym.Pick("limit", len(limits)+1)
	var d string
	if which == len(limits) {
		d = sym.Str("d", sym.Pick("digits", sym.Bound(6, 9)))
	} else {
		l := limits[which]
		w := sym.Bound(2, 3)
		at := sym.Pick("at", len(l)-w+1)
		d = l[:at] + sym.Str("d", w) + l[at+w:]
	}
	for i := 0; i < len(d); i++ {
		sym.Assume(refDigit(d[i]))
	}
	return d
}

// Numbers with many digits: string lengths near overflow.
func VH_B01_numbers() {
	which := sym.Pick("decoder", decN)
	d := digits()
	var s string
	switch sym.Pick("shape", 5) {
	case 0:
		s = d + ":abc"
	case 1:
		s = "l" + d + ":abce"
	case 2:
		s = "d" + d + ":abci1ee"
	case 3:
		s = "d1:a" + d + ":abce"
	case 4:
		s = "i" + d + "e"
	}
	_, _, _ = runDecoder(which, s)
	sym.Reach("decoded")
}

// VH_B01_deep nests lists and dictionaries without end.
//
//verif:opts depth=40000 steps=60000000
func VH_B01_deep() {
	if sym.Native() {
		debug.SetMaxStack(16 << 20)
	}
	n := 200000
	unit := []string{"l", "d1:a", "ld1:a", "dl", "li1e"}[sym.Pick("unit", 5)]
	s := strings.Repeat(unit, n)
	if sym.Pick("closed", 2) == 1 {
		s += strings.Repeat("e", n*strings.Count(unit, "l")+n*strings.Count(unit, "d"))
	}
	s = s[:len(s)-1] + string([]byte{sym.U8("last")})
	_, _, _ = runDecoder(sym.Pick("decoder", decN), s)
	sym.Reach("decoded")
}

//verif:opts weight=3
func VH_B03_bytes() {
	which := sym.Pick("decoder", decN)
	n := sym.Pick("len", sym.Bound(7, 9))
	checkDecode(which, sym.Str("s", n))
}

//verif:opts weight=3
func VH_B03_window() {
	which := sym.Pick("decoder", decN)
	checkDecode(which, skeleton(sym.Bound(1, 2)))
}

// Integers: value and overflow.
func VH_B03_integers() {
	d := digits()
	s := "i" + d + "e"
	if sym.Bool("neg") {
		s = "i-" + d + "e"
	}
	checkDecode(decInt, s)
}

// String lengths.
func VH_B03_lengths() {
	d := digits()
	switch sym.Pick("shape", 3) {
	case 0:
		checkDecode(decStr, d+":0123456789ab")
	case 1:
		checkDecode(decDict, "d1:a"+d+":0123456789abe")
	case 2:
		checkDecode(decLead, "d"+d+":0123456789abi1eexyz")
	}
}

// longStr is a long string with arbitrary bytes at its ends.
func longStr() string {
	n := []int{255, 256, 999, 1000, 32767, 32768, 65535, 65536, 100000, 1048577}[sym.Pick("long", sym.Bound(9, 10))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	b[0], b[1], b[n-1] = sym.U8("first"), sym.U8("second"), sym.U8("last")
	return string(b)
}

// VH_B03_long decodes long strings, alone and inside containers.
//
//verif:opts weight=2
func VH_B03_long() {
	v := longStr()
	s := strconv.Itoa(len(v)) + ":" + v
	var got interface{}
	var err error
	switch sym.Pick("shape", 6) {
	case 0:
		var x string
		x, err = DecodeString(s)
		got = x
	case 1:
		var x List
		x, err = DecodeSlice("l" + s + "i1ee")
		if err == nil {
			sym.Assert(len(x) == 2 && x[1] == 1, "a decoder gives another value than the grammar")
			got = x[0]
		}
	case 2:
		var x Dict
		x, err = DecodeDict("d1:a" + s + "1:bi1ee")
		if err == nil {
			sym.Assert(len(x) == 2 && x["b"] == 1, "a decoder gives another value than the grammar")
			got = x["a"]
		}
	case 3:
		var x Dict
		x, err = DecodeDict("d" + s + "i1ee")
		if err == nil {
			sym.Assert(len(x) == 1, "a decoder gives another value than the grammar")
			for k, w := range x {
				sym.Assert(w == 1, "a decoder gives another value than the grammar")
				got = k
			}
		}
	case 4:
		var x Dict
		var end int
		m := "d1:al" + s + "ee"
		x, end, err = DecodeDictNoLimit(m + "xyz")
		if err == nil {
			sym.Assert(end == len(m), "the reported end is not the end of the dictionary")
			got = x["a"].(List)[0]
		}
	case 5:
		var x List
		x, err = DecodeSlice("lld1:a" + s + "eee")
		if err == nil {
			got = x[0].(List)[0].(Dict)["a"]
		}
	}
	sym.Assert(err == nil, "well-formed bencode was refused")
	w, ok := got.(string)
	sym.Assert(ok && w == v, "a decoder gives another value than the grammar")
}

// VH_B03_many decodes lists and dictionaries of many items and of many levels.
func VH_B03_many() {
	n := []int{17, 100, 300, 1000}[sym.Pick("n", 4)]
	x := sym.U8("x")
	switch sym.Pick("shape", 3) {
	case 0:
		s := "l"
		for i := 0; i < n; i++ {
			s += "i" + strconv.Itoa(i) + "e"
		}
		l, err := DecodeSlice(s + "1:" + string([]byte{x}) + "e")
		sym.Assert(err == nil, "well-formed bencode was refused")
		sym.Assert(len(l) == n+1, "a decoder gives another value than the grammar")
		for i := 0; i < n; i++ {
			sym.Assert(l[i] == i, "a decoder gives another value than the grammar")
		}
		sym.Assert(l[n] == string([]byte{x}), "a decoder gives another value than the grammar")
	case 1:
		s := "d"
		for i := 0; i < n; i++ {
			s += "4:" + strconv.Itoa(1000+i) + "i" + strconv.Itoa(i) + "e"
		}
		d, end, err := DecodeDictNoLimit(s + "e" + string([]byte{x}))
		sym.Assert(err == nil, "well-formed bencode was refused")
		sym.Assert(len(d) == n && end == len(s)+1, "a decoder gives another value than the grammar")
		for i := 0; i < n; i++ {
			sym.Assert(d[strconv.Itoa(1000+i)] == i, "a decoder gives another value than the grammar")
		}
	case 2:
		s, e := "", ""
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				s, e = s+"l", "e"+e
			} else {
				s, e = s+"d1:a", "e"+e
			}
		}
		l, err := DecodeSlice(s + "1:" + string([]byte{x}) + e)
		sym.Assert(err == nil, "well-formed bencode was refused")
		var v interface{} = l
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				sym.Assert(len(v.(List)) == 1, "a decoder gives another value than the grammar")
				v = v.(List)[0]
			} else {
				sym.Assert(len(v.(Dict)) == 1, "a decoder gives another value than the grammar")
				v = v.(Dict)["a"]
			}
		}
		sym.Assert(v == string([]byte{x}), "a decoder gives another value than the grammar")
	}
}

// genVal builds an arbitrary value.
func genVal(name string, depth, width int) interface{} {
	kinds := 2
	if depth > 0 {
		kinds = 4
	}
	switch sym.Pick(name+".kind", kinds) {
	case 0:
		// wide integers are covered by the _int harnesses
		return sym.Range(name+".i", -3, sym.Bound(12, 123))
	case 1:
		lens := []int{0, 2, 11, 1, 103}
		return sym.Str(name+".s", lens[sym.Pick(name+".len", sym.Bound(3, 5))])
	case 2:
		n := sym.Pick(name+".n", width+1)
		l := make(List, 0)
		for i := 0; i < n; i++ {
			l = append(l, genVal(name+string(rune('a'+i)), depth-1, width))
		}
		return l
	default:
		return genDict(name, depth-1, sym.Bound(1, width))
	}
}

func genDict(name string, depth, width int) Dict {
	n := sym.Pick(name+".n", width+1)
	d := Dict{}
	for i := 0; i < n; i++ {
		k := sym.Str(name+".k"+string(rune('a'+i)), sym.Pick(name+".kl", 3))
		for o := range d {
			sym.Assume(o != k)
		}
		d[k] = genVal(name+string(rune('a'+i)), depth, sym.Bound(1, width))
	}
	return d
}

// An integer, alone.
func VH_B02_int() {
	v := sym.Int("v")
	e, err := EncodeInteger(v)
	sym.Assert(err == nil, "an integer was not encoded")
	w, err := DecodeInteger(e)
	sym.Observe("w", w)
	sym.Assert(sym.And(err == nil, w == v), "an integer did not survive the round trip")
}

// VH_B02_edges takes the integers at and next to the powers of two and of ten,
// one by one, so that decoders whose arithmetic cannot be expressed over
// symbolic values (floating point) are decided too.
func VH_B02_edges() {
	v := 1
	if k := sym.Pick("power", 82); k < 63 {
		v <<= uint(k)
	} else {
		for i := 63; i < k; i++ {
			v *= 10
		}
	}
	v += []int{0, 1, -1, 3}[sym.Pick("off", 4)]
	switch sym.Pick("sign", 3) {
	case 1:
		v = -v
	case 2:
		v = ^v
	}
	e, err := EncodeInteger(v)
	sym.Assert(err == nil, "an integer was not encoded")
	w, err := DecodeInteger(e)
	sym.Assert(err == nil && w == v, "an integer did not survive the round trip")
}

// A string, alone.
func VH_B02_str() {
	lens := []int{0, 1, 2, 3, 4, 5, 9, 10, 11, 99, 100, 101, 1000}
	v := sym.Str("v", lens[sym.Pick("len", len(lens))])
	e, err := EncodeString(v)
	sym.Assert(err == nil, "a string was not encoded")
	w, err := DecodeString(e)
	sym.Observe("w", w)
	sym.Assert(err == nil, "an encoded string was refused")
	sym.Assert(w == v, "a string did not survive the round trip")
}

// An arbitrary integer inside a list and a dictionary.
func VH_B02_intin() {
	v := sym.Int("v")
	if sym.Bool("dict") {
		e, err := EncodeDict(Dict{"k": v, "l": 7})
		sym.Assert(err == nil, "a dictionary was not encoded")
		d, err := DecodeDict(e)
		sym.Assert(err == nil, "an encoded dictionary was refused")
		w, ok := d["k"].(int)
		sym.Assert(sym.And(ok, w == v, d["l"] == 7), "an integer in a dictionary did not survive the round trip")
		return
	}
	e, err := EncodeSlice(List{"x", v, 7})
	sym.Assert(err == nil, "a list was not encoded")
	l, err := DecodeSlice(e)
	sym.Assert(err == nil, "an encoded list was refused")
	w, ok := l[1].(int)
	sym.Assert(sym.And(len(l) == 3, ok, w == v, l[0] == "x", l[2] == 7), "an integer in a list did not survive the round trip")
}

//verif:opts weight=2
func VH_B02_list() {
	n := sym.Pick("n", 3)
	v := make(List, 0)
	for i := 0; i < n; i++ {
		v = append(v, genVal(string(rune('a'+i)), sym.Bound(1, 2), 2))
	}
	e, err := EncodeSlice(v)
	sym.Assert(err == nil, "a list was not encoded")
	w, err := DecodeSlice(e)
	sym.Observe("w", w)
	sym.Assert(err == nil, "an encoded list was refused")
	sym.Assert(sameVal(v, w), "a list did not survive the round trip")
}

//verif:opts weight=2
func VH_B02_dict() {
	v := genDict("d", 1, 2)
	e, err := EncodeDict(v)
	sym.Assert(err == nil, "a dictionary was not encoded")
	w, err := DecodeDict(e)
	sym.Observe("w", w)
	sym.Assert(err == nil, "an encoded dictionary was refused")
	sym.Assert(sameVal(v, w), "a dictionary did not survive the round trip")
	tail := sym.Str("tail", sym.Pick("tl", 3))
	x, end, err := DecodeDictNoLimit(e + tail)
	sym.Assert(err == nil, "an encoded dictionary followed by other bytes was refused")
	sym.Assert(end == len(e), "the leading dictionary decoder consumed something else than the dictionary")
	sym.Assert(sameVal(v, x), "a leading dictionary did not survive the round trip")
}

type myInt int
type myString string
type myList List

// oddVal is any value, most of which bencode cannot express.
func oddVal(name string) (v interface{}, strange bool) {
	switch sym.Pick(name+".odd", 22) {
	case 0:
		return nil, true
	case 1:
		return sym.Bool(name + ".b"), true
	case 2:
		return 1.5, true
	case 3:
		return []byte("ab"), false
	case 4:
		return int64(sym.Range(name+".i64", -12, 123)), false
	case 5:
		return sym.U8(name + ".u8"), false
	case 6:
		return myInt(sym.Range(name+".mi", -12, 123)), false
	case 7:
		return myString("xy"), false
	case 8:
		return myList{1}, false
	case 9:
		return map[string]interface{}{"a": 1}, false
	case 10:
		return []interface{}{1}, false
	case 11:
		return List(nil), false
	case 12:
		return Dict(nil), false
	case 13:
		x := 1
		return &x, true
	case 14:
		return struct{}{}, true
	case 15:
		return map[string]int{"a": 1}, false
	case 16:
		return make(chan int), true
	case 17:
		return 2.0, true
	case 18:
		return float32(-3), true
	case 19:
		return -1e300, true
	case 20:
		return complex(1, 0), true
	}
	return sym.Range(name+".int", -12, 123), false
}

// describes tells whether the item says what v is.
func describes(item interface{}, v interface{}) bool {
	switch x := v.(type) {
	case int:
		return sameVal(item, x)
	case string:
		return sameVal(item, x)
	case int64:
		return sameVal(item, int(x))
	case uint8:
		return sameVal(item, int(x))
	case myInt:
		return sameVal(item, int(x))
	case myString:
		return sameVal(item, string(x))
	case []byte:
		return sameVal(item, string(x))
	case []interface{}:
		return describes(item, List(x))
	case myList:
		return describes(item, List(x))
	case map[string]interface{}:
		return describes(item, Dict(x))
	case map[string]int:
		d := Dict{}
		for k, v := range x {
			d[k] = v
		}
		return describes(item, d)
	case List:
		y, ok := item.(List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !describes(y[i], x[i]) {
				return false
			}
		}
		return true
	case Dict:
		y, ok := item.(Dict)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !describes(w, v) {
				return false
			}
		}
		return true
	}
	return false
}

func checkEncoded(e string, err error, v interface{}, must bool) {
	sym.Observe("err", err != nil)
	if err != nil {
		sym.Assert(!must, "a value bencode can express was refused")
		sym.Assert(e == "", "an encoder returned an error and bytes")
		return
	}
	sym.Observe("len", len(e))
	p := &refParser{s: e}
	item, end := p.item(0)
	sym.Assert(sym.And(end == len(e), !p.loose), "an encoder produced bytes that are not one bencode item")
	sym.Assert(describes(item, v), "an encoder produced an item that describes another value")
}

// Values bencode cannot express, at any place of a nested value.
//
//verif:opts weight=2
func VH_B04_odd() {
	x, strange := oddVal("x")
	var l List
	var d Dict
	switch sym.Pick("place", 7) {
	case 0:
		l = List{x}
	case 1:
		l = List{1, x, 2}
	case 2:
		l = List{List{"a", x}, "b"}
	case 3:
		l = List{Dict{"k": x}}
	case 4:
		d = Dict{"k": x}
	case 5:
		d = Dict{"k": List{x}}
	case 6:
		d = Dict{"k": Dict{"j": Dict{"i": x}}}
	}
	var e string
	var err error
	var v interface{}
	if l != nil {
		v = l
		e, err = EncodeSlice(l)
	} else {
		v = d
		e, err = EncodeDict(d)
	}
	if strange {
		sym.Assert(err != nil, "a value bencode cannot express was encoded")
	}
	_, isInt := x.(int)
	checkEncoded(e, err, v, isInt)
}

// Two odd values side by side, and two-key dictionaries.
func VH_B04_pair() {
	x, sx := oddVal("x")
	y, sy := oddVal("y")
	var e string
	var err error
	var v interface{}
	if sym.Bool("dict") {
		d := Dict{"a": x, "b": y}
		v = d
		e, err = EncodeDict(d)
	} else {
		l := List{x, y}
		v = l
		e, err = EncodeSlice(l)
	}
	if sx || sy {
		sym.Assert(err != nil, "a value bencode cannot express was encoded")
	}
	checkEncoded(e, err, v, false)
}

// Expressible values: the bytes are the item of that value.
//
//verif:opts weight=2
func VH_B04_expressible() {
	var e string
	var err error
	v := genVal("v", sym.Bound(2, 3), sym.Bound(1, 2))
	switch x := v.(type) {
	case int:
		e, err = EncodeInteger(x)
	case string:
		e, err = EncodeString(x)
	case List:
		e, err = EncodeSlice(x)
	case Dict:
		e, err = EncodeDict(x)
	}
	checkEncoded(e, err, v, true)
}

// Any integer: the digits say exactly that integer.
func VH_B04_integer() {
	v := sym.Int("v")
	e, err := EncodeInteger(v)
	checkEncoded(e, err, v, true)
	e, err = EncodeSlice(List{v})
	checkEncoded(e, err, List{v}, true)
}

// Absent containers.
func VH_B04_absent() {
	var l List
	var d Dict
	e, err := EncodeSlice(l)
	checkEncoded(e, err, l, false)
	e, err = EncodeDict(d)
	checkEncoded(e, err, d, false)
}

// refKeys reads the keys of an encoded dictionary in order.
func refKeys(e string) []string {
	p := &refParser{s: e}
	var ks []string
	i := 1
	for i < len(e) && e[i] != 'e' {
		k, n := p.str(i)
		if n < 0 {
			return nil
		}
		_, n = p.item(n)
		if n < 0 {
			return nil
		}
		ks = append(ks, k)
		i = n
	}
	return ks
}

func VH_B05_order() {
	n := sym.Pick("n", sym.Bound(4, 5))
	d := Dict{}
	names := []string{"a", "b", "aa", "ip"}
	for i := 0; i < n; i++ {
		d[names[i]] = i
	}
	sym.MapOrder(true)
	e1, err1 := EncodeDict(d)
	e2, err2 := EncodeDict(d)
	sym.MapOrder(false)
	sym.Assert(err1 == nil && err2 == nil, "a dictionary was not encoded")
	sym.Assert(len(e1) == len(e2), "the same dictionary was encoded to two lengths")
	ks := refKeys(e1)
	sym.Assert(len(ks) == n, "the encoding does not hold every key once")
	// only the order of two or more keys is the recorded finding
	sym.Known("key-order")
	for i := 1; i < len(ks); i++ {
		sym.Assert(ks[i-1] < ks[i], "keys are not in ascending order")
	}
	sym.Assert(e1 == e2, "the same dictionary was encoded to different bytes")
}

// Dictionaries of at most one key at every level are outside the finding.
func VH_B05_single() {
	d := Dict{sym.Str("k", sym.Pick("kl", 3)): genVal("v", 1, 1)}
	sym.MapOrder(true)
	e1, err1 := EncodeDict(d)
	e2, err2 := EncodeDict(d)
	sym.MapOrder(false)
	sym.Assert(err1 == nil && err2 == nil, "a dictionary was not encoded")
	sym.Assert(e1 == e2, "the same dictionary was encoded to different bytes")
}
