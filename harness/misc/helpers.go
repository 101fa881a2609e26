package misc

import (
	"errors"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_U01_bytes turns text into bytes and back.
//
//verif:opts weight=1
func VH_U01_bytes() {
	n := sym.Pick("n", sym.Bound(6, 9))
	s := sym.Str("s", n)
	b := Str2Bytes(s)
	sym.Assert(len(b) == n, "the bytes of a text are as many as its length")
	for i := range b {
		sym.Assert(b[i] == s[i], "the bytes of a text are its own")
	}
	sym.Assert(cap(b) == n, "nothing beyond the text can be reached through its bytes")
	more := append(b, 'x')
	sym.Assert(len(more) == n+1 && string(more[:n]) == s && more[n] == 'x', "appending to the bytes of a text gives the text and what is appended")
	raw := sym.Bytes("b", n)
	t := Bytes2Str(raw)
	sym.Assert(len(t) == n, "a text has the length of its bytes")
	for i := range raw {
		sym.Assert(t[i] == raw[i], "a text has the bytes it is made from")
	}
	if n > 2 {
		part := Bytes2Str(raw[1 : n-1])
		sym.Assert(len(part) == n-2 && part == string(raw[1:n-1]), "a text has the bytes it is made from")
		sym.Reach("part")
	}
	sym.Assert(Bytes2Str(Str2Bytes(s)) == s, "text to bytes and back is the same text")
	sym.Assert(Bytes2Str(nil) == "" && len(Str2Bytes("")) == 0, "nothing stays nothing")
}

// VH_U01_hex writes text in hexadecimal.
//
//verif:opts weight=1
func VH_U01_hex() {
	n := sym.Pick("n", sym.Bound(4, 6))
	s := sym.Str("s", n)
	h := Str2Hex(s)
	sym.Assert(len(h) == 2*n, "a byte takes two hexadecimal digits")
	dig := func(c byte) int {
		return sym.Sel(c <= '9', int(c)-'0', int(c)-'a'+10)
	}
	for i := 0; i < n; i++ {
		a, b := h[2*i], h[2*i+1]
		sym.Assert(sym.And(sym.Or(sym.And(a >= '0', a <= '9'), sym.And(a >= 'a', a <= 'f')), sym.Or(sym.And(b >= '0', b <= '9'), sym.And(b >= 'a', b <= 'f'))), "only hexadecimal digits are written")
		sym.Assert(dig(a)*16+dig(b) == int(s[i]), "two digits give the byte back")
	}
}

// VH_U01_xor combines any byte strings.
//
//verif:opts weight=1
func VH_U01_xor() {
	na, nb := sym.Pick("na", sym.Bound(5, 8)), sym.Pick("nb", sym.Bound(5, 8))
	a, b := sym.Bytes("a", na), sym.Bytes("b", nb)
	a0, b0 := string(a), string(b)
	x := Xor(a, b)
	n := na
	if nb < n {
		n = nb
	}
	sym.Assert(len(x) == n, "the result is as long as the shorter operand")
	y := Xor(b, a)
	for i := range x {
		sym.Assert(x[i] == a[i]^b[i], "each byte of the result is the exclusive or")
		sym.Assert(y[i] == x[i], "the operands can be exchanged")
	}
	back := Xor(x, b)
	for i := range back {
		sym.Assert(back[i] == a[i], "the operation undoes itself")
	}
	for i := range x {
		x[i] = 0
	}
	sym.Assert(sym.And(string(a) == a0, string(b) == b0), "the operands stay as they are")
}

type textErr struct{ s string }

func (e textErr) Error() string { return e.s }

type textStr struct{ s string }

func (e textStr) String() string { return e.s }

// VH_U01_text shows values of any kind as text.
//
//verif:opts weight=1
func VH_U01_text() {
	s := sym.Str("s", sym.Pick("n", 4))
	switch sym.Pick("kind", 6) {
	case 0:
		sym.Assert(ToString(s) == s, "a text is shown as it is")
	case 1:
		sym.Assert(ToString(errors.New(s)) == s, "an error is shown as its message")
	case 2:
		sym.Assert(ToString(textErr{s}) == s && ToString(&textErr{s}) == s, "an error is shown as its message")
	case 3:
		sym.Assert(ToString(textStr{s}) == s, "a value with its own text is shown as that")
	case 4:
		e := NewError(ServerErr, s, false)
		sym.Assert(ToString(e) == e.Error(), "an error is shown as its message")
	case 5:
		v := sym.Pick("v", 4)
		sym.Assert(ToString([]interface{}{7, -12, true, nil}[v]) == []string{"7", "-12", "true", "null"}[v], "a plain value is shown in its usual form")
	}
}

// VH_U01_contains searches lists for a text.
//
//verif:opts weight=1
func VH_U01_contains() {
	n := sym.Pick("n", sym.Bound(3, 4))
	l := List{}
	k := sym.Pick("k", 3)
	target := sym.Str("target", k)
	want := false
	ascii := func(c byte) bool { return c < 0x80 }
	low := func(c byte) int { return sym.Sel(sym.And(c >= 'A', c <= 'Z'), int(c)+32, int(c)) }
	for i := 0; i < k; i++ {
		sym.Assume(ascii(target[i]))
	}
	for i := 0; i < n; i++ {
		e := sym.Str("e", sym.Pick("len", 3))
		l = append(l, e)
		same := len(e) == k
		for j := 0; j < len(e); j++ {
			sym.Assume(ascii(e[j]))
			if len(e) == k {
				same = sym.And(same, low(e[j]) == low(target[j]))
			}
		}
		want = sym.Or(want, same)
	}
	sym.Assert(l.ContainsString(target) == want, "a text is found exactly when the list has it, in any case")
}
