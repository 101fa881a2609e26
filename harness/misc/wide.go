package misc

import (
	"context"
	"errors"
	"io/ioutil"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// wdText is a text of n bytes, the last of which is arbitrary.
func wdText(n int) string {
	c := sym.Str("end", 1)
	sym.Assume(sym.And(c[0] >= 'A', c[0] <= 'Z'))
	return strings.Repeat("text ", n/5) + strings.Repeat("x", n%5) + c
}

// VH_B02_wide takes lists and dictionaries with many entries.
//
//verif:opts
func VH_B02_wide() {
	n := []int{15, 16, 17, 33, 100, 300}[sym.Pick("n", 6)]
	what := sym.Pick("what", 3)
	item := func(i int) interface{} {
		switch {
		case what == 0 || what == 2 && i%3 == 0:
			return i*7919 - 50
		case what == 1 || i%3 == 1:
			return strings.Repeat("v", i)
		}
		return List{i}
	}
	same := func(a interface{}, i int) bool {
		switch w := item(i).(type) {
		case int:
			v, ok := a.(int)
			return ok && v == w
		case string:
			v, ok := a.(string)
			return ok && v == w
		}
		v, ok := a.(List)
		return ok && len(v) == 1 && v[0] == i
	}
	l := List{}
	d := Dict{}
	for i := 0; i < n; i++ {
		l = append(l, item(i))
		d["key"+strconv.Itoa(i)] = item(i)
	}
	if sym.Pick("list", 2) == 1 {
		e, err := EncodeSlice(l)
		sym.Assert(err == nil, "a list was not encoded")
		r, err := DecodeSlice(e)
		sym.Assert(err == nil && len(r) == n, "an encoded list was refused")
		for i, v := range r {
			sym.Assert(same(v, i), "a list did not survive the round trip")
		}
		return
	}
	e, err := EncodeDict(d)
	sym.Assert(err == nil, "a dictionary was not encoded")
	r, err := DecodeDict(e)
	sym.Assert(err == nil && len(r) == n, "an encoded dictionary was refused")
	for i := 0; i < n; i++ {
		sym.Assert(same(r["key"+strconv.Itoa(i)], i), "a dictionary did not survive the round trip")
	}
	r, end, err := DecodeDictNoLimit(e + "rest")
	sym.Assert(err == nil && end == len(e) && len(r) == n, "the leading dictionary decoder consumed something else than the dictionary")
}

// VH_Y01_large takes buffers of larger sizes.
//
//verif:opts
func VH_Y01_large() {
	sizes := []int{7, 8, 9, 100, 1000, 1023, 1024, 1025, 4095, 4097, 5000, 32768, 65537, 1000000}
	bp := NewBytesPool(2, sizes[sym.Pick("default", 3)])
	size := sizes[sym.Pick("size", len(sizes))]
	a := bp.GetBySize(size)
	sym.Assert(len(a) == size, "a buffer has the requested length")
	b := bp.GetBySize(size + 1)
	sym.Assert(len(b) == size+1, "a buffer has the requested length")
	switch sym.Pick("back", 3) {
	case 0:
		bp.Put(a)
	case 1:
		bp.Put(a[:size/2])
		bp.Put(b[:1])
	case 2:
		bp.Put(b)
	}
	for _, s := range []int{size, size - 1, size + 1, size + 2, size, size + 1} {
		sym.Assert(len(bp.GetBySize(s)) == s, "a buffer has the requested length")
	}
}

// VH_L01_long logs long texts and many fields.
//
//verif:opts
func VH_L01_long() {
	msg := wdText([]int{3, 60, 255, 256, 1024, 5000, 70000}[sym.Pick("len", 7)])
	prefix := strings.Repeat("P", 1+99*sym.Pick("prefix", 2))
	n := []int{0, 1, 17, 60}[sym.Pick("fields", 4)]
	ctx := Dict{}
	for i := 0; i < n; i++ {
		ctx["field"+strconv.Itoa(i)] = "value" + strconv.Itoa(i) + "-"
	}
	ctx["big"] = msg + "!"
	l := GetLogger("verif long").SetPrefix(prefix)
	sym.CaptureStdout()
	l.Error(msg, ctx)
	out := sym.Stdout()
	sym.Assert(strings.Count(out, "\n") == 1, "a message is emitted once")
	sym.Assert(strings.Contains(out, prefix), "the prefix is emitted")
	sym.Assert(strings.Count(out, msg) == 2 && strings.Contains(out, msg+"!"), "the text is emitted")
	for i := 0; i < n; i++ {
		sym.Assert(strings.Contains(out, "field"+strconv.Itoa(i)) && strings.Contains(out, "value"+strconv.Itoa(i)+"-"), "every field is emitted")
	}
}

// VH_L03_long logs long texts and many fields to a file.
//
//verif:opts real steps=60000000
func VH_L03_long() {
	msg := wdText([]int{3, 255, 1024, 5000, 70000}[sym.Pick("len", 5)])
	n := []int{0, 1, 17, 60}[sym.Pick("fields", 4)]
	ctx := Dict{}
	for i := 0; i < n; i++ {
		ctx["field"+strconv.Itoa(i)] = "value" + strconv.Itoa(i)
	}
	ctx["big"] = msg + "!"
	l := NewZapLogger("veriflong", "info")
	l.Info(msg, ctx)
	l.Info("next", nil)
	b, err := ioutil.ReadFile("logs/veriflong.log")
	sym.Assert(err == nil, "a message is written")
	lines := strings.Split(string(b), "\n")
	sym.Assert(len(lines) == 3 && lines[2] == "", "a message is one whole line")
	sym.Assert(strings.Contains(lines[0], `"`+msg+`"`) && strings.Contains(lines[0], `"`+msg+`!"`), "a line has the text")
	for i := 0; i < n; i++ {
		sym.Assert(strings.Contains(lines[0], `"field`+strconv.Itoa(i)+`":"value`+strconv.Itoa(i)+`"`), "a line has every field")
	}
	sym.Assert(strings.Contains(lines[1], `"next"`), "a message is one whole line")
}

// VH_K08_long makes errors of long texts and many parameters.
//
//verif:opts
func VH_K08_long() {
	msg := wdText([]int{3, 100, 255, 1024, 5000}[sym.Pick("len", 5)])
	n := []int{0, 1, 10, 40}[sym.Pick("params", 4)]
	var ps []interface{}
	for i := 0; i < n; i++ {
		ps = append(ps, "param"+strconv.Itoa(i)+".")
	}
	big := wdText(400)
	ps = append(ps, big)
	var err interface{}
	switch sym.Pick("how", 3) {
	case 0:
		err = NewError(ProtocolErr, msg, false, ps...)
	case 1:
		err = sym.Caught(func() { PanicBizErr(msg, ps...) })
	case 2:
		err = sym.Caught(func() { PanicBizErrNonNil(errors.New("cause"), msg, ps...) })
	}
	e, ok := err.(*Error)
	sym.Assert(ok, "the library's own error is raised")
	text := e.Error()
	sym.Assert(strings.Contains(text, msg), "the text has the message")
	for i := 0; i < n; i++ {
		sym.Assert(strings.Contains(text, "param"+strconv.Itoa(i)+"."), "the text has the parameters")
	}
	sym.Assert(strings.Contains(text, big), "the text has the parameters")
	sym.Assert(!strings.Contains(text, "goroutine") && !strings.Contains(text, ".go:"), "the text has no stack")
}

// VH_W01_many runs many tasks on a few workers.
//
//verif:opts
func VH_W01_many() {
	size := []int{1, 2, 3, 20}[sym.Pick("size", 4)]
	pool := NewWorkPool(context.Background(), "verif", size)
	n := []int{50, 130, 300, sym.Bound(1100, 5000)}[sym.Pick("n", 4)]
	ran := make([]int32, n)
	for i := 0; i < n; i++ {
		i := i
		pool.AsyncSubmit(func() { atomic.AddInt32(&ran[i], 1) })
		if i == n/2 {
			sym.Settle()
		}
	}
	sym.Settle()
	time.Sleep(10 * time.Millisecond)
	for i := range ran {
		sym.Assert(atomic.LoadInt32(&ran[i]) == 1, "every accepted task runs exactly once")
	}
}

// VH_W02_many shuts a pool of many workers and tasks down.
//
//verif:opts replays=2
func VH_W02_many() {
	size := []int{5, 17, 40}[sym.Pick("size", 3)]
	base := sym.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	pool := NewWorkPool(ctx, "verif", size)
	sym.Settle()
	n := size * (1 + sym.Pick("full", 2))
	ran := make([]int32, n)
	for i := 0; i < n; i++ {
		i := i
		pool.AsyncSubmit(func() {
			time.Sleep(300 * time.Millisecond)
			atomic.AddInt32(&ran[i], 1)
		})
	}
	if sym.Pick("how", 2) == 0 {
		pool.Shutdown(1500 * time.Millisecond)
		for i := range ran {
			sym.Assert(atomic.LoadInt32(&ran[i]) == 1, "a task accepted before the shutdown runs exactly once")
		}
	}
	cancel()
	time.Sleep(1200 * time.Millisecond)
	for i := range ran {
		sym.Assert(atomic.LoadInt32(&ran[i]) == 1, "a task accepted before the shutdown runs exactly once")
	}
	sym.Assert(pool.Status() == Shutdowned, "the pool is shut down")
	sym.Settle()
	sym.Assert(sym.Goroutines() <= base, "no worker keeps running")
}

// VH_U01_long takes long texts and lists.
//
//verif:opts
func VH_U01_long() {
	n := []int{16, 20, 64, 255, 1024, 5000}[sym.Pick("n", 6)]
	s := wdText(n)
	h := Str2Hex(s)
	sym.Assert(len(h) == 2*len(s), "a byte takes two hexadecimal digits")
	const digits = "0123456789abcdef"
	for i := 0; i < len(s)-1; i++ {
		sym.Assert(h[2*i] == digits[s[i]>>4] && h[2*i+1] == digits[s[i]&15], "hexadecimal text gives the bytes back")
	}
	sym.Assert(ToString(s) == s && ToString(errors.New(s)) == s, "texts and errors are shown as they are")
	b := Str2Bytes(s)
	sym.Assert(len(b) == len(s) && cap(b) == len(s) && Bytes2Str(b) == s, "text and bytes convert without loss")
	a := make([]byte, n+3)
	for i := range a {
		a[i] = byte(i * 5)
	}
	x := Xor(a, b)
	sym.Assert(len(x) == len(b), "exclusive-or takes the shorter length")
	for i := range x {
		sym.Assert(x[i] == a[i]^b[i] && a[i] == byte(i*5), "exclusive-or is byte-wise")
	}
	l := List{}
	for i := 0; i < n/8; i++ {
		l = append(l, "entry"+strconv.Itoa(i))
	}
	l = append(l, s)
	sym.Assert(l.ContainsString(s) && l.ContainsString("ENTRY0") && !l.ContainsString("entry") && !l.ContainsString(s+"x"), "a list contains its entries")
}
