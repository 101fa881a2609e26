package misc

import (
	"io/ioutil"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

var flNames = []string{"DEBUG", "INFO", "WARN", "ERROR", "PANIC", "TRACE"}

func flLog(l Logger, how int, msg string, ctx Dict) {
	switch how {
	case 0:
		l.Debug(msg, ctx)
	case 1:
		l.Info(msg, ctx)
	case 2:
		l.Warn(msg, ctx)
	case 3:
		l.Error(msg, ctx)
	case 4:
		l.Panic(msg, ctx)
	case 5:
		l.Trace(msg, ctx)
	}
}

func flLines(name string) []string {
	b, err := ioutil.ReadFile("logs/" + name + ".log")
	if err != nil {
		return nil
	}
	s := string(b)
	if s == "" {
		return nil
	}
	sym.Assert(s[len(s)-1] == '\n', "a message is one whole line")
	return strings.Split(s[:len(s)-1], "\n")
}

func flText(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(sym.And(s[i] >= 'A', s[i] <= 'Z'), s[i] == '%', s[i] == ' '))
	}
	return s
}

// flLevel is the name of a level in any spelling.
func flLevel(i int) string {
	b := []byte(flNames[i])
	switch sym.Pick("spelling", 3) {
	case 1:
		b = []byte(strings.ToLower(string(b)))
	case 2:
		b[0] = b[0] + 32
	}
	return string(b)
}

// VH_L03_file logs at every level through file loggers of every level.
//
//verif:opts real weight=4
func VH_L03_file() {
	level := sym.Pick("level", 6)
	how := sym.Pick("how", 6)
	l := NewZapLogger("verif", flLevel(level))
	prefix := ""
	switch sym.Pick("derive", 3) {
	case 1:
		prefix = "#p"
		l = l.SetPrefix(prefix)
	case 2:
		prefix = "#q"
		l = l.SetPrefix("#other").SetPrefix(prefix)
	}
	msg := "!" + flText("msg", sym.Pick("msg.len", sym.Bound(2, 3)))
	var ctx Dict
	fields := sym.Pick("fields", 4)
	val, num := flText("val", 1), sym.Range("num", 100, 102)
	if fields > 0 {
		ctx = Dict{}
	}
	if fields > 1 {
		ctx["!one"] = "?" + val
	}
	if fields > 2 {
		ctx["!two"] = num
	}
	was := len(flLines("verif"))
	p := sym.Caught(func() { flLog(l, how, msg, ctx) })
	l.Flush()
	sym.Assert((p != nil) == (how == 4), "Panic panics, and nothing else does")
	lines := flLines("verif")[was:]
	if how < level {
		sym.Assert(len(lines) == 0, "a message below the level is not written")
		sym.Reach("filtered")
		return
	}
	sym.Assert(len(lines) == 1, "a message at or above the level is written in one line")
	s := lines[0]
	sym.Assert(s[0] == '{' && s[len(s)-1] == '}', "a message is one JSON object")
	if how < 5 {
		sym.Assert(strings.Contains(s, `"level":"`+strings.ToLower(flNames[how])+`"`), "the level is written")
	}
	text := msg
	if prefix != "" {
		text = "[" + prefix + "]" + msg
	}
	sym.Assert(strings.Contains(s, `"msg":"`+text+`"`), "the prefix and text are written")
	if fields > 1 {
		sym.Assert(strings.Contains(s, `"!one":"?`+val+`"`), "the fields are written")
	}
	if fields > 2 {
		sym.Assert(strings.Contains(s, `"!two":`+string([]byte{'1', '0', byte('0' + num - 100)})), "the fields are written")
	}
	sym.Reach("written")
}

// VH_L03_odd logs texts that JSON has to escape, and values of any kind.
//
//verif:opts real weight=2
func VH_L03_odd() {
	l := NewZapLogger("verif", "info")
	c := sym.U8("c")
	ctx := Dict{"k": []interface{}{nil, "x\ny", List{1, "a"}, Dict{"a": Dict{"b": 1}}, int64(5), []byte{1, 10}, 1.5, struct{ A int }{3}, func() {}}[sym.Pick("value", 9)]}
	msg := "!" + string([]byte{c}) + "!"
	where := sym.Pick("where", 3)
	switch where {
	case 1:
		msg, ctx = "!x!", Dict{"k": "!" + string([]byte{c}) + "!"}
	case 2:
		msg, ctx = "!x!", Dict{"!" + string([]byte{c}) + "!": 1}
	}
	was := len(flLines("verif"))
	l.Info("before", nil)
	l.Info(msg, ctx)
	l.Info("after", nil)
	lines := flLines("verif")[was:]
	sym.Assert(len(lines) == 3, "a message at or above the level is written in one line")
	s := lines[1]
	sym.Assert(s[0] == '{' && s[len(s)-1] == '}', "a message is one JSON object")
	if c >= ' ' && c < 0x7f && c != '"' && c != '\\' {
		sym.Assert(strings.Contains(s, "!"+string([]byte{c})+"!"), "the text is written")
	}
}

// VH_L03_names keeps the files of different names apart.
//
//verif:opts real
func VH_L03_names() {
	a, b := NewZapLogger("verifa", "info"), NewZapLogger("verifb", "error")
	wa, wb := len(flLines("verifa")), len(flLines("verifb"))
	n := sym.Bound(3, 4)
	na, nb := 0, 0
	for i := 0; i < n; i++ {
		switch sym.Pick("who", 4) {
		case 0:
			a.Info("text", nil)
			na++
		case 1:
			b.Error("text", nil)
			nb++
		case 2:
			b.Info("text", nil)
		case 3:
			a.SetPrefix("p").Warn("text", nil)
			na++
		}
	}
	sym.Assert(len(flLines("verifa")) == wa+na && len(flLines("verifb")) == wb+nb, "each name has its own file")
}

// VH_L03_race logs from several goroutines at once.
//
//verif:opts real weight=3 race preempt=1 tpreempt=2
func VH_L03_race() {
	l := NewZapLogger("verif", "info")
	l.Info("first", nil)
	was := len(flLines("verif"))
	d := l.SetPrefix("d")
	sym.Explore(true)
	sym.Par(func() {
		l.Info("one", Dict{"k": 1})
	}, func() {
		d.Error("two", Dict{"k": 2})
	}, func() {
		l.SetPrefix("e").Warn("three", Dict{"k": 3})
	})
	sym.Explore(false)
	lines := flLines("verif")[was:]
	sym.Assert(len(lines) == 3, "messages of several goroutines are all written")
	all := strings.Join(lines, "\n")
	for i, m := range []string{`"one"`, `"[d]two"`, `"[e]three"`} {
		sym.Assert(strings.Count(all, m) == 1, "messages of several goroutines are all written")
		for _, s := range lines {
			k := `"k":` + string([]byte{byte('1' + i)})
			sym.Assert(strings.Contains(s, m) == strings.Contains(s, k), "a message has its own fields")
		}
	}
	for _, s := range lines {
		sym.Assert(s[0] == '{' && s[len(s)-1] == '}' && strings.Count(s, "level") == 1, "a message is one whole line")
	}
}

// VH_L03_many logs the same text again and again within a moment.
//
//verif:opts real weight=2 steps=60000000
func VH_L03_many() {
	l := NewZapLogger("verif", "info")
	msg := "!" + flText("msg", 1)
	ctx := Dict{"k": 1}
	if sym.Pick("fields", 2) == 0 {
		ctx = nil
	}
	was := len(flLines("verif"))
	n := sym.Bound(1000, 5000)
	for i := 0; i < n; i++ {
		l.Info(msg, ctx)
	}
	sym.Assert(len(flLines("verif")) == was+n, "repeated messages are all written")
}
