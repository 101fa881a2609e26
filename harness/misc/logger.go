package misc

import (
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

var logMethods = []LogLevel{DEBUG, INFO, WARN, ERROR, PANIC, TRACE}

func logWith(l Logger, level LogLevel, msg string, ctx Dict) {
	switch level {
	case DEBUG:
		l.Debug(msg, ctx)
	case INFO:
		l.Info(msg, ctx)
	case WARN:
		l.Warn(msg, ctx)
	case ERROR:
		l.Error(msg, ctx)
	case PANIC:
		l.Panic(msg, ctx)
	case TRACE:
		l.Trace(msg, ctx)
	}
}

// logText is a printable text without characters of numbers and times.
func logText(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(sym.Or(sym.And(c >= 'A', c <= 'Z'), sym.Or(sym.And(c >= '#', c <= '*'), sym.Or(c >= 0x80, c == '\\'))))
	}
	return s
}

func after(s, part string) string {
	i := strings.Index(s, part)
	if i < 0 {
		return "\x00"
	}
	return s[i+len(part):]
}

func checkLog(l Logger, level LogLevel, prefix string, how LogLevel) {
	msg := logText("msg", 1+sym.Pick("msg.len", sym.Bound(2, 3)))
	var ctx Dict
	nctx := sym.Pick("fields", 4)
	val := logText("val", 1)
	num := sym.Range("num", 100, 102)
	if nctx > 0 {
		ctx = Dict{}
	}
	if nctx > 1 {
		ctx["!one"] = "!" + val
	}
	if nctx > 2 {
		ctx["!two"] = num
	}
	sym.CaptureStdout()
	p := sym.Caught(func() { logWith(l, how, msg, ctx) })
	out := sym.Stdout()
	sym.Assert((p != nil) == (how == PANIC), "Panic panics, and nothing else does")
	if how < level {
		sym.Assert(out == "", "a message below the level is not emitted")
		sym.Reach("filtered")
		return
	}
	sym.Assert(out != "", "a message at or above the level is emitted")
	sym.Assert(strings.Count(out, "\n") == 1, "a message is emitted once")
	rest := out
	if prefix != "" {
		rest = after(rest, prefix)
		sym.Assert(rest != "\x00", "the prefix is emitted")
	}
	rest = after(rest, msg)
	sym.Assert(rest != "\x00", "the text is emitted")
	if nctx > 1 {
		r := after(rest, "!one")
		sym.Assert(r != "\x00", "the fields are emitted")
		sym.Assert(after(r, "!"+val) != "\x00", "the fields are emitted")
	}
	if nctx > 2 {
		r := after(rest, "!two")
		sym.Assert(r != "\x00", "the fields are emitted")
		sym.Assert(strings.Contains(r, "100") || strings.Contains(r, "101") || strings.Contains(r, "102"), "the fields are emitted")
		sym.Assert(strings.Contains(r, string([]byte{'1', '0', byte('0' + num - 100)})), "the fields are emitted")
	}
	sym.Reach("emitted")
}

// VH_L01_console logs at every level through loggers of every level.
//
//verif:opts weight=3
func VH_L01_console() {
	level := LogLevel(sym.Range("level", 0, 5))
	how := logMethods[sym.Pick("how", 6)]
	l := NewConsoleLoggerFactory().NewLogger("verif", level)
	prefix := ""
	switch sym.Pick("derive", 3) {
	case 1:
		prefix = logText("prefix", 1+sym.Pick("prefix.len", 2))
		l = l.SetPrefix("#" + prefix)
	case 2:
		prefix = logText("prefix", 1)
		l = l.SetPrefix("?x").SetPrefix("#" + prefix)
	}
	if prefix != "" {
		prefix = "#" + prefix
	}
	checkLog(l, level, prefix, how)
}

// VH_L01_global goes through the package's registry of loggers.
//
//verif:opts weight=2
func VH_L01_global() {
	level := LogLevel(sym.Range("level", 0, 5))
	how := logMethods[sym.Pick("how", 6)]
	if sym.Pick("init", 2) == 0 {
		InitLogger(NewConsoleLoggerFactory(), level)
	} else {
		SetLevel(level)
	}
	l := GetLogger("verif-fresh")
	prefix := ""
	switch sym.Pick("derive", 3) {
	case 1:
		prefix = "#p"
		l = l.SetPrefix(prefix)
	case 2:
		l = GetLogger("verif-fresh")
	}
	checkLog(l, level, prefix, how)
}

// VH_L01_names translates level names in any spelling.
//
//verif:opts weight=1
func VH_L01_names() {
	i := sym.Pick("name", 6)
	name := []byte([]string{"DEBUG", "INFO", "WARN", "ERROR", "PANIC", "TRACE"}[i])
	for j := range name {
		name[j] = byte(sym.Sel(sym.Bool("lower"), int(name[j])+32, int(name[j])))
	}
	sym.Assert(TransLogLevel(string(name)) == logMethods[i], "level names translate in any case")
}
