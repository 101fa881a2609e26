package misc

import (
	"strings"
	"sync"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// lgName is a name of a logger: none, or any byte.
func lgName(i string) string {
	return sym.Str("name"+i, sym.Pick("name.len", 2))
}

// VH_L02_names asks for loggers of any two names, one after another.
//
//verif:opts weight=1
func VH_L02_names() {
	a := sym.Str("a", sym.Pick("a.len", sym.Bound(4, 9)))
	b := sym.Str("b", sym.Pick("b.len", sym.Bound(4, 9)))
	x := GetLogger(a)
	y := GetLogger(b)
	if a == b {
		sym.Assert(x == y, "a name stands for one logger")
		sym.Reach("same")
	} else {
		sym.Assert(x != y, "each name has its own logger")
		sym.Reach("other")
	}
	sym.Assert(GetLogger(a) == x && GetLogger(b) == y, "a name stands for one logger")
}

// lgEmits tells which of the levels l lets through.
func lgEmits(l Logger, at LogLevel) bool {
	sym.CaptureStdout()
	sym.Caught(func() {
		switch at {
		case DEBUG:
			l.Debug("m", nil)
		case INFO:
			l.Info("m", nil)
		case WARN:
			l.Warn("m", nil)
		case ERROR:
			l.Error("m", nil)
		}
	})
	return strings.Count(sym.Stdout(), "\n") == 1
}

// VH_L02_same asks for loggers by name from several threads.
//
//verif:opts race preempt=2 tpreempt=3 weight=3 replays=1
func VH_L02_same() {
	n := sym.Bound(2, 3)
	names := make([]string, 2*n)
	got := make([]Logger, 2*n)
	var fs []func()
	for t := 0; t < n; t++ {
		t := t
		k := 1
		if t == 0 {
			k = 2
		}
		for j := 0; j < k; j++ {
			names[2*t+j] = lgName(string([]byte{'a' + byte(2*t+j)}))
		}
		fs = append(fs, func() {
			for j := 0; j < k; j++ {
				got[2*t+j] = GetLogger(names[2*t+j])
			}
		})
	}
	if sym.Pick("level", 2) == 1 {
		fs = append(fs, func() { SetLevel(WARN) })
	}
	sym.Explore(true)
	sym.Par(fs...)
	sym.Explore(false)
	for i := range got {
		if got[i] == nil {
			continue
		}
		sym.Assert(GetLogger(names[i]) == got[i], "a name stands for one logger")
		for j := 0; j < i; j++ {
			if got[j] == nil {
				continue
			}
			if names[i] == names[j] {
				sym.Assert(got[i] == got[j], "a name stands for one logger")
				sym.Reach("same")
			} else {
				sym.Assert(got[i] != got[j], "each name has its own logger")
				sym.Reach("other")
			}
		}
	}
}

// VH_L02_use makes loggers, derives prefixed ones, logs, changes the level and
// flushes, all at once.
//
//verif:opts race preempt=1 tpreempt=2 weight=2 replays=1
func VH_L02_use() {
	at := []LogLevel{DEBUG, INFO, WARN, ERROR}
	first, second := at[sym.Pick("first", 4)], at[sym.Pick("second", 4)]
	SetLevel(first)
	old := GetLogger("old")
	derived := old.SetPrefix("p")
	acts := []func(){
		func() { GetLogger("x") },
		func() { GetLogger("old").SetPrefix("q").Debug("m", nil) },
		func() { Close() },
		func() { SetLevel(second) },
	}
	a, b := sym.Pick("a", 4), sym.Pick("b", 4)
	var fresh Logger
	var once sync.Mutex
	sym.Explore(true)
	sym.Par(func() {
		acts[a]()
		acts[3]()
		l := GetLogger("fresh")
		once.Lock()
		fresh = l
		once.Unlock()
	}, acts[b])
	sym.Explore(false)
	for _, l := range at {
		sym.Assert(lgEmits(old, l) == (l >= second), "a logger obeys the level set last")
		sym.Assert(lgEmits(derived, l) == (l >= second), "a derived logger obeys the level set last")
		sym.Assert(lgEmits(derived.SetPrefix("r"), l) == (l >= second), "a derived logger obeys the level set last")
		sym.Assert(lgEmits(fresh, l) == (l >= second), "a new logger has the level set last")
	}
}
