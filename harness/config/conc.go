package config

import (
	"sync"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// ccConf has every setting written out.
type ccConf struct {
	port, pool, queue, fetchWP int
	boot                       string
	pprof                      bool
	level                      string
}

func ccWrite(tag string) ccConf {
	num := func(name string) int { return sym.Range(tag+name, 0, 60000) }
	b := sym.Str(tag+"boot", 1)
	l := sym.Str(tag+"level", 1)
	sym.Assume(sym.And(b[0] >= 'a', b[0] <= 'z', l[0] >= 'a', l[0] <= 'z'))
	w := ccConf{num("port"), num("pool"), num("queue"), num("fetchWP"), b, sym.Bool(tag + "pprof"), l}
	sym.WriteConfig(FileAbsPath, map[string]map[string]interface{}{
		"dht":          {"Port": w.port, "WorkPoolSize": w.pool, "BootstrapNodes": []string{b}},
		"fetchTorrent": {"InfoHashQueueSize": w.queue, "WorkPoolSize": w.fetchWP},
		"pprof":        {"NeedRun": w.pprof},
		"logger":       {"Level": l},
	})
	return w
}

// ccGet reads one section; equal tells whether it is wholly that of w.
func ccGet(what int) (equal func(w ccConf) bool) {
	switch what {
	case 0:
		d := DhtConfig()
		if len(d.BootstrapNodes) != 1 {
			return func(ccConf) bool { return false }
		}
		port, pool, boot := d.Port, d.WorkPoolSize, d.BootstrapNodes[0]
		return func(w ccConf) bool { return sym.And(port == w.port, pool == w.pool, boot == w.boot) }
	case 1:
		f := FetchTorrentConfig()
		q, n := f.InfoHashQueueSize, f.WorkPoolSize
		return func(w ccConf) bool { return sym.And(q == w.queue, n == w.fetchWP) }
	case 2:
		p := PProfConfig().NeedRun
		return func(w ccConf) bool { return p == w.pprof }
	}
	l := LoggerConfig().Level
	return func(w ccConf) bool { return l == w.level }
}

// VH_G02_getters reads sections from several threads at once.
//
//verif:opts race preempt=2 tpreempt=3 weight=2 replays=1
func VH_G02_getters() {
	w := ccWrite("")
	ResetConfig()
	var got []func(ccConf) bool
	var mu sync.Mutex
	var fs []func()
	for t := 0; t < sym.Bound(2, 3); t++ {
		what := []int{sym.Pick("section", 4)}
		if t == 0 {
			what = append(what, sym.Pick("section", 4))
		}
		fs = append(fs, func() {
			for _, s := range what {
				g := ccGet(s)
				mu.Lock()
				got = append(got, g)
				mu.Unlock()
			}
		})
	}
	sym.Explore(true)
	sym.Par(fs...)
	sym.Explore(false)
	for _, g := range got {
		sym.Assert(g(w), "a getter reports the configuration last read")
	}
	for s := 0; s < 4; s++ {
		sym.Assert(ccGet(s)(w), "a getter reports the configuration last read")
	}
	sym.Reach("read at once")
}

// VH_G02_reload reads the configuration again while others use it.
//
//verif:opts race preempt=2 tpreempt=3 weight=2 replays=1
func VH_G02_reload() {
	old := ccWrite("old.")
	ResetConfig()
	if sym.Pick("cached", 2) == 1 {
		for s := 0; s < 4; s++ {
			ccGet(s)
		}
	}
	cur := ccWrite("new.")
	first, second := sym.Pick("section", 4), sym.Pick("section", 4)
	var g1, g2, after func(ccConf) bool
	sym.Explore(true)
	sym.Par(func() {
		ResetConfig()
		after = ccGet(second)
	}, func() {
		g1 = ccGet(first)
		g2 = ccGet(first)
	})
	sym.Explore(false)
	sym.Assert(sym.Or(g1(old), g1(cur)), "a getter reports one configuration, the old or the new")
	sym.Assert(sym.Or(g2(old), g2(cur)), "a getter reports one configuration, the old or the new")
	sym.Assert(sym.Or(g2(cur), g1(old)), "a getter does not go back to the old configuration")
	sym.Assert(after(cur), "once read, the new configuration is reported")
	for s := 0; s < 4; s++ {
		sym.Assert(ccGet(s)(cur), "once read, the new configuration is reported")
	}
	sym.Reach("reloaded")
}
