package config

import (
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
	"github.com/spf13/viper"
)

type wantConf struct {
	port, pool     int
	boot           []string
	queue, fetchWP int
	pprof          bool
	level          string
}

// defaults as they are documented in the package.
func defConf() *wantConf {
	return &wantConf{port: 21000, pool: 2000, boot: []string{"87.98.162.88:6881"}, queue: 300000, fetchWP: 500, pprof: true, level: "Info"}
}

var confKeys = []string{"Port", "port", "PORT"}

// genConf writes a configuration file that sets any part of the settings and
// returns what the getters have to say then.
func genConf(path string, full bool) *wantConf {
	w := defConf()
	cfg := map[string]map[string]interface{}{}
	num := func(name string) int { return sym.Range(name, 0, 1000000) }
	has := func(name string) bool { return full || sym.Pick(name, 2) == 1 }
	if has("dht") {
		d := map[string]interface{}{}
		if has("dht.port") {
			w.port = num("port")
			k := 0
			if !full {
				k = sym.Pick("case", 3)
			}
			d[confKeys[k]] = w.port
		}
		if has("dht.pool") {
			w.pool = num("pool")
			d["WorkPoolSize"] = w.pool
		}
		if has("dht.boot") {
			w.boot = nil
			l := []string{}
			for i := sym.Pick("boot.n", 3); i > 0; i-- {
				b := sym.Str("boot", 1)
				sym.Assume(sym.And(b[0] >= 'a', b[0] <= 'z'))
				w.boot = append(w.boot, b)
				l = append(l, b)
			}
			d["BootstrapNodes"] = l
		}
		cfg["dht"] = d
	}
	if has("fetch") {
		d := map[string]interface{}{}
		if has("fetch.queue") {
			w.queue = num("queue")
			d["InfoHashQueueSize"] = w.queue
		}
		if has("fetch.pool") {
			w.fetchWP = num("fetchpool")
			d["workpoolsize"] = w.fetchWP
		}
		cfg["fetchTorrent"] = d
	}
	if has("rest") {
		cfg["pprof"] = map[string]interface{}{}
		cfg["logger"] = map[string]interface{}{}
		if has("rest.set") {
			w.pprof = sym.Bool("pprof")
			cfg["pprof"]["NeedRun"] = w.pprof
			l := sym.Str("level", 2)
			sym.Assume(sym.And(l[0] >= 'a', l[0] <= 'z', l[1] >= 'a', l[1] <= 'z'))
			w.level = l
			cfg["logger"]["Level"] = w.level
		}
	}
	sym.WriteConfig(path, cfg)
	return w
}

func checkConf(w *wantConf) {
	d := DhtConfig()
	sym.Assert(d.Port == w.port, "the port is the one read last")
	sym.Assert(d.WorkPoolSize == w.pool, "the pool size is the one read last")
	sym.Assert(len(d.BootstrapNodes) == len(w.boot), "the bootstrap nodes are those read last")
	for i := range w.boot {
		sym.Assert(d.BootstrapNodes[i] == w.boot[i], "the bootstrap nodes are those read last")
	}
	f := FetchTorrentConfig()
	sym.Assert(f.InfoHashQueueSize == w.queue, "the queue size is the one read last")
	sym.Assert(f.WorkPoolSize == w.fetchWP, "the download pool size is the one read last")
	sym.Assert(PProfConfig().NeedRun == w.pprof, "the profiling switch is the one read last")
	sym.Assert(LoggerConfig().Level == w.level, "the log level is the one read last")
}

// VH_G01_once reads one configuration, twice through the getters.
//
//verif:opts weight=3
func VH_G01_once() {
	w := genConf(FileAbsPath, false)
	ResetConfig()
	checkConf(w)
	checkConf(w)
	sym.Reach("read")
}

// VH_G01_again reads a second configuration, from the same file or from the
// one named on the command line.
//
//verif:opts weight=3
func VH_G01_again() {
	if sym.Pick("read", 2) == 1 {
		w := genConf(FileAbsPath, true)
		ResetConfig()
		checkConf(w)
	} else {
		LoggerConfig()
		DhtConfig()
	}
	path := FileAbsPath
	if sym.Pick("other", 2) == 1 {
		path = "./conf/other.json"
	}
	w := genConf(path, false)
	if path != FileAbsPath {
		viper.SetConfigFile(path)
	}
	ResetConfig()
	checkConf(w)
	ResetConfig()
	checkConf(w)
	sym.Reach("read again")
}

// VH_G03_fresh starts where there is no configuration file.
//
//verif:opts fresh
func VH_G03_fresh() {
	s := sym.ConfigState(FileAbsPath)
	sym.Assert(s != "", "a missing configuration file is created")
	if sym.Pick("look", 2) == 1 {
		checkConf(defConf())
	}
	// the next start
	n := 1 + sym.Pick("again", 2)
	for i := 0; i < n; i++ {
		if sym.Pick("named", 2) == 1 {
			viper.SetConfigFile(FileAbsPath)
		}
		ResetConfig()
		checkConf(defConf())
		sym.Assert(sym.ConfigState(FileAbsPath) == s, "an existing configuration file is not changed")
	}
	w := genConf(FileAbsPath, true)
	s = sym.ConfigState(FileAbsPath)
	ResetConfig()
	checkConf(w)
	sym.Assert(sym.ConfigState(FileAbsPath) == s, "an existing configuration file is not changed")
	sym.Reach("set")
}

// VH_G03_keep reads files that are in order, that are not, and that are missing.
func VH_G03_keep() {
	path := FileAbsPath
	other := sym.Pick("other", 2) == 1
	if other {
		path = "./conf/other.json"
	}
	what := sym.Pick("what", 5)
	if what == 4 && !other {
		return
	}
	w := defConf()
	if what == 0 {
		w = genConf(path, false)
	}
	switch what {
	case 1:
		sym.BreakConfig(path)
	case 2:
		sym.WriteConfig(path, map[string]map[string]interface{}{"dht": {"Port": "x1", "WorkPoolSize": 1}})
	case 3:
		sym.WriteConfig(path, map[string]map[string]interface{}{"fetchTorrent": {"WorkPoolSize": []string{"1"}}})
	}
	s := sym.ConfigState(path)
	d := sym.ConfigState(FileAbsPath)
	if other {
		viper.SetConfigFile(path)
	}
	p := sym.Caught(func() {
		ResetConfig()
		DhtConfig()
		FetchTorrentConfig()
		PProfConfig()
		LoggerConfig()
	})
	if what == 0 {
		sym.Assert(p == nil, "a configuration file that is in order is read")
		checkConf(w)
	} else {
		sym.Assert(p != nil, "the crawler does not start with a configuration other than the one it was given")
	}
	sym.Assert(sym.ConfigState(path) == s, "an existing configuration file is not changed")
	sym.Assert(sym.ConfigState(FileAbsPath) == d, "an existing configuration file is not changed")
	sym.Reach("kept")
}
