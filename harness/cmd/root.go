package cmd

import (
	"net"
	"os"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

func rtSock() *net.UDPConn {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	return c
}

func rtGot(c *net.UDPConn) (r []string) {
	sym.Settle()
	buf := make([]byte, 2048)
	for {
		c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		n, _, err := c.ReadFromUDP(buf)
		if err != nil {
			return r
		}
		r = append(r, string(buf[:n]))
	}
}

// rtDict reads a bencoded dictionary of strings, integers and dictionaries.
func rtDict(s string) (d map[string]interface{}, rest string) {
	d = map[string]interface{}{}
	if s == "" || s[0] != 'd' {
		return nil, s
	}
	str := func() (string, bool) {
		i, n := 0, 0
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			n = n*10 + int(s[i]-'0')
		}
		if i == 0 || i >= len(s) || s[i] != ':' || i+1+n > len(s) {
			return "", false
		}
		x := s[i+1 : i+1+n]
		s = s[i+1+n:]
		return x, true
	}
	s = s[1:]
	for s != "" && s[0] != 'e' {
		k, ok := str()
		if !ok || s == "" {
			return nil, s
		}
		if s[0] == 'd' {
			in, r := rtDict(s)
			if in == nil {
				return nil, s
			}
			d[k], s = in, r
			continue
		}
		v, ok := str()
		if !ok {
			return nil, s
		}
		d[k] = v
	}
	if s == "" {
		return nil, s
	}
	return d, s[1:]
}

// rtStart runs the crawler with a configuration file of the given name.
var rtProf bool

func rtStart(path string, port int, boot []string, level string) (back chan bool) {
	sym.WriteConfig(path, map[string]map[string]interface{}{
		"dht":          {"Port": port, "WorkPoolSize": 2, "BootstrapNodes": boot},
		"fetchTorrent": {"WorkPoolSize": 2, "InfoHashQueueSize": 4},
		"pprof":        {"NeedRun": rtProf},
		"logger":       {"Level": level},
	})
	os.Args = []string{"p2pcrawler", "--config", path}
	if path == config.FileAbsPath && sym.Pick("implicit", 2) == 1 {
		os.Args = os.Args[:1]
	}
	back = make(chan bool, 1)
	go func() {
		ExecuteBackgroud()
		back <- true
	}()
	return back
}

// VH_C02_run lets the crawler join the network, answer and stop.
//
//verif:opts real weight=2 replays=1
func VH_C02_run() {
	port := config.DhtConfig().Port
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	path := []string{config.FileAbsPath, "conf/other.json"}[sym.Pick("path", 2)]
	n := []int{0, 1, 2, 12}[sym.Pick("boot", 4)]
	var socks []*net.UDPConn
	var boot []string
	for i := 0; i < n; i++ {
		c := rtSock()
		socks = append(socks, c)
		boot = append(boot, "127.0.0.1:"+strconv.Itoa(c.LocalAddr().(*net.UDPAddr).Port))
	}
	peer := rtSock()
	back := rtStart(path, port, boot, "Error")
	seen := map[string]bool{}
	self := ""
	for _, c := range socks {
		got := rtGot(c)
		sym.Assert(len(got) == 1, "each bootstrap node is asked once")
		m, rest := rtDict(got[0])
		a, _ := m["a"].(map[string]interface{})
		sym.Assert(m != nil && rest == "" && m["y"] == "q" && m["q"] == "find_node" && a != nil, "a bootstrap node is asked for nodes")
		id, _ := a["id"].(string)
		sym.Assert(len(id) == 20 && a["target"] == id && (self == "" || self == id), "a bootstrap node is asked for the crawler's own id")
		self = id
		t, _ := m["t"].(string)
		sym.Assert(t != "" && !seen[t], "each question has its own transaction id")
		seen[t] = true
	}
	tx := sym.Str("tx", 1)
	for i := 0; i < 2; i++ {
		if _, err := peer.WriteToUDP([]byte("d1:ad2:id20:abcdefghij0123456789e1:q4:ping1:t1:"+tx+"1:y1:qe"), at); err != nil {
			panic(err)
		}
		got := rtGot(peer)
		sym.Assert(len(got) == 1, "the crawler answers queries")
		m, rest := rtDict(got[0])
		r, _ := m["r"].(map[string]interface{})
		sym.Assert(m != nil && rest == "" && m["y"] == "r" && m["t"] == tx && r != nil, "the crawler answers queries")
		id, _ := r["id"].(string)
		sym.Assert(len(id) == 20 && (self == "" || id == self), "the crawler answers with its id")
	}
	select {
	case <-back:
		sym.Fail("the crawler runs until it is told to stop")
	default:
	}
	began := sym.Clock()
	sym.Signal([]int{15, 2}[sym.Pick("signal", 2)])
	select {
	case <-back:
	case <-time.After(8 * time.Second):
		sym.Fail("the crawler stops when it is told to")
	}
	sym.Assert(time.Duration(sym.Clock()-began) <= 6*time.Second, "the crawler stops within its timeout")
	sym.Settle()
	c, err := net.ListenUDP("udp", &net.UDPAddr{Port: port})
	sym.Assert(err == nil, "the port is free once the crawler has stopped")
	c.Close()
	sym.Reach("stopped")
}

// VH_C02_port names a configuration with another port.
//
//verif:opts real weight=1 replays=1
func VH_C02_port() {
	was := config.DhtConfig().Port
	port := sym.Port()
	if port == was {
		return
	}
	peer := rtSock()
	rtStart("conf/other.json", port, []string{}, "Error")
	sym.Settle()
	sym.Known("port")
	if _, err := peer.WriteToUDP([]byte("d1:ad2:id20:abcdefghij0123456789e1:q4:ping1:t1:x1:y1:qe"), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}); err != nil {
		panic(err)
	}
	sym.Assert(len(rtGot(peer)) == 1, "the crawler answers on the port of the configuration it was started with")
}

// VH_C02_pprof has the profiling server started, or not.
//
//verif:opts real weight=1 replays=1
func VH_C02_pprof() {
	port := config.DhtConfig().Port
	free := func() bool {
		c, err := net.DialTimeout("tcp", "127.0.0.1:10080", time.Second)
		if err == nil {
			c.Close()
		}
		return err != nil
	}
	sym.Assume(free())
	boot := rtSock()
	peer := rtSock()
	rtProf = sym.Pick("prof", 2) == 1
	back := rtStart([]string{config.FileAbsPath, "conf/other.json"}[sym.Pick("path", 2)], port, []string{"127.0.0.1:" + strconv.Itoa(boot.LocalAddr().(*net.UDPAddr).Port)}, "Error")
	sym.Assert(len(rtGot(boot)) == 1, "each bootstrap node is asked once")
	sym.Assert(free() != rtProf, "the profiling server runs when it is configured")
	if _, err := peer.WriteToUDP([]byte("d1:ad2:id20:abcdefghij0123456789e1:q4:ping1:t1:x1:y1:qe"), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}); err != nil {
		panic(err)
	}
	sym.Assert(len(rtGot(peer)) == 1, "the crawler answers queries")
	sym.Signal(15)
	select {
	case <-back:
	case <-time.After(8 * time.Second):
		sym.Fail("the crawler stops when it is told to")
	}
	sym.Reach("stopped")
}

// VH_C02_level names a configuration with any log level.
//
//verif:opts real weight=1 replays=1
func VH_C02_level() {
	levels := []string{"debug", "Info", "WARN", "error"}
	at := sym.Pick("level", 4)
	path := []string{config.FileAbsPath, "conf/other.json"}[sym.Pick("path", 2)]
	before := misc.GetLogger().SetPrefix("before")
	rtStart(path, config.DhtConfig().Port, []string{}, levels[at])
	sym.Settle()
	for _, l := range []misc.Logger{before, misc.GetLogger(), misc.GetLogger("verif")} {
		sym.CaptureStdout()
		l.Debug("m", nil)
		d := sym.Stdout() != ""
		sym.CaptureStdout()
		l.Info("m", nil)
		i := sym.Stdout() != ""
		sym.CaptureStdout()
		l.Warn("m", nil)
		w := sym.Stdout() != ""
		sym.CaptureStdout()
		l.Error("m", nil)
		e := sym.Stdout() != ""
		sym.Assert(d == (at == 0) && i == (at <= 1) && w == (at <= 2) && e, "the level of the configuration the crawler was started with is used")
	}
	sym.Reach("level")
}
