package dht

import (
	"crypto/sha1"
	"encoding/hex"
	"io"
	"net"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// ndBed is the running node with some remote sockets.
type ndBed struct {
	at    *net.UDPAddr
	socks []*net.UDPConn
	self  string // id of the node, once seen
	tx    int
}

// wdWidth is the number of downloads to run at once.
var wdWidth = 2

func ndStart(socks int) *ndBed {
	config.DhtConfig().WorkPoolSize = 2
	config.FetchTorrentConfig().WorkPoolSize = wdWidth
	b := &ndBed{at: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: config.DhtConfig().Port}}
	for i := 0; i < socks; i++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		b.socks = append(b.socks, c)
	}
	go Run()
	sym.Settle()
	return b
}

func ndPort(c *net.UDPConn) int { return c.LocalAddr().(*net.UDPAddr).Port }

func ndStr(s string) string { return strconv.Itoa(len(s)) + ":" + s }

func (b *ndBed) send(c *net.UDPConn, m string) {
	if _, err := c.WriteToUDP([]byte(m), b.at); err != nil {
		panic(err)
	}
}

// got takes what a socket has received, once everything is quiet.
func (b *ndBed) got(c *net.UDPConn) []map[string]interface{} {
	sym.Settle()
	var r []map[string]interface{}
	buf := make([]byte, 4096)
	for {
		c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		n, from, err := c.ReadFromUDP(buf)
		if err != nil {
			return r
		}
		sym.Assert(from.Port == b.at.Port, "a message comes from the node")
		v, rest, ok := ndParse(string(buf[:n]))
		d, isDict := v.(map[string]interface{})
		sym.Assert(ok && isDict && rest == "", "a message of the node is valid bencode")
		r = append(r, d)
	}
}

// ndParse reads one bencoded value.
func ndParse(s string) (v interface{}, rest string, ok bool) {
	if s == "" {
		return nil, s, false
	}
	switch {
	case s[0] == 'i':
		i, n, neg := 1, 0, false
		if len(s) > 1 && s[1] == '-' {
			i, neg = 2, true
		}
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			n = n*10 + int(s[i]-'0')
		}
		if i >= len(s) || s[i] != 'e' {
			return nil, s, false
		}
		if neg {
			n = -n
		}
		return n, s[i+1:], true
	case s[0] == 'l':
		l := []interface{}{}
		s = s[1:]
		for s != "" && s[0] != 'e' {
			x, r, ok := ndParse(s)
			if !ok {
				return nil, s, false
			}
			l, s = append(l, x), r
		}
		if s == "" {
			return nil, s, false
		}
		return l, s[1:], true
	case s[0] == 'd':
		d := map[string]interface{}{}
		s = s[1:]
		for s != "" && s[0] != 'e' {
			k, r, ok := ndParse(s)
			ks, isStr := k.(string)
			if !ok || !isStr {
				return nil, s, false
			}
			x, r, ok := ndParse(r)
			if !ok {
				return nil, s, false
			}
			d[ks], s = x, r
		}
		if s == "" {
			return nil, s, false
		}
		return d, s[1:], true
	}
	i, n := 0, 0
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n = n*10 + int(s[i]-'0')
	}
	if i == 0 || i >= len(s) || s[i] != ':' || i+1+n > len(s) {
		return nil, s, false
	}
	return s[i+1 : i+1+n], s[i+1+n:], true
}

// reply checks the frame of the only message c has received and gives the body
// of the answer, or nil for an error.
func (b *ndBed) reply(c *net.UDPConn, tx string) map[string]interface{} {
	r := b.got(c)
	sym.Assert(len(r) == 1, "a query is answered once")
	m := r[0]
	t, _ := m["t"].(string)
	sym.Assert(t == tx, "an answer carries the transaction id of the query")
	switch m["y"] {
	case "e":
		l, _ := m["e"].([]interface{})
		sym.Assert(len(l) == 2, "an error has a code and a message")
		_, isInt := l[0].(int)
		_, isStr := l[1].(string)
		sym.Assert(isInt && isStr, "an error has a code and a message")
		return nil
	case "r":
		d, _ := m["r"].(map[string]interface{})
		id, _ := d["id"].(string)
		sym.Assert(len(id) == 20 && (b.self == "" || id == b.self), "an answer carries the id of the node")
		b.self = id
		return d
	}
	sym.Fail("an answer is a response or an error")
	return nil
}

func (b *ndBed) txid() string {
	b.tx++
	return "t" + strconv.Itoa(b.tx)
}

func ndQuery(tx, method, args string) string {
	return "d1:ad" + args + "e1:q" + ndStr(method) + "1:t" + ndStr(tx) + "1:y1:qe"
}

const ndPeer = "qrstuvwxyzabcdefghij"

func ndNodes(d map[string]interface{}) bool {
	s, ok := d["nodes"].(string)
	return ok && len(s)%26 == 0
}

type ndTorrent struct {
	l    net.Listener
	port int
	got  []string // info-hashes asked for
	data map[string][]byte
	slow bool // never answers
	live int  // connections open
	cut  chan bool
}

func ndListen(port int) *ndTorrent { return ndListenAt("127.0.0.1:" + strconv.Itoa(port)) }

func ndListenAt(addr string) *ndTorrent {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		panic(err)
	}
	t := &ndTorrent{l: l, port: l.Addr().(*net.TCPAddr).Port, data: map[string][]byte{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			sym.Atomic(func() { t.live++ })
			go func() {
				t.serve(c)
				sym.Atomic(func() { t.live-- })
			}()
		}
	}()
	return t
}

func ndFrame(s string) string {
	n := len(s)
	return string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}) + s
}

// serve gives the metadata at once, or breaks off.
func (t *ndTorrent) serve(c net.Conn) {
	h := make([]byte, 68)
	if _, err := io.ReadFull(c, h); err != nil {
		c.Close()
		return
	}
	hash := string(h[28:48])
	var d []byte
	slow := false
	sym.Atomic(func() {
		t.got = append(t.got, hash)
		d, slow = t.data[hash], t.slow
	})
	if slow && t.cut != nil {
		go func() {
			io.ReadFull(c, make([]byte, 1<<20))
			c.Close()
		}()
		<-t.cut
		c.Close()
		return
	}
	if slow {
		io.ReadFull(c, make([]byte, 1<<20))
		c.Close()
		return
	}
	if d == nil {
		c.Close()
		return
	}
	m := "\x13BitTorrent protocol\x00\x00\x00\x00\x00\x10\x00\x00" + hash + ndPeer
	m += ndFrame("\x14\x00d1:md11:ut_metadatai1ee13:metadata_sizei" + strconv.Itoa(len(d)) + "ee")
	for i := 0; i == 0 || i*16384 < len(d); i++ {
		p := d[i*16384:]
		if len(p) > 16384 {
			p = p[:16384]
		}
		m += ndFrame("\x14\x01d8:msg_typei1e5:piecei" + strconv.Itoa(i) + "e10:total_sizei" + strconv.Itoa(len(d)) + "ee" + string(p))
	}
	c.Write([]byte(m))
	b := make([]byte, 100)
	for {
		if _, err := c.Read(b); err != nil {
			c.Close()
			return
		}
	}
}

func (t *ndTorrent) asked() (r []string) {
	sym.Settle()
	sym.Atomic(func() {
		r = append(r, t.got...)
	})
	return
}

func ndAnnounce(tx, hash string, port int, more string) string {
	return ndQuery(tx, "announce_peer", "2:id20:"+ndPeer+"9:info_hash"+ndStr(hash)+"4:porti"+strconv.Itoa(port)+"e5:token2:aa"+more)
}

func ndHex(data []byte) (string, string) {
	s := sha1.Sum(data)
	return string(s[:]), "torrent/" + hex.EncodeToString(s[:]) + ".torrent"
}

func ndEntry(id string, port int) string {
	return id + "\x7f\x00\x00\x01" + string([]byte{byte(port >> 8), byte(port)})
}

// asked takes the find_node queries a socket has received and checks them.
func (b *ndBed) asked(c *net.UDPConn, seen map[string]bool) (tx []string) {
	for _, m := range b.got(c) {
		t, _ := m["t"].(string)
		a, _ := m["a"].(map[string]interface{})
		id, _ := a["id"].(string)
		target, _ := a["target"].(string)
		sym.Assert(m["y"] == "q" && m["q"] == "find_node", "a discovered node is asked for nodes")
		if b.self == "" {
			b.self = id
		}
		sym.Assert(len(id) == 20 && id == b.self && target == id, "the node asks for its own id")
		sym.Assert(t != "" && !seen[t], "a query has a fresh transaction id")
		seen[t] = true
		tx = append(tx, t)
	}
	return
}
