package dht

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"io/ioutil"
	"net"
	"os"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_H01_answers asks correct queries with any argument values.
//
//verif:opts weight=3
func VH_H01_answers() {
	b := ndStart(2)
	id := ndPeer[:18] + sym.Str("id", 2)
	n := sym.Bound(2, 3)
	for i := 0; i < n; i++ {
		c := b.socks[sym.Pick("from", 2)]
		tx := sym.Str("tx", sym.Pick("txlen", sym.Bound(3, 5)))
		hash := ndPeer[:19] + sym.Str("hash", 1)
		what := sym.Pick("method", 4)
		switch what {
		case 0:
			b.send(c, ndQuery(tx, "ping", "2:id20:"+id))
		case 1:
			b.send(c, ndQuery(tx, "find_node", "2:id20:"+id+"6:target20:"+hash))
		case 2:
			b.send(c, ndQuery(tx, "get_peers", "2:id20:"+id+"9:info_hash20:"+hash))
		case 3:
			b.send(c, ndQuery(tx, "announce_peer", "2:id20:"+id+"9:info_hash20:"+hash+"4:porti1e5:token"+ndStr(sym.Str("token", sym.Pick("tlen", 2)))))
		}
		d := b.reply(c, tx)
		sym.Assert(d != nil, "a valid query is answered")
		switch what {
		case 1:
			sym.Assert(ndNodes(d), "a find_node answer carries nodes")
		case 2:
			_, ok := d["token"].(string)
			_, vals := d["values"].([]interface{})
			sym.Assert(ok && (vals || ndNodes(d)), "a get_peers answer carries a token and nodes or values")
		}
	}
}

// VH_H01_missing leaves arguments out or gives them another type.
//
//verif:opts weight=2
func VH_H01_missing() {
	b := ndStart(1)
	c := b.socks[0]
	kind := func(name, right string) (string, bool) {
		switch sym.Pick(name, 5) {
		case 0:
			return "", false
		case 1:
			return ndStr(name) + "le", false
		case 2:
			return ndStr(name) + "de", false
		case 3:
			if right[0] == 'i' {
				return ndStr(name) + ndStr(sym.Str("s", 2)), false
			}
			return ndStr(name) + "i7e", false
		}
		return ndStr(name) + right, true
	}
	tx := b.txid()
	hash, okHash := kind("info_hash", ndStr(ndPeer))
	if sym.Pick("announce", 2) == 0 {
		b.send(c, ndQuery(tx, "get_peers", "2:id20:"+ndPeer+hash))
		d := b.reply(c, tx)
		sym.Assert((d != nil) == okHash, "a get_peers query without an info-hash gets an error")
	} else {
		port, okPort := kind("port", "i1e")
		b.send(c, ndQuery(tx, "announce_peer", "2:id20:"+ndPeer+hash+port+"5:token2:aa"))
		d := b.reply(c, tx)
		sym.Assert((d != nil) == (okHash && okPort), "an announce_peer query without an info-hash or port gets an error")
	}
	tx = b.txid()
	b.send(c, ndQuery(tx, "ping", "2:id20:"+ndPeer))
	sym.Assert(b.reply(c, tx) != nil, "a valid query is answered")
}

// ndTorrent is a peer that takes fetches.
// VH_H02_once mixes announces with other messages and counts the downloads.
//
//verif:opts weight=4
func VH_H02_once() {
	b := ndStart(2)
	ts := []*ndTorrent{ndListen(0), ndListen(0)}
	want := [2][]string{}
	hash := func() string {
		return ndPeer[:18] + sym.Str("hash", 2)
	}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		c := b.socks[i%2]
		tx := b.txid()
		h := hash()
		w := i % 2
		switch sym.Pick("what", 9) {
		case 0:
			b.send(c, ndAnnounce(tx, h, ts[w].port, ""))
			sym.Assert(b.reply(c, tx) != nil, "a valid announce is answered")
			want[w] = append(want[w], h)
		case 1: // twice the same
			m := ndAnnounce(tx, h, ts[w].port, "12:implied_porti0e")
			b.send(c, m)
			sym.Assert(b.reply(c, tx) != nil, "a valid announce is answered")
			b.send(c, m)
			sym.Assert(b.reply(c, tx) != nil, "a valid announce is answered")
			want[w] = append(want[w], h, h)
		case 2:
			b.send(c, ndQuery(tx, "announce_peer", "2:id20:"+ndPeer+"4:porti"+strconv.Itoa(ts[w].port)+"e5:token2:aa"))
			sym.Assert(b.reply(c, tx) == nil, "an announce without an info-hash is refused")
		case 3:
			b.send(c, ndQuery(tx, "announce_peer", "2:id20:"+ndPeer+"9:info_hash20:"+h+"5:token2:aa"))
			sym.Assert(b.reply(c, tx) == nil, "an announce without a port is refused")
		case 4:
			b.send(c, ndQuery(tx, "announce_peer", "2:id19:"+ndPeer[:19]+"9:info_hash20:"+h+"4:porti"+strconv.Itoa(ts[w].port)+"e5:token2:aa"))
			sym.Assert(b.reply(c, tx) == nil, "an announce with a malformed id is refused")
		case 5:
			b.send(c, ndQuery(tx, "get_peers", "2:id20:"+ndPeer+"9:info_hash20:"+h+"4:porti"+strconv.Itoa(ts[w].port)+"e"))
			sym.Assert(b.reply(c, tx) != nil, "a valid query is answered")
		case 6:
			b.send(c, ndQuery(tx, "ping", "2:id20:"+ndPeer+"9:info_hash20:"+h+"4:porti"+strconv.Itoa(ts[w].port)+"e"))
			sym.Assert(b.reply(c, tx) != nil, "a valid query is answered")
		case 7:
			b.send(c, "d1:rd2:id20:"+ndPeer+"9:info_hash20:"+h+"4:porti"+strconv.Itoa(ts[w].port)+"ee1:t2:xx1:y1:re")
		case 8: // two announces before an answer is read
			b.send(c, ndAnnounce(tx, h, ts[w].port, ""))
			b.send(c, ndAnnounce(tx, h, ts[1-w].port, ""))
			sym.Assert(len(b.got(c)) == 2, "a valid announce is answered")
			want[w] = append(want[w], h)
			want[1-w] = append(want[1-w], h)
		}
	}
	for w, t := range ts {
		got := t.asked()
		sym.Assert(len(got) == len(want[w]), "an announce is queued exactly once")
		for _, h := range want[w] {
			found := false
			for j, g := range got {
				if g == h {
					got = append(got[:j], got[j+1:]...)
					found = true
					break
				}
			}
			sym.Assert(found, "a download has the info-hash of its announce")
		}
	}
}

// VH_H02_burst sends more announces than there are workers.
//
//verif:opts weight=2
func VH_H02_burst() {
	b := ndStart(1)
	t := ndListen(0)
	n := []int{1, 3, 7, 20}[sym.Pick("n", 4)]
	for i := 0; i < n; i++ {
		b.send(b.socks[0], ndAnnounce("t"+strconv.Itoa(i), ndPeer[:19]+string([]byte{byte(i)}), t.port, ""))
	}
	sym.Assert(len(b.got(b.socks[0])) == n, "a valid announce is answered")
	seen := map[string]bool{}
	for _, h := range t.asked() {
		sym.Assert(!seen[h], "an announce is queued exactly once")
		seen[h] = true
	}
	for i := 0; i < n; i++ {
		sym.Assert(seen[ndPeer[:19]+string([]byte{byte(i)})], "an announce is queued exactly once")
	}
}

// VH_H02_full sends more announces than the download queue takes while the
// peers are slow to end the downloads.
//
//verif:opts weight=2 queue=2
func VH_H02_full() {
	b := ndStart(1)
	t := ndListen(0)
	slow := sym.Pick("slow", 2) == 1
	sym.Atomic(func() { t.slow = slow })
	n := []int{3, 6, 7, 12}[sym.Pick("n", 4)]
	for i := 0; i < n; i++ {
		b.send(b.socks[0], ndAnnounce("t"+strconv.Itoa(i), ndPeer[:19]+string([]byte{byte(i)}), t.port, ""))
		if i%2 == 0 && sym.Pick("pause", 2) == 1 {
			sym.Settle()
		}
	}
	// a fetch ends at its read deadline at the latest
	answers := 0
	for i := 0; i < n; i++ {
		answers += len(b.got(b.socks[0]))
		time.Sleep(time.Second)
	}
	sym.Assert(answers == n, "a valid announce is answered")
	seen := map[string]int{}
	for _, h := range t.asked() {
		seen[h]++
	}
	for i := 0; i < n; i++ {
		sym.Assert(seen[ndPeer[:19]+string([]byte{byte(i)})] == 1, "an announce is queued exactly once")
	}
	sym.Assert(len(seen) == n, "an announce is queued exactly once")
}

// VH_F01_dial announces with and without an implied port, from any loopback
// address.
//
//verif:opts weight=3
func VH_F01_dial() {
	ip := []string{"127.0.0.1", "127.0.0.2", "::1"}[sym.Pick("ip", 3)]
	b := ndStart(0)
	if ip == "::1" {
		b.at = &net.UDPAddr{IP: net.IPv6loopback, Port: b.at.Port}
	}
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(ip)})
	if err != nil {
		panic(err)
	}
	own := ndListenAt(net.JoinHostPort(ip, strconv.Itoa(ndPort(c))))
	other := ndListenAt(net.JoinHostPort(ip, "0"))
	hash := ndPeer
	implied := false
	more := ""
	switch sym.Pick("implied", 6) {
	case 1:
		more = "12:implied_porti0e"
	case 2:
		more, implied = "12:implied_porti1e", true
	case 3:
		d := sym.U8("digit")
		sym.Assume(d >= '0' && d <= '9')
		more, implied = "12:implied_porti"+string([]byte{d})+"e", d != '0'
	case 4:
		more, implied = "12:implied_porti255e", true
	case 5:
		d := sym.U8("digit")
		sym.Assume(d >= '1' && d <= '9')
		more = "7:implied" + "i" + string([]byte{d}) + "e"
	}
	tx := b.txid()
	b.send(c, ndAnnounce(tx, hash, other.port, more))
	sym.Assert(b.reply(c, tx) != nil, "a valid announce is answered")
	no, nx := len(own.asked()), len(other.asked())
	if implied {
		sym.Assert(no == 1 && nx == 0, "an implied port is the port of the sender")
	} else {
		sym.Assert(no == 0 && nx == 1, "an announced port is dialled at the address of the sender")
	}
}

// VH_F01_port announces any port from 1024 on.
//
//verif:opts weight=2
func VH_F01_port() {
	b := ndStart(1)
	c := b.socks[0]
	digits := make([]byte, 4+sym.Pick("digits", 2))
	n := 0
	for i := range digits {
		d := sym.U8("digit" + strconv.Itoa(i))
		sym.Assume(d >= '0' && d <= '9')
		digits[i] = d
		n = 10*n + int(d-'0')
	}
	sym.Assume(n >= 1024 && n < 65536 && digits[0] != '0' && n != ndPort(c) && n != b.at.Port)
	own := ndListen(ndPort(c))
	other := ndListenAt("127.0.0.1:" + string(digits))
	tx := b.txid()
	more := ""
	implied := sym.Pick("implied", 2) == 1
	if implied {
		more = "12:implied_porti1e"
	}
	b.send(c, ndQuery(tx, "announce_peer", "2:id20:"+ndPeer+"9:info_hash"+ndStr(ndPeer)+"4:porti"+string(digits)+"e5:token2:aa"+more))
	sym.Assert(b.reply(c, tx) != nil, "a valid announce is answered")
	no, nx := len(own.asked()), len(other.asked())
	if implied {
		sym.Assert(no == 1 && nx == 0, "an implied port is the port of the sender")
	} else {
		sym.Assert(no == 0 && nx == 1, "an announced port is dialled at the address of the sender")
	}
}

// VH_F02_files downloads several torrents, some of which fail.
//
//verif:opts weight=4
func VH_F02_files() {
	b := ndStart(1)
	c := b.socks[0]
	t := ndListen(0)
	dir := sym.Pick("dir", 2) == 1
	if dir {
		os.Mkdir("torrent", 0755)
	}
	want := map[string][]byte{}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		data := append([]byte("d4:infod6:lengthi"), byte('0'+i))
		data = append(data, "ee"...)
		hash, name := ndHex(data)
		what := sym.Pick("what", 7)
		switch what {
		case 0, 4, 5, 6:
			sym.Atomic(func() { t.data[hash] = data })
			if what == 4 && dir {
				os.Mkdir(name, 0755)
			}
			if what == 5 && dir {
				os.Symlink("/dev/full", name)
			}
			if what == 6 && dir {
				// an old and longer file
				ioutil.WriteFile(name, make([]byte, 100), 0644)
			}
		case 1: // wrong data
			sym.Atomic(func() { t.data[hash] = append([]byte("x"), data...) })
		case 2: // an info-hash of the wrong size
			hash = hash[:[]int{0, 19}[sym.Pick("short", 2)]]
		}
		tx := b.txid()
		port := t.port
		if what == 3 {
			port = []int{0, -1, 65536, 1 << 40}[sym.Pick("port", 4)]
		}
		b.send(c, ndAnnounce(tx, hash, port, ""))
		b.got(c)
		sym.Settle()
		if (what == 0 || what == 6) && dir {
			want[name] = data
		}
		if what == 4 && dir {
			_, err := ioutil.ReadFile(name)
			sym.Assert(err != nil, "nothing is written where no file can be made")
			os.Remove(name)
		}
		if what == 5 && dir {
			os.Remove(name)
		}
	}
	if !dir {
		os.Mkdir("torrent", 0755)
	}
	// the workers go on
	for i := 0; i < 3; i++ {
		data := []byte("final" + strconv.Itoa(i))
		hash, name := ndHex(data)
		sym.Atomic(func() { t.data[hash] = data })
		b.send(c, ndAnnounce(b.txid(), hash, t.port, ""))
		want[name] = data
	}
	b.got(c)
	sym.Settle()
	l, err := ioutil.ReadDir("torrent")
	sym.Assert(err == nil, "the torrent directory stays")
	for _, f := range l {
		sym.Assert(want["torrent/"+f.Name()] != nil, "a file is written after a successful fetch only, under the name of its hash")
	}
	for name, d := range want {
		g, err := ioutil.ReadFile(name)
		sym.Assert(err == nil, "fetched metadata is written")
		sym.Assert(bytes.Equal(g, d), "a file holds exactly the fetched metadata")
	}
	top, err := ioutil.ReadDir(".")
	sym.Assert(err == nil, "the working directory stays")
	for _, f := range top {
		switch f.Name() {
		case "torrent", "conf", "logs", "in.json", "out.txt":
		default:
			sym.Fail("files are written inside the torrent directory only")
		}
	}
}

// VH_F02_data downloads metadata of any content.
//
//verif:opts weight=2
func VH_F02_data() {
	b := ndStart(1)
	c := b.socks[0]
	t := ndListen(0)
	os.Mkdir("torrent", 0755)
	n := []int{1, 2, 7, 33, 16384}[sym.Pick("n", sym.Bound(4, 5))]
	data := sym.Bytes("data", n)
	h := sha1.Sum(data)
	hash := string(h[:])
	wrong := false
	sent := append([]byte(nil), data...)
	switch sym.Pick("wrong", 3) {
	case 1: // another content
		i := sym.Pick("at", 2) * (n - 1)
		x := sym.U8("x")
		sent[i] ^= x
		wrong = x != 0
		if wrong {
			s := sha1.Sum(sent)
			sym.Assume(string(s[:]) != hash) // no collision
		}
	case 2: // another length
		sent = append(sent, sym.U8("x"))
		wrong = true
		s := sha1.Sum(sent)
		sym.Assume(string(s[:]) != hash)
	}
	sym.Atomic(func() { t.data[hash] = sent })
	tx := b.txid()
	b.send(c, ndAnnounce(tx, hash, t.port, ""))
	sym.Assert(b.reply(c, tx) != nil, "a valid announce is answered")
	sym.Assert(len(t.asked()) == 1, "an announced torrent is fetched")
	l, err := ioutil.ReadDir("torrent")
	sym.Assert(err == nil, "the torrent directory stays")
	if wrong {
		sym.Assert(len(l) == 0, "a file is written after a successful fetch only, under the name of its hash")
		return
	}
	sym.Assert(len(l) == 1, "fetched metadata is written")
	sym.Assert(l[0].Name() == hex.EncodeToString(h[:])+".torrent", "a file is written after a successful fetch only, under the name of its hash")
	g, err := ioutil.ReadFile("torrent/" + l[0].Name())
	sym.Assert(err == nil, "fetched metadata is written")
	sym.Assert(bytes.Equal(g, data), "a file holds exactly the fetched metadata")
}

// ndEntry is a compact node entry.
// VH_H03_listed lists nodes in find_node responses.
//
//verif:opts weight=4
func VH_H03_listed() {
	b := ndStart(4)
	seen := map[string]bool{}
	boot := b.socks[0]
	BootStrap("127.0.0.1:" + strconv.Itoa(ndPort(boot)))
	tx := b.asked(boot, seen)
	sym.Assert(len(tx) == 1, "the bootstrap node is asked once")
	id := func(i int) string {
		x := []byte(b.self)
		x[19] ^= byte(i + 1)
		switch sym.Pick("id", 2) {
		case 0:
			x[0] ^= sym.U8("id")
		case 1:
			x[5] ^= 0x40
		}
		return string(x)
	}
	nodes := ""
	n := 1 + sym.Pick("n", 3)
	var want [4]int
	for i := 0; i < n; i++ {
		switch sym.Pick("node", 3) {
		case 0:
			nodes += ndEntry(id(i), ndPort(b.socks[1+i]))
			want[1+i]++
		case 1: // cannot be asked
			nodes += ndEntry(id(i), 0)
		case 2: // the same address as another node
			nodes += ndEntry(id(i), ndPort(b.socks[1]))
			want[1]++
		}
	}
	b.send(boot, "d1:rd2:id20:"+ndPeer+"5:nodes"+ndStr(nodes)+"e1:t"+ndStr(tx[0])+"1:y1:re")
	var second string
	for i := 1; i < 4; i++ {
		q := b.asked(b.socks[i], seen)
		sym.Assert(len(q) == want[i], "each listed node is asked once")
		if len(q) > 0 && i == 1 {
			second = q[0]
		}
	}
	// the response again
	if sym.Pick("again", 2) == 1 {
		b.send(boot, "d1:rd2:id20:"+ndPeer+"5:nodes"+ndStr(nodes)+"e1:t"+ndStr(tx[0])+"1:y1:re")
		for i := 1; i < 4; i++ {
			sym.Assert(len(b.asked(b.socks[i], seen)) == 0, "each listed node is asked once")
		}
	}
	// the crawl goes on
	if second != "" {
		x := []byte(b.self)
		x[18] ^= 0xff
		b.send(b.socks[1], "d1:rd2:id20:"+ndPeer+"5:nodes"+ndStr(ndEntry(string(x), ndPort(b.socks[3])))+"e1:t"+ndStr(second)+"1:y1:re")
		sym.Assert(len(b.asked(b.socks[3], seen)) == 1, "each listed node is asked once")
	}
}

// VH_H03_broken sends responses that list no nodes.
//
//verif:opts weight=2
func VH_H03_broken() {
	b := ndStart(2)
	seen := map[string]bool{}
	boot := b.socks[0]
	BootStrap("127.0.0.1:" + strconv.Itoa(ndPort(boot)))
	tx := b.asked(boot, seen)
	sym.Assert(len(tx) == 1, "the bootstrap node is asked once")
	x := []byte(b.self)
	x[2] ^= sym.U8("id") | 1
	e := ndEntry(string(x), ndPort(b.socks[1]))
	n := 0
	var nodes string
	switch sym.Pick("nodes", 6) {
	case 1:
		nodes = "5:nodesi7e"
	case 2:
		nodes = "5:nodesle"
	case 3:
		nodes = "5:nodes0:"
	case 4:
		nodes, n = "5:nodes"+ndStr(e+e[:sym.Pick("part", 26)]), 1
	case 5:
		nodes = "6:values" + "l26:" + e + "e"
	}
	b.send(boot, "d1:rd2:id20:"+ndPeer+nodes+"e1:t"+ndStr(tx[0])+"1:y1:re")
	sym.Assert(len(b.asked(b.socks[1], seen)) == n, "each listed node is asked once")
	b.tx = 50
	t := b.txid()
	b.send(boot, ndQuery(t, "ping", "2:id20:"+ndPeer))
	sym.Assert(b.reply(boot, t) != nil, "a valid query is answered")
}

// VH_F02_large downloads metadata of several pieces.
//
//verif:opts weight=2 steps=60000000
func VH_F02_large() {
	b := ndStart(1)
	c := b.socks[0]
	t := ndListen(0)
	os.Mkdir("torrent", 0755)
	n := []int{4096, 16384, 16385, 40000, 200000}[sym.Pick("n", sym.Bound(4, 5))]
	var bodies [][]byte
	var names []string
	for i := 0; i < 2; i++ {
		data := bytes.Repeat([]byte("content "+strconv.Itoa(i)), n/9+1)[:n-i*7]
		copy(data[n/2:], sym.Bytes("part", 2))
		hash, name := ndHex(data)
		sym.Atomic(func() { t.data[hash] = data })
		bodies, names = append(bodies, data), append(names, name)
		b.send(c, ndAnnounce(b.txid(), hash, t.port, ""))
		b.got(c)
		sym.Settle()
	}
	sym.Assume(names[0] != names[1])
	for i, name := range names {
		g, err := ioutil.ReadFile(name)
		sym.Assert(err == nil, "fetched metadata is written")
		sym.Assert(bytes.Equal(g, bodies[i]), "a file holds exactly the fetched metadata")
	}
	l, err := ioutil.ReadDir("torrent")
	sym.Assert(err == nil && len(l) == 2, "a file is written after a successful fetch only, under the name of its hash")
}
