package dht

import (
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_H05_width announces more torrents than are downloaded at a time, from
// peers that never serve them.
//
//verif:opts weight=2 replays=1
func VH_H05_width() {
	w := 1 + sym.Pick("width", sym.Bound(3, 5))
	b := wdStart(w)
	t := ndListen(0)
	sym.Atomic(func() { t.slow = true })
	n := w + sym.Pick("more", 4)
	if sym.Pick("few", 2) == 1 {
		n = w - 1
	}
	c := b.socks[0]
	for i := 0; i < n; i++ {
		b.send(c, ndAnnounce("t"+strconv.Itoa(i), ndPeer[:18]+sym.Str("hash", 1)+string([]byte{byte(i)}), t.port, ""))
	}
	sym.Assert(len(b.got(c)) == n, "announces are answered while downloads are under way")
	for r := 0; ; r++ {
		live, asked := wdLook(t)
		sym.Assert(live <= w, "no more downloads than configured run at once")
		sym.Assert(live == w || asked == n, "as many downloads as configured run at once")
		tx := b.txid()
		b.send(c, ndQuery(tx, "ping", "2:id20:"+ndPeer))
		sym.Assert(b.reply(c, tx) != nil, "queries are answered while downloads are under way")
		if asked == n {
			break
		}
		sym.Assert(r < 100, "a download that ends lets the next one start")
		time.Sleep(300 * time.Millisecond)
	}
	sym.Reach("all")
}

// VH_H05_next ends the downloads one by one, in any way.
//
//verif:opts weight=2 replays=1
func VH_H05_next() {
	w := 1 + sym.Pick("width", 2)
	b := wdStart(w)
	t := ndListen(0)
	sym.Atomic(func() { t.slow = true; t.cut = make(chan bool) })
	c := b.socks[0]
	n := w + sym.Bound(2, 3)
	bad := 0
	for i := 0; i < n; i++ {
		port := t.port
		hash := ndPeer[:19] + string([]byte{byte(i)})
		implied := ""
		switch sym.Pick("what", 4) {
		case 1: // fails before it has begun
			port = []int{0, 70000}[sym.Pick("port", 2)]
			bad++
		case 2:
			hash = hash[:7]
			bad++
		case 3:
			implied = []string{"1:x", "le", "de"}[sym.Pick("type", 3)]
			bad++
		}
		if implied != "" {
			implied = "12:implied_port" + implied
		}
		b.send(c, ndQuery("t"+strconv.Itoa(i), "announce_peer", "2:id20:"+ndPeer+implied+"9:info_hash"+ndStr(hash)+"4:porti"+strconv.Itoa(port)+"e5:token2:aa"))
	}
	sym.Assert(len(b.got(c)) == n, "announces are answered while downloads are under way")
	for done := 0; ; done++ {
		live, asked := wdLook(t)
		sym.Assert(live <= w, "no more downloads than configured run at once")
		left := n - bad - done
		if left < w {
			sym.Assert(live == left, "a download that ends lets the next one start")
		} else {
			sym.Assert(live == w, "a download that ends lets the next one start")
		}
		if left == 0 {
			sym.Assert(asked == n-bad, "every announced torrent is downloaded once")
			break
		}
		t.cut <- true
	}
	sym.Reach("all")
}

func wdStart(w int) *ndBed {
	wdWidth = w
	b := ndStart(1)
	wdWidth = 2
	sym.Assume(config.FetchTorrentConfig().WorkPoolSize == w)
	return b
}

func wdLook(t *ndTorrent) (live, asked int) {
	sym.Settle()
	sym.Atomic(func() { live, asked = t.live, len(t.got) })
	return
}
