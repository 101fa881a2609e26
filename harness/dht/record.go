package dht

import (
	"encoding/hex"
	"io/ioutil"
	"net"
	"strconv"
	"strings"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

func rcLines() []string {
	b, err := ioutil.ReadFile("logs/infohash.log")
	if err != nil {
		return nil
	}
	s := strings.TrimSuffix(string(b), "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

// VH_H04_record sends queries of every kind and reads the record.
//
//verif:opts real weight=2
func VH_H04_record() {
	config.DhtConfig().WorkPoolSize = 2
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: config.DhtConfig().Port}
	var socks []*net.UDPConn
	for i := 0; i < 2; i++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		socks = append(socks, c)
	}
	go Run()
	sym.Settle()
	was := len(rcLines())
	const id = "abcdefghij0123456789"
	n := 0
	for i := 0; i < sym.Bound(2, 3); i++ {
		c := socks[sym.Pick("from", 2)]
		hash := "0123456789abcdefghi" + sym.Str("hash", 1)
		kind := ""
		var q string
		port := sym.Pick("port", 2)*6880 + 1
		what := sym.Pick("kind", 5)
		switch what {
		case 0:
			q = "d1:ad2:id20:" + id + "e1:q4:ping1:t2:aa1:y1:qe"
		case 1:
			q = "d1:ad2:id20:" + id + "6:target20:" + hash + "e1:q9:find_node1:t2:aa1:y1:qe"
		case 2:
			kind = "get_peer"
			q = "d1:ad2:id20:" + id + "9:info_hash20:" + hash + "e1:q9:get_peers1:t2:aa1:y1:qe"
		case 3:
			kind = "announce_peer"
			q = "d1:ad2:id20:" + id + "9:info_hash20:" + hash + "4:porti" + strconv.Itoa(port) + "e5:token1:xe1:q13:announce_peer1:t2:aa1:y1:qe"
		case 4:
			q = "d1:ad2:id20:" + id + "5:token1:xe1:q13:announce_peer1:t2:aa1:y1:qe"
		}
		if _, err := c.WriteToUDP([]byte(q), at); err != nil {
			panic(err)
		}
		sym.Settle()
		lines := rcLines()
		if kind == "" {
			sym.Assert(len(lines) == was+n, "only get_peers and announce_peer queries are recorded")
			sym.Reach("not recorded")
			continue
		}
		n++
		sym.Assert(len(lines) == was+n, "a get_peers or announce_peer query is recorded in one line")
		l := lines[len(lines)-1]
		sym.Assert(strings.Contains(l, `"`+kind+`"`), "the record tells the kind of query")
		sym.Assert(strings.Contains(l, `"`+c.LocalAddr().String()+`"`), "the record has the address of the sender")
		sym.Assert(strings.Contains(l, `"`+hex.EncodeToString([]byte(hash))+`"`), "the record has the info-hash in hexadecimal")
		if what == 3 {
			sym.Assert(strings.Contains(l, ":"+strconv.Itoa(port)+",") || strings.Contains(l, ":"+strconv.Itoa(port)+"}"), "the record has the announced port")
		}
		sym.Reach("recorded")
	}
}

// VH_H04_many sends the same query again and again.
//
//verif:opts real steps=200000000
func VH_H04_many() {
	config.DhtConfig().WorkPoolSize = 2
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: config.DhtConfig().Port}
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	go Run()
	sym.Settle()
	was := len(rcLines())
	hash := "0123456789abcdefghi" + sym.Str("hash", 1)
	n := sym.Bound(150, 600)
	for i := 0; i < n; i++ {
		q := "d1:ad2:id20:abcdefghij01234567899:info_hash20:" + hash + "e1:q9:get_peers1:t2:aa1:y1:qe"
		if _, err := c.WriteToUDP([]byte(q), at); err != nil {
			panic(err)
		}
		if i%4 == 3 {
			sym.Settle()
		}
	}
	sym.Settle()
	sym.Assert(len(rcLines()) == was+n, "every get_peers query is recorded, however often it repeats")
}
