package dht

import (
	"net"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_N01_encode encodes nodes and decodes them again.
//
//verif:opts weight=3
func VH_N01_encode() {
	n := []int{0, 1, 2, 3, 40, 200}[sym.Pick("n", sym.Bound(5, 6))]
	long := sym.Pick("form", 2) == 1
	var nodes []*NodeInfo
	want := ""
	for i := 0; i < n; i++ {
		id := sym.Str("id", 20)
		ip := sym.Bytes("ip", 4)
		port := sym.Range("port", 0, 65535)
		want += id + string(ip) + string([]byte{byte(port >> 8), byte(port)})
		a := net.IP(ip)
		if long {
			a = net.IPv4(ip[0], ip[1], ip[2], ip[3])
		}
		nodes = append(nodes, NewNodeInfo(id, &net.UDPAddr{IP: a, Port: port}))
	}
	s := joinNodeInfos(nodes)
	sym.Assert(len(s) == 26*n, "a node takes 26 bytes")
	sym.Assert(s == want, "nodes are encoded in network byte order")
	back := parseNodeInfo(s)
	sym.Assert(len(back) == n, "decoding gives the same nodes")
	for i, b := range back {
		ip := nodes[i].Addr.IP.To4()
		sym.Assert(b.Id == nodes[i].Id, "decoding gives the same ids")
		v := b.Addr.IP.To4()
		sym.Assert(v != nil && string(v) == string(ip), "decoding gives the same addresses")
		sym.Assert(b.Addr.Port == nodes[i].Addr.Port, "decoding gives the same ports")
	}
}

// VH_N01_decode decodes any string.
//
//verif:opts weight=2
func VH_N01_decode() {
	n := sym.Pick("n", sym.Bound(80, 120))
	s := sym.Str("s", n)
	nodes := parseNodeInfo(s)
	sym.Assert(len(nodes) == n/26, "every whole entry is decoded")
	sym.Assert(joinNodeInfos(nodes) == s[:n/26*26], "encoding what was decoded gives the whole entries")
	for _, x := range nodes {
		sym.Assert(x != nil && len(x.Id) == 20 && x.Addr != nil && len(x.Addr.IP.To4()) == 4, "an entry is an id and an address")
	}
}

// VH_N02_encode encodes peers and decodes them again.
//
//verif:opts weight=2
func VH_N02_encode() {
	n := []int{0, 1, 2, 3, 40, 200}[sym.Pick("n", sym.Bound(5, 6))]
	var addrs []*net.UDPAddr
	var want []string
	for i := 0; i < n; i++ {
		ip := sym.Bytes("ip", 4)
		port := sym.Range("port", 0, 65535)
		want = append(want, string(ip)+string([]byte{byte(port >> 8), byte(port)}))
		addrs = append(addrs, &net.UDPAddr{IP: net.IPv4(ip[0], ip[1], ip[2], ip[3]), Port: port})
	}
	l := joinPeerInfos(addrs)
	sym.Assert(len(l) == n, "a peer is one entry")
	for i := range l {
		s, ok := l[i].(string)
		sym.Assert(ok && s == want[i], "peers are encoded in network byte order")
	}
	back := parsePeerInfo(l)
	sym.Assert(len(back) == n, "decoding gives the same peers")
	for i, b := range back {
		v := b.IP.To4()
		sym.Assert(v != nil && string(v) == want[i][:4], "decoding gives the same addresses")
		sym.Assert(b.Port == addrs[i].Port, "decoding gives the same ports")
	}
}

// VH_N02_decode decodes lists with entries of any length and type.
//
//verif:opts weight=2
func VH_N02_decode() {
	n := sym.Pick("n", sym.Bound(4, 5))
	l := misc.List{}
	var good []string
	for i := 0; i < n; i++ {
		switch k := sym.Pick("entry", 11); k {
		case 0:
			l = append(l, 7)
		case 1:
			l = append(l, misc.List{"aaaaaa"})
		case 2:
			s := sym.Str("s", 6)
			good = append(good, s)
			l = append(l, s)
		case 9:
			l = append(l, sym.Str("s", 18))
		default:
			s := sym.Str("s", []int{0, 1, 2, 3, 4, 5, 7, 8}[(k+5)%8])
			l = append(l, s)
		}
	}
	var got []*net.UDPAddr
	p := sym.Caught(func() { got = parsePeerInfo(l) })
	sym.Assert(p == nil, "a malformed entry causes no panic")
	sym.Assert(len(got) == len(good), "exactly the 6-byte entries give addresses")
	for i, a := range got {
		sym.Assert(a != nil, "exactly the 6-byte entries give addresses")
		v := a.IP.To4()
		sym.Assert(v != nil && string(v) == good[i][:4] && a.Port == int(good[i][4])<<8|int(good[i][5]), "an entry gives exactly its address")
	}
}

func hex16(n uint16) string {
	const d = "0123456789abcdef"
	return string([]byte{d[n>>12], d[n>>8&15], d[n>>4&15], d[n&15]})
}

// VH_N03_cycle: from any starting point the ids count up, so that a full cycle
// holds every id once.
//
//verif:opts weight=2
func VH_N03_cycle() {
	s := sym.U16("start")
	g := NewTxIdGenerator(s)
	n := sym.Bound(6, 16)
	for i := 1; i <= n; i++ {
		id := g.Next()
		sym.Assert(len(id) == 4, "an id has four characters")
		sym.Assert(strings.ToLower(id) == hex16(s+uint16(i)), "ids count up")
	}
}

// VH_N03_pair: two generators are at the same point exactly when they give the
// same id.
func VH_N03_pair() {
	a, b := sym.U16("a"), sym.U16("b")
	sym.Assert((NewTxIdGenerator(a).Next() == NewTxIdGenerator(b).Next()) == (a == b), "different points give different ids")
}

// VH_N03_full runs a whole cycle.
//
//verif:opts steps=200000000 tier=thorough
func VH_N03_full() {
	g := NewTxIdGenerator([]uint16{0, 1000, 65535}[sym.Pick("start", 3)])
	seen := map[string]bool{}
	for i := 0; i < 65536; i++ {
		seen[g.Next()] = true
	}
	sym.Assert(len(seen) == 65536, "a full cycle holds every id once")
}

// VH_N03_race draws ids from several goroutines.
//
//verif:opts weight=3 race preempt=3 tpreempt=4
func VH_N03_race() {
	g := NewTxIdGenerator(sym.U16("start"))
	var ids [3][2]string
	// two goroutines draw two ids each, or three one each
	third := sym.Thorough() || sym.Pick("third", 2) == 1
	twice := sym.Thorough() || !third
	draw := func(i int) func() {
		return func() {
			ids[i][0] = g.Next()
			if twice {
				ids[i][1] = g.Next()
			}
		}
	}
	sym.Explore(true)
	if third {
		sym.Par(draw(0), draw(1), draw(2))
	} else {
		sym.Par(draw(0), draw(1))
	}
	sym.Explore(false)
	for i := 0; i < 6; i++ {
		if i/2 == 2 && !third || i%2 == 1 && !twice {
			continue
		}
		sym.Assert(len(ids[i/2][i%2]) == 4, "an id has four characters")
		for j := 0; j < i; j++ {
			sym.Assert(ids[i/2][i%2] != ids[j/2][j%2], "concurrent callers get different ids")
		}
	}
}
