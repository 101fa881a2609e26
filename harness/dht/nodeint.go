package dht

import (
	"net"
	"strconv"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_H03_full lists more nodes than a bucket takes.
//
//verif:opts weight=2
func VH_H03_full() {
	b := ndStart(2)
	seen := map[string]bool{}
	boot := b.socks[0]
	BootStrap("127.0.0.1:" + strconv.Itoa(ndPort(boot)))
	tx := b.asked(boot, seen)
	sym.Assert(len(tx) == 1, "the bootstrap node is asked once")
	far := 7 + sym.Pick("far", 6)
	nodes := ""
	var ids []string
	for i := 0; i < far; i++ {
		x := []byte(b.self)
		x[0] ^= 0x80
		x[9] ^= byte(i)
		ids = append(ids, string(x))
		nodes += ndEntry(string(x), ndPort(b.socks[1]))
	}
	// a nearer one goes to another bucket
	near := []byte(b.self)
	near[3] ^= 1
	at := 26 * sym.Pick("near", far+1)
	nodes = nodes[:at] + ndEntry(string(near), ndPort(b.socks[1])) + nodes[at:]
	ids = append(ids, string(near))
	b.send(boot, "d1:rd2:id20:"+ndPeer+"5:nodes"+ndStr(nodes)+"e1:t"+ndStr(tx[0])+"1:y1:re")
	stored := 0
	for _, id := range ids {
		if rtable.Find(id) != nil {
			stored++
		}
	}
	q := b.asked(b.socks[1], seen)
	stored = 0
	for _, id := range ids {
		if rtable.Find(id) != nil {
			stored++
		}
	}
	sym.Assert(len(q) == stored, "the nodes the table has accepted are asked, and no others")
	sym.Assert(rtable.Find(string(near)) != nil && stored > 7, "there is room")
}

// VH_H03_stored lists one node at any address and looks at the table.
//
//verif:opts weight=2
func VH_H03_stored() {
	b := ndStart(1)
	seen := map[string]bool{}
	boot := b.socks[0]
	BootStrap("127.0.0.1:" + strconv.Itoa(ndPort(boot)))
	tx := b.asked(boot, seen)
	sym.Assert(len(tx) == 1, "the bootstrap node is asked once")
	ip := []string{"127.0.0.1", "127.0.0.2", "127.200.1.255"}[sym.Pick("ip", 3)]
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(ip)})
	if err != nil {
		panic(err)
	}
	port := ndPort(c)
	kind := sym.Pick("port", 4)
	switch kind {
	case 1: // the port of the node itself, at another address
		sym.Assume(ip != "127.0.0.1")
		port = b.at.Port
	case 2:
		port = 0
	case 3: // the port of the bootstrap node
		sym.Assume(ip != "127.0.0.1")
		if port != ndPort(boot) {
			c, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(ip), Port: ndPort(boot)})
			if err != nil {
				panic(err)
			}
		}
		port = ndPort(boot)
	}
	id := []byte(b.self)
	switch sym.Pick("id", 3) {
	case 0:
		id[19] ^= 1
	case 1:
		id[sym.Pick("at", 20)] ^= sym.U8("x") | 1
	case 2:
		id = sym.Bytes("id", 20)
		sym.Assume(string(id) != b.self)
	}
	e := string(id) + string([]byte(net.ParseIP(ip).To4())) + string([]byte{byte(port >> 8), byte(port)})
	more := []string{"", "5:token2:aa", "6:valuesl6:abcdefe"}[sym.Pick("more", 3)]
	b.send(boot, "d1:rd2:id20:"+ndPeer+"5:nodes"+ndStr(e)+more+"e1:t"+ndStr(tx[0])+"1:y1:re")
	q := b.asked(c, seen)
	n := rtable.Find(string(id))
	sym.Assert(n != nil, "a listed node is stored")
	sym.Assert(n.Addr.Port == port && n.Addr.IP.Equal(net.ParseIP(ip)), "a listed node is stored with its address")
	sym.Assert(len(q) == 1 || kind == 1 || kind == 2, "each listed node is asked once")
	sym.Assert(len(b.asked(boot, seen)) == 0, "each listed node is asked once")
	sym.Reach("stored")
}

// VH_H03_many lists nodes at all levels, as many as a datagram takes.
//
//verif:opts weight=2 steps=40000000
func VH_H03_many() {
	b := ndStart(2)
	seen := map[string]bool{}
	boot := b.socks[0]
	BootStrap("127.0.0.1:" + strconv.Itoa(ndPort(boot)))
	tx := b.asked(boot, seen)
	sym.Assert(len(tx) == 1, "the bootstrap node is asked once")
	n := []int{16, 25, 34}[sym.Pick("n", 3)]
	rounds := 1 + sym.Pick("rounds", sym.Bound(2, 3))
	from := boot
	asked := 0
	all := map[string]bool{}
	for r := 0; r < rounds; r++ {
		nodes := ""
		for i := 0; i < n; i++ {
			x := []byte(b.self)
			level := (i * 3) % 17
			x[level/8] ^= 0x80 >> uint(level%8)
			x[5] ^= byte(i)
			x[6] ^= byte(r)
			all[string(x)] = true
			nodes += ndEntry(string(x), ndPort(b.socks[1]))
		}
		b.send(from, "d1:rd2:id20:"+ndPeer+"5:nodes"+ndStr(nodes)+"e1:t"+ndStr(tx[0])+"1:y1:re")
		q := b.asked(b.socks[1], seen)
		asked += len(q)
		stored := 0
		for id := range all {
			if rtable.Find(id) != nil {
				stored++
			}
		}
		sym.Assert(asked == stored, "the nodes the table has accepted are asked, and no others")
		sym.Assert(stored == len(all), "a node the table has room for is stored") // at most six of a level
		if len(q) == 0 {
			return
		}
		from, tx = b.socks[1], q
	}
}
