package krpc

import (
	"net"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

func sdSocks(n int) (r []*net.UDPConn) {
	for i := 0; i < n; i++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		r = append(r, c)
	}
	return
}

// sdGot takes everything a socket has received.
func sdGot(c *net.UDPConn, from int) (r []string) {
	sym.Settle()
	b := make([]byte, 70000)
	for {
		c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		n, a, err := c.ReadFromUDP(b)
		if err != nil {
			return
		}
		sym.Assert(a.Port == from, "a datagram comes from the endpoint's own address")
		r = append(r, string(b[:n]))
	}
}

// VH_K11_send sends datagrams to addresses and host names, good and bad.
//
//verif:opts weight=2
func VH_K11_send() {
	port := sym.Port()
	s := StartUdpServer("127.0.0.1:" + strconv.Itoa(port))
	cs := sdSocks(2)
	var want [2][]string
	for i := 0; i < sym.Bound(2, 3); i++ {
		size := []int{0, 3, 1024, 65507, 65508}[sym.Pick("size", 5)]
		b := make([]byte, size)
		d := sym.Bytes("d", 3)
		copy(b, d)
		if size > 3 {
			copy(b[size-1:], d)
		}
		keep := string(b)
		k := sym.Pick("to", 2)
		to := cs[k].LocalAddr().(*net.UDPAddr)
		var err error
		bad := size > 65507
		switch sym.Pick("how", 4) {
		case 0:
			err = s.SendPacket(b, to)
		case 1:
			err = s.SendPacketToHost(b, to.String())
		case 2:
			err = s.SendPacketToHost(b, "localhost:"+strconv.Itoa(to.Port))
		case 3:
			bad = true
			err = s.SendPacketToHost(b, []string{"", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:x", "127.0.0.1:", "127.0.0.1:0"}[sym.Pick("bad", sym.Bound(4, 6))])
		}
		sym.Assert(string(b) == keep, "sending leaves the bytes as they are")
		if bad {
			sym.Assert(err != nil, "a failed send is reported")
			sym.Reach("bad")
		} else {
			sym.Assert(err == nil, "a good send is not an error")
			want[k] = append(want[k], keep)
		}
	}
	for k := range cs {
		g := sdGot(cs[k], port)
		sym.Assert(len(g) == len(want[k]), "a good send sends one datagram, a failed one none")
		for i := range g {
			sym.Assert(g[i] == want[k][i], "a datagram holds exactly the bytes given")
		}
	}
}
