package krpc

import (
	"net"
	"runtime"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_K09_readerr lets reads of the socket fail between datagrams.
//
//verif:opts
func VH_K09_readerr() {
	port := sym.Port()
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	s := StartUdpServer("127.0.0.1:" + strconv.Itoa(port))
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	fail := func() {
		s.conn.SetReadDeadline(time.Now().Add(-time.Second))
		for i := 0; i < 20; i++ {
			if sym.Native() {
				time.Sleep(time.Millisecond)
			} else {
				runtime.Gosched()
			}
		}
		s.conn.SetReadDeadline(time.Time{})
	}
	n := 0
	for i := 0; i < 3; i++ {
		if sym.Pick("fail", 2) == 1 {
			fail()
		}
		if sym.Pick("send", 2) == 1 {
			c.WriteToUDP([]byte("datagram"+strconv.Itoa(n)), at)
			n++
		}
	}
	sym.Settle()
	for i := 0; i < n; i++ {
		select {
		case p := <-s.RecvChan():
			sym.Assert(p != nil && string(p.Bytes) == "datagram"+strconv.Itoa(i) && p.Addr != nil, "a failed read does not stop later datagrams")
		default:
			sym.Fail("a failed read does not stop later datagrams")
		}
	}
	select {
	case <-s.RecvChan():
		sym.Fail("a failed read delivers nothing")
	default:
	}
}
