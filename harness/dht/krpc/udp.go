package krpc

import (
	"net"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

func udpSocks(n int) (r []*net.UDPConn) {
	for i := 0; i < n; i++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		r = append(r, c)
	}
	return
}

func udpServer() (*UdpServer, *net.UDPAddr) {
	port := sym.Port()
	return StartUdpServer("127.0.0.1:" + strconv.Itoa(port)), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
}

func udpSend(c *net.UDPConn, to *net.UDPAddr, b string) {
	if _, err := c.WriteToUDP([]byte(b), to); err != nil {
		panic(err)
	}
}

// VH_K09_recv takes datagrams from the receive channel, some at once, some
// when others have arrived, and some after their handling has given them back.
//
//verif:opts weight=3
func VH_K09_recv() {
	s, at := udpServer()
	cs := udpSocks(2)
	type sent struct {
		data string
		port int
	}
	var out []sent
	var held []*RecvPacket
	next := 0
	n := sym.Bound(4, 5)
	take := func() {
		select {
		case p := <-s.RecvChan():
			sym.Assert(next < len(out), "a datagram is passed on once")
			sym.Assert(string(p.Bytes) == out[next].data, "a datagram arrives with its exact bytes, in order")
			sym.Assert(p.Addr != nil && p.Addr.Port == out[next].port && p.Addr.IP.IsLoopback(), "a datagram arrives with its sender's address")
			held = append(held, p)
			next++
		default:
			sym.Assert(next == len(out), "every datagram is passed on")
		}
	}
	for i := 0; i < n; i++ {
		c := sym.Pick("from", 2)
		size := []int{0, 3, 1024, 1}[sym.Pick("size", sym.Bound(3, 4))]
		b := make([]byte, size)
		copy(b, sym.Bytes("d", 3))
		if size > 4 {
			b[size-1] = byte(i)
		}
		d := sent{string(b), portOfSock(cs[c])}
		out = append(out, d)
		udpSend(cs[c], at, d.data)
		sym.Settle()
		if sym.Pick("take", 2) == 1 {
			take()
		}
	}
	for next < len(out) {
		take()
	}
	take()
	for i, p := range held {
		sym.Assert(string(p.Bytes) == out[i].data, "the bytes of a datagram do not change while it is handled")
	}
}

// VH_K09_large has datagrams around and beyond the size of the receive buffer,
// which are dropped, or passed on in full, but never cut.
//
//verif:opts
func VH_K09_large() {
	s, at := udpServer()
	cs := udpSocks(2)
	var out []string
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		size := []int{3, 1024, 1025, 1500, 4000}[sym.Pick("size", 5)]
		b := make([]byte, size)
		copy(b, sym.Bytes("d", 2))
		b[2] = byte(i)
		b[size-1] = byte(i)
		out = append(out, string(b))
		udpSend(cs[i%2], at, string(b))
		sym.Settle()
	}
	next := 0
	for {
		select {
		case p := <-s.RecvChan():
			for next < len(out) && len(out[next]) > 1024 && len(p.Bytes) != len(out[next]) {
				next++
			}
			sym.Assert(next < len(out), "a datagram is passed on once")
			sym.Assert(string(p.Bytes) == out[next], "a datagram arrives with its exact bytes, in order")
			sym.Assert(p.Addr != nil && p.Addr.Port == portOfSock(cs[int(p.Bytes[2])%2]), "a datagram arrives with its sender's address")
			next++
			sym.Settle()
			continue
		default:
		}
		break
	}
	for next < len(out) && len(out[next]) > 1024 {
		next++
	}
	sym.Assert(next == len(out), "every datagram is passed on")
	sym.Reach("large")
}

func portOfSock(c *net.UDPConn) int { return c.LocalAddr().(*net.UDPAddr).Port }

// VH_K09_many has more datagrams in flight than the channel takes.
//
//verif:opts
func VH_K09_many() {
	RecvChanLen = []int{1, 2, 100}[sym.Pick("chan", 3)]
	s, at := udpServer()
	cs := udpSocks(1)
	n := []int{1, 3, 5, 120}[sym.Pick("n", 4)]
	for i := 0; i < n; i++ {
		udpSend(cs[0], at, "datagram"+strconv.Itoa(i))
	}
	sym.Settle()
	var held []*RecvPacket
	for i := 0; i < n; i++ {
		sym.Settle()
		select {
		case p := <-s.RecvChan():
			held = append(held, p)
		default:
			sym.Fail("every datagram is passed on")
		}
	}
	sym.Settle()
	select {
	case <-s.RecvChan():
		sym.Fail("a datagram is passed on once")
	default:
	}
	for i, p := range held {
		sym.Assert(string(p.Bytes) == "datagram"+strconv.Itoa(i), "the bytes of a datagram do not change while it is handled")
	}
}

// VH_K09_burst sends datagrams faster than they are taken.
//
//verif:opts weight=2 preempt=1 tpreempt=2
func VH_K09_burst() {
	RecvChanLen = []int{1, 2}[sym.Pick("chan", 2)]
	s, at := udpServer()
	cs := udpSocks(1)
	n := RecvChanLen + 2 + sym.Pick("more", 2)
	sym.Settle()
	sym.Explore(true)
	for i := 0; i < n; i++ {
		udpSend(cs[0], at, "datagram"+strconv.Itoa(i))
	}
	sym.Settle()
	sym.Explore(false)
	for i := 0; i < n; i++ {
		sym.Settle()
		select {
		case p := <-s.RecvChan():
			sym.Assert(string(p.Bytes) == "datagram"+strconv.Itoa(i), "a datagram arrives with its exact bytes, in order")
		default:
			sym.Fail("every datagram is passed on")
		}
	}
}

// VH_K09_handling: the bytes a handler works on are its own until it is done,
// while other datagrams come in and are handled.
//
//verif:opts weight=4 race preempt=2 tpreempt=3
func VH_K09_handling() { handling(2) }

// VH_K09_three has one datagram more, so that the buffer of the first may be
// used again for the third.
//
//verif:opts weight=4 race preempt=1 tpreempt=2
func VH_K09_three() { handling(3) }

func handling(n int) {
	config.DhtConfig().WorkPoolSize = 2
	port := sym.Port()
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	srv := NewRpcServer("127.0.0.1:" + strconv.Itoa(port))
	cs := udpSocks(1)
	got := map[string]int{}
	srv.RegisteHandler("ping", func(ctx *RpcContext) {
		b := ctx.Request().Body()
		v := ctx.Request().TxId() + b.GetString("id") + b.GetString("x")
		sym.Atomic(func() { got[v]++ })
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789"}))
	})
	go srv.Listen()
	sym.Settle()
	var want []string
	sym.Explore(true)
	for i := 0; i < n; i++ {
		k := string([]byte{byte('a' + i)})
		id := ""
		for len(id) < 20 {
			id += k
		}
		udpSend(cs[0], at, "d1:ad2:id20:"+id+"1:x1:"+k+"e1:q4:ping1:t1:"+k+"1:y1:qe")
		want = append(want, k+id+k)
	}
	sym.Settle()
	sym.Explore(false)
	sym.Assert(len(got) == n, "every datagram reaches its handler once, intact")
	for _, w := range want {
		sym.Assert(got[w] == 1, "every datagram reaches its handler once, intact")
	}
}

// VH_K09_rounds: buffers that were given back are used again.
//
//verif:opts
func VH_K09_rounds() {
	config.DhtConfig().WorkPoolSize = 2
	port := sym.Port()
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	srv := NewRpcServer("127.0.0.1:" + strconv.Itoa(port))
	cs := udpSocks(1)
	var bodies []misc.Dict
	srv.RegisteHandler("ping", func(ctx *RpcContext) {
		bodies = append(bodies, ctx.Request().Body())
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789"}))
	})
	go srv.Listen()
	var want []string
	n := sym.Bound(4, 6)
	for i := 0; i < n; i++ {
		x := ""
		switch sym.Pick("kind", 3) {
		case 0: // short
			x = string([]byte{byte('a' + i)})
		case 1: // long
			for len(x) < 300 {
				x += string([]byte{byte('a' + i)})
			}
		case 2: // junk
			udpSend(cs[0], at, "junk")
			sym.Settle()
			continue
		}
		udpSend(cs[0], at, "d1:ad2:id20:abcdefghij01234567891:x"+strconv.Itoa(len(x))+":"+x+"e1:q4:ping1:t1:a1:y1:qe")
		want = append(want, x)
		if sym.Pick("wait", 2) == 1 {
			sym.Settle()
		}
	}
	sym.Settle()
	sym.Assert(len(bodies) == len(want), "every datagram reaches its handler once, intact")
	seen := map[string]int{}
	for _, b := range bodies {
		seen[b.GetString("x")]++
	}
	for _, w := range want {
		sym.Assert(seen[w] == 1, "every datagram reaches its handler once, intact")
	}
}

// VH_K09_busy: queries that wait while the worker is busy keep their bytes,
// whatever was received and handled before.
//
//verif:opts weight=2
func VH_K09_busy() {
	config.DhtConfig().WorkPoolSize = 1
	port := sym.Port()
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	srv := NewRpcServer("127.0.0.1:" + strconv.Itoa(port))
	cs := udpSocks(1)
	release := make(chan bool)
	got := map[string]int{}
	srv.RegisteHandler("ping", func(ctx *RpcContext) {
		b := ctx.Request().Body()
		if b.Exist("hold") {
			<-release
		}
		v := b.GetString("x")
		sym.Atomic(func() { got[v]++ })
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789"}))
	})
	go srv.Listen()
	q := func(x, more string) string {
		return "d1:ad" + more + "2:id20:abcdefghij01234567891:x" + strconv.Itoa(len(x)) + ":" + x + "e1:q4:ping1:t1:a1:y1:qe"
	}
	long := ""
	for len(long) < 1024 {
		long += "e"
	}
	var want []string
	for i := 0; i < sym.Bound(2, 3); i++ {
		m := ""
		switch sym.Pick("before", 9) {
		case 1:
			m = "x"
		case 2:
			m = "de"
		case 3:
			m = "junk"
		case 4:
			m = long
		case 5:
			m = "d1:eli201e3:bade1:t1:a1:y1:ee"
		case 6:
			m = "d1:rd2:id20:abcdefghij0123456789e1:t1:a1:y1:re"
		case 7:
			m = "d1:q4:ping1:t1:a1:y1:qe"
		case 8:
			m = q("early"+strconv.Itoa(i), "")
			want = append(want, "early"+strconv.Itoa(i))
		}
		udpSend(cs[0], at, m)
		sym.Settle()
	}
	udpSend(cs[0], at, q("held", "4:holdi1e"))
	want = append(want, "held")
	sym.Settle()
	for i := 0; i < 5; i++ {
		udpSend(cs[0], at, q("late"+strconv.Itoa(i), ""))
		want = append(want, "late"+strconv.Itoa(i))
		sym.Settle()
	}
	close(release)
	sym.Settle()
	sym.Assert(len(got) == len(want), "every datagram reaches its handler once, intact")
	for _, w := range want {
		sym.Assert(got[w] == 1, "every datagram reaches its handler once, intact")
	}
}

// VH_K10_close closes an endpoint in any state, any number of times.
//
//verif:opts
func VH_K10_close() {
	RecvChanLen = 1 + sym.Pick("chan", 2)
	s, at := udpServer()
	cs := udpSocks(1)
	base := sym.Goroutines()
	n := sym.Pick("pending", 5)
	for i := 0; i < n; i++ {
		udpSend(cs[0], at, "x")
	}
	if sym.Pick("settle", 2) == 1 {
		sym.Settle()
	}
	times := 1 + sym.Pick("times", 3)
	for i := 0; i < times; i++ {
		sym.Assert(s.Close() == nil, "closing an endpoint is idempotent")
		if sym.Pick("settle", 2) == 1 {
			sym.Settle()
		}
	}
	sym.Settle()
	sym.Assert(sym.Goroutines() < base, "the receive loop ends after the close")
	again, err := net.ListenUDP("udp", at)
	sym.Assert(err == nil, "a closed endpoint gives its address back")
	again.Close()
	sym.Assert(s.SendPacket([]byte("x"), cs[0].LocalAddr().(*net.UDPAddr)) != nil, "a closed endpoint sends nothing")
}

// VH_K10_race closes an endpoint from several goroutines while datagrams come.
//
//verif:opts weight=4 race preempt=2 tpreempt=3
func VH_K10_race() {
	RecvChanLen = 1
	s, at := udpServer()
	cs := udpSocks(1)
	base := sym.Goroutines()
	sym.Settle()
	var errs [2]error
	send := sym.Pick("send", 3)
	sym.Explore(true)
	sym.Par(func() {
		errs[0] = s.Close()
	}, func() {
		errs[1] = s.Close()
	}, func() {
		for i := 0; i < send; i++ {
			udpSend(cs[0], at, "x")
		}
	})
	sym.Settle()
	sym.Explore(false)
	sym.Assert(errs[0] == nil && errs[1] == nil, "closing an endpoint is idempotent")
	sym.Assert(sym.Goroutines() < base, "the receive loop ends after the close")
}

// VH_K10_rpc closes a running server.
//
//verif:opts
func VH_K10_rpc() {
	config.DhtConfig().WorkPoolSize = 2
	port := sym.Port()
	at := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	srv := NewRpcServer("127.0.0.1:" + strconv.Itoa(port))
	cs := udpSocks(1)
	ran := 0
	srv.RegisteHandler("ping", func(ctx *RpcContext) {
		ran++
		ctx.WriteAs(WithResponse("aa", misc.Dict{}))
	})
	if sym.Pick("listen", 2) == 1 {
		go srv.Listen()
		sym.Settle()
	}
	before := sym.Goroutines()
	n := 1 + sym.Pick("times", 3)
	for i := 0; i < n; i++ {
		p := sym.Caught(func() { srv.Close() })
		sym.Assert(p == nil, "closing an endpoint is idempotent")
	}
	sym.Settle()
	sym.Assert(sym.Goroutines() < before, "the receive loop ends after the close")
	udpSend(cs[0], at, "d1:ad2:id20:abcdefghij0123456789e1:q4:ping1:t1:a1:y1:qe")
	sym.Settle()
	cs[0].SetReadDeadline(time.Now().Add(5 * time.Millisecond))
	_, _, err := cs[0].ReadFromUDP(make([]byte, 100))
	sym.Assert(err != nil && ran == 0, "a closed endpoint receives nothing")
	again, err := net.ListenUDP("udp", at)
	sym.Assert(err == nil, "a closed endpoint gives its address back")
	again.Close()
}
