package krpc

import (
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// testbed is a running server and the sockets of two remote nodes.
type testbed struct {
	srv  *RpcServer
	addr *net.UDPAddr
	a, b *net.UDPConn
}

func newBed() *testbed {
	port := sym.Port()
	t := &testbed{addr: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}}
	config.DhtConfig().WorkPoolSize = 2
	t.srv = NewRpcServer("127.0.0.1:" + strconv.Itoa(port))
	t.a, t.b = bedSock(), bedSock()
	return t
}

func bedSock() *net.UDPConn {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	return c
}

func (t *testbed) send(c *net.UDPConn, data string) {
	if _, err := c.WriteToUDP([]byte(data), t.addr); err != nil {
		panic(err)
	}
}

// got returns the datagrams a socket has received, once everything is quiet.
func (t *testbed) got(c *net.UDPConn) []string {
	sym.Settle()
	var r []string
	buf := make([]byte, 65536)
	for {
		c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		n, from, err := c.ReadFromUDP(buf)
		if err != nil {
			return r
		}
		if from.Port != t.addr.Port {
			sym.Assert(false, "a reply comes from the server")
		}
		r = append(r, string(buf[:n]))
	}
}

func portOf(c *net.UDPConn) int { return c.LocalAddr().(*net.UDPAddr).Port }

func bstr(s string) string { return strconv.Itoa(len(s)) + ":" + s }

const okId = "abcdefghij0123456789"

// ping is a correct query.
func ping(tx string) string {
	return "d1:ad2:id20:" + okId + "e1:q4:ping1:t" + bstr(tx) + "1:y1:qe"
}

func pong(ctx *RpcContext) {
	ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": "mnopqrstuvwxyz123456"}))
}

// alive checks that the server still answers a correct query, and nothing else
// has been sent.
func (t *testbed) alive() {
	t.send(t.a, ping("zz"))
	r := t.got(t.a)
	sym.Assert(len(r) == 1, "the server still answers a correct query")
	d, err := misc.DecodeDict(r[0])
	sym.Assert(err == nil, "a reply is valid bencode")
	sym.Assert(d.GetString("t") == "zz" && d.GetString("y") == "r", "the server still answers a correct query")
}

// VH_K01_raw feeds arbitrary short datagrams.
//
//verif:opts weight=8
func VH_K01_raw() {
	t := newBed()
	t.srv.RegisteHandler("ping", pong)
	go t.srv.Listen()
	n := sym.Pick("n", sym.Bound(7, 10))
	t.send(t.b, sym.Str("d", n))
	t.alive()
	sym.Assert(len(t.got(t.b)) == 0, "nothing is sent for a datagram that is no query")
}

// VH_K01_window feeds correct messages in which a few bytes are arbitrary.
//
//verif:opts weight=3
func VH_K01_window() {
	t := newBed()
	t.srv.RegisteHandler("ping", pong)
	go t.srv.Listen()
	var msg string
	switch sym.Pick("kind", 3) {
	case 0:
		msg = ping("aa")
	case 1:
		msg = "d1:rd2:id20:" + okId + "e1:t2:aa1:y1:re"
	case 2:
		msg = "d1:eli201e5:wronge1:t2:aa1:y1:ee"
	}
	w := sym.Bound(1, 2)
	at := sym.Pick("at", len(msg)-w+1)
	b := []byte(msg)
	copy(b[at:], sym.Bytes("w", w))
	m := string(b)
	switch sym.Pick("cut", 2) {
	case 1:
		m = m[:at+w]
	}
	t.send(t.b, m)
	t.alive()
	r := t.got(t.b)
	sym.Assert(len(r) <= 1, "at most one reply")
	for _, x := range r {
		_, err := misc.DecodeDict(x)
		sym.Assert(err == nil, "a reply is valid bencode")
	}
}

// VH_K01_fields feeds dictionaries whose fields are missing or of any type.
//
//verif:opts weight=5
func VH_K01_fields() {
	t := newBed()
	t.srv.RegisteHandler("ping", pong)
	t.srv.RegisteHandler("find_node", func(ctx *RpcContext) {
		body := ctx.Request().Body()
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": body.GetString("target")}))
	})
	ran := 0
	t.srv.Query(t.b.LocalAddr().(*net.UDPAddr), NewBaseRequest("aa", "ping", misc.Dict{"id": okId}, func(ctx *RpcContext) {
		ran++
		body := ctx.Response().Body()
		body.GetString("nodes")
	}))
	sym.Assert(len(t.got(t.b)) == 1, "a query is sent")
	go t.srv.Listen()
	y := []string{"q", "r", "e", "x"}[sym.Pick("y", 4)]
	m := "d"
	val := func(name string) string {
		switch sym.Pick(name, 5) {
		case 0:
			return "i7e"
		case 1:
			return "2:aa"
		case 2:
			return "le"
		case 3:
			return "de"
		}
		return "d2:id20:" + okId + "e"
	}
	field := func(k string) {
		if sym.Pick("has", 2) == 1 {
			m += bstr(k) + val("v."+k)
		}
	}
	field("a")
	if y == "e" {
		field("e")
	}
	if y == "q" {
		if sym.Pick("q", 2) == 1 {
			m += "1:q" + []string{"4:ping", "9:find_node", "1:x", "i1e"}[sym.Pick("method", 4)]
		}
	}
	if y == "r" {
		field("r")
	}
	field("t")
	switch sym.Pick("yt", 3) {
	case 0:
		m += "1:y1:" + y
	case 1:
		m += "1:y" + val("v.y")
	}
	m += "e"
	t.send(t.b, m)
	t.alive()
	sym.Assert(len(t.got(t.b)) <= 1, "at most one reply")
	sym.Assert(ran <= 1, "a response runs its handler once")
}

// VH_K01_handler lets handlers and middlewares fail.
//
//verif:opts weight=2
func VH_K01_handler() {
	t := newBed()
	bad := func(ctx *RpcContext) {
		switch sym.Pick("fail", 5) {
		case 0:
			panic("handler")
		case 1:
			misc.PanicBizErr("handler")
		case 2:
			var m map[string]int
			m["x"] = 1
		case 3: // no answer
		case 4:
			ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"x": 1.5}))
		}
	}
	t.srv.RegisteHandler("ping", pong)
	t.srv.RegisteHandler("find_node", bad)
	t.srv.Query(t.b.LocalAddr().(*net.UDPAddr), NewBaseRequest("aa", "ping", misc.Dict{"id": okId}, bad))
	t.got(t.b)
	go t.srv.Listen()
	if sym.Pick("what", 2) == 0 {
		t.send(t.b, "d1:ad2:id20:"+okId+"e1:q9:find_node1:t2:xx1:y1:qe")
	} else {
		t.send(t.b, "d1:rd2:id20:"+okId+"e1:t2:aa1:y1:re")
	}
	t.alive()
}

type seen struct {
	method string
	ctx    *RpcContext
	body   misc.Dict
	addr   *net.UDPAddr
	tx     string
}

var methods = []string{"ping", "find_node", "get_peers", "announce_peer"}

// checkReply judges the reply to a query with transaction id tx.
func checkReply(m, tx string) (misc.Dict, string) {
	d, err := misc.DecodeDict(m)
	sym.Assert(err == nil, "a reply is valid bencode")
	t, ok := d["t"].(string)
	sym.Assert(ok && t == tx, "a reply carries the transaction id of the query")
	y, ok := d["y"].(string)
	sym.Assert(ok && (y == "r" || y == "e"), "a reply is a response or an error")
	if y == "r" {
		_, ok := d["r"].(misc.Dict)
		sym.Assert(ok, "a response has a body")
	} else {
		l, ok := d["e"].(misc.List)
		sym.Assert(ok && len(l) == 2, "an error has a code and a message")
		_, ok1 := l[0].(int)
		_, ok2 := l[1].(string)
		sym.Assert(ok1 && ok2, "an error has a code and a message")
	}
	return d, y
}

// genTx is any transaction id of up to three bytes.
func genTx() string { return sym.Str("tx", sym.Pick("tx.len", sym.Bound(3, 4))) }

// query is a query with every kind of defect; ok tells whether it is valid for
// a server that has the handlers in reg. What varies at once is the method, the
// arguments, or the transaction id and what follows the query; the thorough
// tier varies all of them at once.
func query(reg map[string]bool) (msg, tx, method string, ok bool, num int) {
	ok = true
	focus := sym.Pick("focus", sym.Bound(3, 4))
	vary := func(f int) bool { return focus == f || focus == 3 }
	tx = "aa"
	if vary(2) {
		tx = genTx()
	}
	q := 0
	if vary(0) {
		q = sym.Pick("q", 4)
	}
	a := 4
	if vary(1) {
		a = sym.Pick("a", 5)
	}
	switch q {
	case 0:
		method = methods[sym.Pick("method", 4)]
	case 1:
		method = []string{"PING", "vote", "pin", "pingx", ""}[sym.Pick("odd", 5)]
	case 2:
		method = sym.Str("method", sym.Bound(2, 4))
		sym.Assume(method != "ping")
	case 3:
		b := []byte("ping")
		b[sym.Pick("mut.at", 4)] = sym.U8("mut")
		method = string(b)
	}
	if !reg[method] {
		ok = false
	}
	msg = "d"
	num = sym.Range("num", 0, 9)
	id := okId
	switch a {
	case 0: // missing
		ok = false
	case 1:
		msg += "1:a" + []string{"i1e", "1:x", "le"}[sym.Pick("a.type", 3)]
		ok = false
	case 2:
		msg += "1:ad" + []string{"", "2:idi1e", "2:idle", "2:idde"}[sym.Pick("id.type", 4)] + "1:ni" + string([]byte{byte('0' + num)}) + "ee"
		ok = false
	case 3:
		n := []int{0, 1, 19, 21, 40}[sym.Pick("id.len", 5)]
		long := []byte((okId + okId)[:n])
		for i := 3; i < 5 && i < n; i++ {
			long[i] = sym.U8("id" + strconv.Itoa(i))
		}
		msg += "1:ad2:id" + bstr(string(long)) + "1:ni" + string([]byte{byte('0' + num)}) + "ee"
		ok = false
	case 4:
		b := []byte(okId)
		b[3], b[4] = sym.U8("id3"), sym.U8("id4")
		id = string(b)
		if vary(1) {
			id = sym.Str("id", 20)
		}
		msg += "1:ad2:id20:" + id + "1:ni" + string([]byte{byte('0' + num)}) + "ee"
	}
	msg += "1:q" + bstr(method) + "1:t" + bstr(tx) + "1:y1:qe"
	if vary(2) && sym.Pick("trail", 2) == 1 {
		msg += sym.Str("trail", 1)
	}
	return
}

// VH_K03_query sends a valid or invalid query and looks at what reaches the
// handlers and what is answered. It decides K02 and K03 together.
//
//verif:opts weight=6
func VH_K03_query() { queryHarness() }

//verif:opts weight=6
func VH_K02_query() { queryHarness() }

func queryHarness() {
	t := newBed()
	var calls []seen
	reg := map[string]bool{}
	all := sym.Pick("all", 2) == 1
	for i, m := range methods {
		if all || i < 2 {
			reg[m] = true
			m := m
			t.srv.RegisteHandler(m, func(ctx *RpcContext) {
				calls = append(calls, seen{method: m, body: ctx.Request().Body(), addr: ctx.RemoteAddr(), tx: ctx.Request().TxId()})
				ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": "mnopqrstuvwxyz123456", "m": m}))
			})
		}
	}
	go t.srv.Listen()
	msg, tx, method, ok, num := query(reg)
	t.send(t.b, msg)
	r := t.got(t.b)
	sym.Assert(len(r) == 1, "a query gets exactly one reply")
	sym.Assert(len(t.got(t.a)) == 0, "nobody else gets a reply")
	d, y := checkReply(r[0], tx)
	if !ok {
		sym.Assert(len(calls) == 0, "an invalid query reaches no handler")
		sym.Assert(y == "e", "an invalid query is refused")
		sym.Assert(d["e"].(misc.List)[0].(int) == 203, "an invalid query is refused with error 203")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(calls) == 1, "a valid query reaches its handler once")
	c := calls[0]
	sym.Assert(c.method == method, "a valid query reaches the handler of its method")
	sym.Assert(c.tx == tx, "the handler gets the query's transaction id")
	sym.Assert(c.addr != nil && c.addr.Port == portOf(t.b) && c.addr.IP.IsLoopback(), "the handler gets the sender's address")
	sym.Assert(len(c.body) == 2 && c.body.GetInteger("n") == num, "the handler gets the query's arguments")
	sym.Assert(y == "r" && d["r"].(misc.Dict)["m"].(string) == method, "the reply is the handler's")
	sym.Reach("answered")
}

// VH_K02_handler looks at the reply when the handler answers in any way.
//
//verif:opts weight=2
func VH_K02_handler() {
	t := newBed()
	how := sym.Pick("how", 8)
	text := sym.Str("text", sym.Pick("text.len", 3))
	num := sym.Range("num", -20, 20)
	runs := 0
	handler := func(ctx *RpcContext) {
		runs++
		tx := ctx.Request().TxId()
		switch how {
		case 0:
			ctx.WriteAs(WithResponse(tx, misc.Dict{"id": okId, "x": text, "n": num}))
		case 1:
			ctx.WriteAs(WithErr(tx, num, text))
		case 2:
			ctx.WriteAs(WithParamErr(tx, text))
		case 3:
			misc.PanicBizErr(text, num)
		case 4:
			panic(text)
		case 5:
			ctx.WriteAs(WithResponse(tx, misc.Dict{"x": text, "bad": []int{1}}))
		case 6:
			misc.PanicSysErr(text)
		}
	}
	t.srv.RegisteHandler("ping", handler)
	go t.srv.Listen()
	tx := genTx()
	t.send(t.b, ping(tx))
	r := t.got(t.b)
	sym.Assert(len(r) == 1, "a query gets exactly one reply")
	sym.Assert(runs == 1, "a valid query reaches its handler once")
	d, y := checkReply(r[0], tx)
	if how == 0 {
		sym.Assert(y == "r", "the reply is the handler's")
		b := d["r"].(misc.Dict)
		sym.Assert(len(b) == 3 && b["x"].(string) == text && b["n"].(int) == num, "the reply is the handler's")
	} else {
		sym.Assert(y == "e", "a failing handler gives an error reply")
	}
	if how == 1 {
		l := d["e"].(misc.List)
		sym.Assert(l[0].(int) == num && l[1].(string) == text, "the reply is the handler's")
	}
	if how == 2 || how == 3 {
		sym.Assert(d["e"].(misc.List)[0].(int) == 203, "a protocol problem is error 203")
	}
}

// VH_K02_long asks with long transaction ids, methods and arguments, up to the
// largest datagram, and lets the handler answer at length.
//
//verif:opts weight=2
func VH_K02_long() {
	t := newBed()
	sizes := []int{30, 255, 460, 700, 900, 940, 960}
	big := []int{0, 600, 1000, 1400, 8000, 60000}[sym.Pick("reply", 6)]
	t.srv.RegisteHandler("ping", func(ctx *RpcContext) {
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": okId, "x": strings.Repeat("x", big)}))
	})
	go t.srv.Listen()
	for i := 0; i < sym.Bound(1, 2); i++ {
		fill := sym.Str("fill", 1) + strings.Repeat("a", sizes[sym.Pick("size", len(sizes))]-1)
		tx, q, want := "aa", "", "r"
		switch sym.Pick("where", 5) {
		case 0:
			tx = fill
			q = ping(tx)
		case 1:
			tx, want = fill, "e"
			q = "d1:q4:pong1:t" + bstr(tx) + "1:y1:qe"
		case 2:
			want = "e"
			q = "d1:q" + bstr(fill) + "1:t2:aa1:y1:qe"
		case 3:
			want = "e"
			q = "d1:ad2:id" + bstr(fill) + "e1:q4:ping1:t2:aa1:y1:qe"
		case 4:
			q = "d1:ad2:id20:" + okId + "1:x" + bstr(fill) + "e1:q4:ping1:t2:aa1:y1:qe"
		}
		if len(q) > 1024 {
			sym.Assume(false)
		}
		t.send(t.b, q)
		r := t.got(t.b)
		sym.Assert(len(r) == 1, "a query gets exactly one reply")
		d, y := checkReply(r[0], tx)
		sym.Assert(y == want, "the reply is the handler's or an error")
		if y == "r" {
			sym.Assert(len(d["r"].(misc.Dict)["x"].(string)) == big, "the reply is the handler's")
		}
	}
}

// VH_K02_two answers two queries of different nodes at the same time.
//
//verif:opts weight=3 race preempt=2 tpreempt=3
func VH_K02_two() {
	t := newBed()
	t.srv.RegisteHandler("ping", func(ctx *RpcContext) {
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": okId, "who": ctx.RemoteAddr().Port}))
	})
	t.srv.RegisteHandler("find_node", func(ctx *RpcContext) {
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": okId, "who": -ctx.RemoteAddr().Port}))
	})
	go t.srv.Listen()
	sym.Settle()
	other := "d1:ad2:id20:" + okId + "e1:q9:find_node1:t2:bb1:y1:qe"
	if sym.Pick("other", 3) == 1 {
		other = "d1:q1:xe"
	}
	sym.Explore(true)
	t.send(t.a, ping("aa"))
	t.send(t.b, other)
	sym.Settle()
	sym.Explore(false)
	ra, rb := t.got(t.a), t.got(t.b)
	sym.Assert(len(ra) == 1, "a query gets exactly one reply")
	d, y := checkReply(ra[0], "aa")
	sym.Assert(y == "r" && d["r"].(misc.Dict)["who"].(int) == portOf(t.a), "the reply is the handler's")
	if other[3] == 'a' {
		sym.Assert(len(rb) == 1, "a query gets exactly one reply")
		d, y = checkReply(rb[0], "bb")
		sym.Assert(y == "r" && d["r"].(misc.Dict)["who"].(int) == -portOf(t.b), "the reply is the handler's")
	}
}

// VH_K02_again sends the same query again and again.
//
//verif:opts weight=2
func VH_K02_again() {
	t := newBed()
	runs := 0
	t.srv.RegisteHandler("ping", func(ctx *RpcContext) { runs++; pong(ctx) })
	t.srv.RegisteHandler("find_node", func(ctx *RpcContext) { runs++; pong(ctx) })
	go t.srv.Listen()
	tx := sym.Str("tx", sym.Pick("tx.len", 3))
	var before []string
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		s := t.a
		if sym.Pick("from", 2) == 1 {
			s = t.b
		}
		q := []string{ping(tx), "d1:ad2:id20:" + okId + "e1:q9:find_node1:t" + bstr(tx) + "1:y1:qe", "d1:q4:ping1:t" + bstr(tx) + "1:y1:qe"}[sym.Pick("query", 3)]
		t.send(s, q)
		r := t.got(s)
		sym.Assert(len(r) == 1, "a query gets exactly one reply")
		_, y := checkReply(r[0], tx)
		if q[3] == 'a' {
			before = append(before, q)
			sym.Assert(y == "r", "the reply is the handler's")
		} else {
			sym.Assert(y == "e", "an invalid query is refused")
		}
		sym.Assert(runs == len(before), "a valid query reaches its handler once")
	}
}

// VH_K01_together feeds two datagrams of any kind at the same time.
//
//verif:opts weight=4 race preempt=1 tpreempt=2
func VH_K01_together() {
	t := newBed()
	t.srv.RegisteHandler("ping", pong)
	t.srv.RegisteHandler("find_node", func(ctx *RpcContext) { panic("handler") })
	ask := func(tx string) {
		t.srv.Query(t.b.LocalAddr().(*net.UDPAddr), NewBaseRequest(tx, "ping", misc.Dict{"id": okId}, func(ctx *RpcContext) { panic("handler") }))
	}
	ask("aa")
	ask("bb")
	t.got(t.b)
	go t.srv.Listen()
	sym.Settle()
	kinds := []string{
		"d1:ad2:id20:" + okId + "e1:q4:ping1:t2:aa1:y1:xe",
		"d1:t2:aae",
		"no bencode",
		"d1:rd2:id20:" + okId + "e1:t2:aa1:y1:re",
		"d1:rd2:id20:" + okId + "e1:t2:bb1:y1:re",
		"d1:eli201e1:xe1:t2:aa1:y1:ee",
		"d1:rle1:t2:zz1:y1:re",
		"d1:ad2:id20:" + okId + "e1:q9:find_node1:t2:aa1:y1:qe",
		"d1:ad2:id20:" + okId + "e1:q4:vote1:t2:aa1:y1:qe",
		"d1:q4:ping1:t2:aa1:y1:qe",
	}
	i := sym.Pick("first", len(kinds))
	j := i
	if sym.Pick("same", 2) == 0 {
		j = sym.Pick("second", len(kinds))
		sym.Assume(j > i)
	}
	sym.Explore(true)
	t.send(t.b, kinds[i])
	t.send(t.b, kinds[j])
	sym.Settle()
	sym.Explore(false)
	t.alive()
	sym.Assert(len(t.got(t.b)) <= 2, "at most one reply")
}

// VH_K04_junk sends what is no query.
//
//verif:opts weight=5
func VH_K04_junk() {
	t := newBed()
	ran := 0
	for _, m := range methods {
		t.srv.RegisteHandler(m, func(ctx *RpcContext) { ran++; pong(ctx) })
	}
	asked := 0
	t.srv.Query(t.b.LocalAddr().(*net.UDPAddr), NewBaseRequest("aa", "ping", misc.Dict{"id": okId}, func(ctx *RpcContext) { asked++ }))
	sym.Assert(len(t.got(t.b)) == 1, "a query is sent")
	go t.srv.Listen()
	tx := "aa"
	if sym.Pick("tx", 2) == 1 {
		tx = sym.Str("tx", 2)
	}
	var m string
	switch sym.Pick("kind", 7) {
	case 0: // response
		m = "d1:rd2:id20:" + okId + "e1:t" + bstr(tx) + "1:y1:re"
	case 1: // malformed response
		m = "d1:r" + []string{"i1e", "de", "d2:idi1ee", "le", "1:x"}[sym.Pick("r", 5)] + "1:t" + bstr(tx) + "1:y1:re"
	case 2: // error
		m = "d1:e" + []string{"li201e1:xe", "le", "i1e", "de"}[sym.Pick("e", 4)] + "1:t" + bstr(tx) + "1:y1:ee"
	case 3: // any other type, with the fields of a query
		y := sym.Str("y", sym.Pick("y.len", 3))
		sym.Assume(y != "q")
		m = "d1:ad2:id20:" + okId + "e1:q4:ping1:t2:aa1:y" + bstr(y) + "e"
	case 4: // type missing or of another type
		m = "d1:ad2:id20:" + okId + "e1:q4:ping1:t2:aa" + []string{"", "1:yi1e", "1:yl1:qe", "1:yd1:q1:qe"}[sym.Pick("y", 4)] + "e"
	case 5: // a query cut short
		p := ping("aa")
		m = p[:sym.Pick("cut", len(p))]
	case 6:
		m = sym.Str("raw", sym.Pick("raw.len", 5))
	}
	t.send(t.b, m)
	if len(tx) == 2 && sym.Pick("again", 2) == 1 {
		t.send(t.b, m)
	}
	sym.Assert(len(t.got(t.b)) == 0, "what is no query is never answered")
	sym.Assert(len(t.got(t.a)) == 0, "what is no query is never answered")
	sym.Assert(ran == 0, "what is no query reaches no query handler")
}
