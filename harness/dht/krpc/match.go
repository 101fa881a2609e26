package krpc

import (
	"net"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// asked is a request of the local node and what its handler saw.
type asked struct {
	req   Request
	calls int
	id    string
	n     int
	from  int
	same  bool
	isErr bool
	tx    string
}

func (t *matchbed) ask(to *net.UDPAddr, tx string, n int) *asked {
	a := &asked{tx: tx}
	a.req = NewBaseRequest(tx, "ping", misc.Dict{"id": selfId, "n": n}, func(ctx *RpcContext) {
		a.calls++
		a.same = ctx.Request() == a.req
		a.isErr = ctx.Response().Error()
		b := ctx.Response().Body()
		a.id, a.n = b.GetString("id"), b.GetInteger("n")
		if ctx.Response().TxId() != tx {
			a.same = false
		}
		if ctx.RemoteAddr() != nil {
			a.from = ctx.RemoteAddr().Port
		}
	})
	sym.Assert(t.srv.Query(to, a.req) == nil, "a query is sent")
	return a
}

type matchbed struct {
	srv  *RpcServer
	addr *net.UDPAddr
	s    [2]*net.UDPConn
}

func newMatch() *matchbed {
	port := sym.Port()
	t := &matchbed{addr: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}}
	config.DhtConfig().WorkPoolSize = 2
	t.srv = NewRpcServer("127.0.0.1:" + strconv.Itoa(port))
	t.s[0], t.s[1] = mSock(), mSock()
	return t
}

func mSock() *net.UDPConn {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	return c
}

// all returns what the two remote nodes have received, once everything is quiet.
func (t *matchbed) all() (r [2][]string) {
	sym.Settle()
	buf := make([]byte, 70000)
	for i := 0; i < 2; {
		t.s[i].SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		n, _, err := t.s[i].ReadFromUDP(buf)
		if err != nil {
			i++
			continue
		}
		r[i] = append(r[i], string(buf[:n]))
	}
	return r
}

func (t *matchbed) at(i int) *net.UDPAddr { return t.s[i].LocalAddr().(*net.UDPAddr) }

func (t *matchbed) put(i int, data string) {
	if _, err := t.s[i].WriteToUDP([]byte(data), t.addr); err != nil {
		panic(err)
	}
}

func answer(tx string, n int) string {
	return "d1:rd2:id20:" + peerId + "1:ni" + strconv.Itoa(n) + "ee1:t" + strconv.Itoa(len(tx)) + ":" + tx + "1:y1:re"
}

func failure(tx string) string {
	return "d1:eli201e4:oopse1:t" + strconv.Itoa(len(tx)) + ":" + tx + "1:y1:ee"
}

const (
	selfId = "abcdefghij0123456789"
	peerId = "mnopqrstuvwxyz123456"
)

// VH_K05_history answers two outstanding requests with any sequence of
// responses and errors, of the right and of wrong transaction ids.
//
//verif:opts weight=4
func VH_K05_history() {
	t := newMatch()
	go t.srv.Listen()
	ta, tb := sym.Str("ta", sym.Pick("ta.len", 3)), sym.Str("tb", 2)
	sym.Assume(ta != tb)
	q := [2]*asked{t.ask(t.at(0), ta, 1), t.ask(t.at(1), tb, 2)}
	var done [2]bool
	steps := sym.Bound(3, 4)
	for i := 0; i < steps; i++ {
		from := sym.Pick("from", 2)
		num := 10 + i
		tx, which := "", -1
		switch sym.Pick("tx", 3) {
		case 0:
			tx, which = ta, 0
		case 1:
			tx, which = tb, 1
		case 2:
			tx = sym.Str("other", 2)
			if tx == ta {
				which = 0
			} else if tx == tb {
				which = 1
			}
		}
		before := [2]int{q[0].calls, q[1].calls}
		if sym.Pick("error", 2) == 1 {
			t.put(from, failure(tx))
			sym.Settle()
			sym.Assert(q[0].calls == before[0] && q[1].calls == before[1], "an error runs no handler")
			continue
		}
		t.put(from, answer(tx, num))
		sym.Settle()
		for j := 0; j < 2; j++ {
			if j != which || done[j] {
				sym.Assert(q[j].calls == before[j], "a response runs nothing but the handler of its outstanding request")
				continue
			}
			sym.Assert(q[j].calls == before[j]+1, "a response runs the handler of its request once")
			sym.Assert(q[j].same, "the handler gets its own request")
			sym.Assert(!q[j].isErr && q[j].id == peerId && q[j].n == num, "the handler gets the body of the response")
			sym.Assert(q[j].from == t.at(from).Port, "the handler gets the sender of the response")
			done[j] = true
			sym.Reach("answered")
		}
	}
	sym.Assert(q[0].calls <= 1 && q[1].calls <= 1, "a handler runs at most once")
}

// VH_K05_error never runs the handler after an error, and a later response
// to the same transaction id runs it at most once.
//
//verif:opts
func VH_K05_error() {
	t := newMatch()
	go t.srv.Listen()
	q := t.ask(t.at(0), "aa", 1)
	e := "d"
	switch sym.Pick("e", 5) {
	case 0:
		e += "1:eli" + strconv.Itoa(200+sym.Pick("code", 6)) + "e1:xe"
	case 1:
		e += "1:ele"
	case 2:
		e += "1:ei1e"
	case 3:
		e += "1:ed2:id20:" + peerId + "e"
	}
	if sym.Pick("r", 2) == 1 {
		e += "1:rd2:id20:" + peerId + "1:ni1ee"
	}
	t.put(0, e+"1:t2:aa1:y1:ee")
	sym.Settle()
	sym.Assert(q.calls == 0, "an error runs no handler")
	for i := 0; i < 2; i++ {
		t.put(0, answer("aa", 5))
		sym.Settle()
	}
	sym.Assert(q.calls <= 1, "a handler runs at most once")
}

// VH_K05_malformed: a response whose body is missing or of another type.
//
//verif:opts
func VH_K05_malformed() {
	t := newMatch()
	go t.srv.Listen()
	q := t.ask(t.at(0), "aa", 1)
	r := []string{"", "1:ri1e", "1:r1:x", "1:rle", "1:rde", "1:rd2:idi1ee", "1:rd2:idlee", "1:rd1:ni5ee"}[sym.Pick("r", 8)]
	t.put(0, "d"+r+"1:t2:aa1:y1:re")
	t.put(0, answer("aa", 5))
	t.put(0, answer("aa", 6))
	sym.Settle()
	sym.Assert(q.calls <= 1, "a handler runs at most once")
}

// VH_K05_reuse: a transaction id may be used again once it was answered.
//
//verif:opts
func VH_K05_reuse() {
	t := newMatch()
	go t.srv.Listen()
	tx := sym.Str("tx", sym.Pick("len", 3))
	q := t.ask(t.at(0), tx, 1)
	t.put(0, answer(tx, 5))
	sym.Settle()
	sym.Assert(q.calls == 1 && q.n == 5, "a response runs the handler of its request once")
	p := t.ask(t.at(1), tx, 2)
	t.put(1, answer(tx, 6))
	t.put(1, answer(tx, 7))
	sym.Settle()
	sym.Assert(q.calls == 1, "a handler runs at most once")
	sym.Assert(p.calls == 1 && p.same && p.n == 6 && p.from == t.at(1).Port, "a response runs the handler of its request once")
}

// VH_K05_race delivers the same response twice to a pool of two workers.
//
//verif:opts weight=4 race preempt=2 tpreempt=3
func VH_K05_race() {
	t := newMatch()
	tx := "aa"
	var calls [2]int
	wrong := 0
	ask := func(i int, tx string) {
		var req Request
		req = NewBaseRequest(tx, "ping", misc.Dict{"id": selfId}, func(ctx *RpcContext) {
			sym.Atomic(func() { calls[i]++ })
			if ctx.Request() != req || ctx.Response().TxId() != tx {
				sym.Atomic(func() { wrong++ })
			}
		})
		t.srv.Query(t.at(i), req)
	}
	ask(0, tx)
	ask(1, "bb")
	go t.srv.Listen()
	sym.Settle()
	second := tx
	if sym.Pick("second", 2) == 1 {
		second = "bb"
	}
	sym.Explore(true)
	t.put(0, answer(tx, 1))
	t.put(1, answer(second, 2))
	sym.Settle()
	sym.Explore(false)
	sym.Assert(calls[0] == 1, "a response runs the handler of its request once")
	want := 0
	if second == "bb" {
		want = 1
	}
	sym.Assert(calls[1] == want, "a response runs nothing but the handler of its outstanding request")
	sym.Assert(wrong == 0, "the handler gets its own request")
}

// VH_K07_query looks at what a query puts on the wire.
//
//verif:opts weight=3
func VH_K07_query() {
	t := newMatch()
	tx := sym.Str("tx", sym.Pick("tx.len", sym.Bound(4, 6)))
	typ := "ping"
	if sym.Pick("type", 2) == 1 {
		typ = sym.Str("type", sym.Pick("type.len", sym.Bound(3, 5)))
	}
	n := sym.Range("n", -12, 120)
	text := sym.Str("text", sym.Pick("text.len", sym.Bound(3, 5)))
	body := misc.Dict{"id": selfId, "n": n, "x": text}
	shape := sym.Pick("shape", 4)
	switch shape {
	case 1:
		body = misc.Dict{}
	case 2:
		body = misc.Dict{"l": misc.List{n, text, misc.List{}}, "d": misc.Dict{"k": text}}
	case 3:
		body = misc.Dict{text: n, "": text}
		if text == "" {
			body = misc.Dict{"": n}
		}
	}
	ran := 0
	req := NewBaseRequest(tx, typ, body, func(ctx *RpcContext) { ran++ })
	to := sym.Pick("to", 2)
	err := t.srv.Query(t.at(to), req)
	sym.Assert(err == nil, "a query is sent")
	got := t.all()
	sym.Assert(len(got[1-to]) == 0, "a query goes to its address only")
	sym.Assert(len(got[to]) == 1, "a query is exactly one datagram")
	d, e := misc.DecodeDict(got[to][0])
	sym.Assert(e == nil, "a query is valid bencode")
	sym.Assert(len(d) == 4, "a query holds what was asked and nothing else")
	y, ok := d["y"].(string)
	sym.Assert(ok && y == "q", "a query has type q")
	q, ok := d["q"].(string)
	sym.Assert(ok && q == typ, "a query names its method")
	x, ok := d["t"].(string)
	sym.Assert(ok && x == tx, "a query carries its transaction id")
	a, ok := d["a"].(misc.Dict)
	sym.Assert(ok && sameDict(a, body), "a query carries its arguments")
	// and it can be answered
	go t.srv.Listen()
	t.put(to, answer(tx, 1))
	sym.Settle()
	sym.Assert(ran == 1, "a query that was sent can be answered")
}

func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case misc.List:
		y, ok := b.(misc.List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case misc.Dict:
		y, ok := b.(misc.Dict)
		return ok && sameDict(x, y)
	}
	return false
}

func sameDict(a, b misc.Dict) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		w, ok := a[k]
		if !ok || !sameVal(w, v) {
			return false
		}
	}
	return true
}

// VH_K07_early: the answer may be handled before Query has returned.
//
//verif:opts weight=2 race preempt=2 tpreempt=3
func VH_K07_early() {
	t := newMatch()
	go t.srv.Listen()
	sym.Settle()
	ran := 0
	req := NewBaseRequest("aa", "ping", misc.Dict{"id": selfId}, func(ctx *RpcContext) { sym.Atomic(func() { ran++ }) })
	sym.Explore(true)
	sym.Par(func() {
		t.srv.Query(t.at(0), req)
	}, func() {
		// a node that answers as soon as it is asked
		buf := make([]byte, 2000)
		n, _, err := t.s[0].ReadFromUDP(buf)
		if err != nil || n == 0 {
			panic("no query")
		}
		t.put(0, answer("aa", 1))
	})
	sym.Settle()
	sym.Explore(false)
	sym.Assert(ran == 1, "a query that was sent can be answered")
}

// VH_K07_fail: what cannot be sent is reported.
//
//verif:opts
func VH_K07_fail() {
	t := newMatch()
	to := t.at(0)
	body := misc.Dict{"id": selfId}
	text := sym.Str("text", sym.Pick("text.len", 3))
	switch sym.Pick("why", 6) {
	case 0:
		body["x"] = 1.5
	case 1:
		body["x"] = misc.List{text, nil}
	case 2:
		body["x"] = misc.Dict{text: []string{"a"}}
	case 3:
		to = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 0}
	case 4:
		t.srv.Close()
	case 5:
		body["x"] = string(make([]byte, 66000))
	}
	err := t.srv.Query(to, NewBaseRequest("aa", "ping", body, func(ctx *RpcContext) {}))
	sym.Assert(err != nil, "a query that cannot be sent gives an error")
	got := t.all()
	sym.Assert(len(got[0]) == 0 && len(got[1]) == 0, "a query that fails sends nothing")
}

// VH_K07_two sends two queries at the same time.
//
//verif:opts weight=2 race preempt=2 tpreempt=3
func VH_K07_two() {
	t := newMatch()
	var errs [2]error
	sym.Explore(true)
	sym.Par(func() {
		errs[0] = t.srv.Query(t.at(0), NewBaseRequest("aa", "ping", misc.Dict{"id": selfId}, func(ctx *RpcContext) {}))
	}, func() {
		errs[1] = t.srv.Query(t.at(1), NewBaseRequest("bb", "find_node", misc.Dict{"id": peerId}, func(ctx *RpcContext) {}))
	})
	sym.Explore(false)
	sym.Assert(errs[0] == nil && errs[1] == nil, "a query is sent")
	got := t.all()
	for i, want := range []string{"aapq", "bbfq"} {
		sym.Assert(len(got[i]) == 1, "a query is exactly one datagram")
		d, err := misc.DecodeDict(got[i][0])
		sym.Assert(err == nil && d.GetString("t")+d.GetString("q")[:1]+d.GetString("y") == want, "a query carries its transaction id")
	}
}

// VH_K07_long puts larger and more arguments on the wire.
//
//verif:opts weight=2 steps=40000000
func VH_K07_long() {
	t := newMatch()
	long := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		b[n-1] = sym.U8("x")
		return string(b)
	}
	tx, typ, body := "aa", "ping", misc.Dict{"id": selfId}
	switch sym.Pick("what", 4) {
	case 0:
		tx = long([]int{8, 20, 255, 300}[sym.Pick("n", 4)])
	case 1:
		typ = long([]int{12, 64, 1000}[sym.Pick("n", 3)])
	case 2:
		body["x"] = long([]int{255, 1400, 1500, 8000, 60000}[sym.Pick("n", 5)])
	case 3:
		n := []int{9, 17, 100, 700}[sym.Pick("n", 4)]
		l := misc.List{}
		for i := 0; i < n; i++ {
			body["k"+strconv.Itoa(i)] = "v" + strconv.Itoa(i)
			l = append(l, i)
		}
		body["l"] = append(l, long(3))
	}
	ran := 0
	to := sym.Pick("to", 2)
	err := t.srv.Query(t.at(to), NewBaseRequest(tx, typ, body, func(ctx *RpcContext) { ran++ }))
	sym.Assert(err == nil, "a query is sent")
	got := t.all()
	sym.Assert(len(got[1-to]) == 0, "a query goes to its address only")
	sym.Assert(len(got[to]) == 1, "a query is exactly one datagram")
	d, e := misc.DecodeDict(got[to][0])
	sym.Assert(e == nil, "a query is valid bencode")
	sym.Assert(len(d) == 4, "a query holds what was asked and nothing else")
	sym.Assert(d["y"] == "q" && d["q"] == typ && d["t"] == tx, "a query names its method and carries its transaction id")
	a, ok := d["a"].(misc.Dict)
	sym.Assert(ok && sameDict(a, body), "a query carries its arguments")
	go t.srv.Listen()
	t.put(to, answer(tx, 1))
	sym.Settle()
	sym.Assert(ran == 1, "a query that was sent can be answered")
}

// VH_K05_many answers many outstanding requests in several orders.
//
//verif:opts weight=2 steps=40000000
func VH_K05_many() {
	t := newMatch()
	n := []int{20, 70, 300}[sym.Pick("n", 3)]
	var as []*asked
	for i := 0; i < n; i++ {
		as = append(as, t.ask(t.at(i%2), "q"+strconv.Itoa(i), i))
	}
	t.all()
	go t.srv.Listen()
	order := sym.Pick("order", 3)
	skip := sym.Pick("skip", 2) * 3
	for j := 0; j < n; j++ {
		i := j
		switch order {
		case 1:
			i = n - 1 - j
		case 2:
			i = (j*37 + 5) % n
			if n%37 == 0 {
				panic("order")
			}
		}
		if skip > 0 && i%skip == 0 {
			continue
		}
		t.put(i%2, answer(as[i].tx, 1000+i))
		if j%10 == 9 {
			sym.Settle()
		}
	}
	sym.Settle()
	for i, a := range as {
		if skip > 0 && i%skip == 0 {
			sym.Assert(a.calls == 0, "a request without an answer is not handled")
			continue
		}
		sym.Assert(a.calls == 1, "the handler of a request runs once for its response")
		sym.Assert(a.same && a.n == 1000+i && !a.isErr, "the handler sees its request and its response")
	}
	// the others can still be answered
	if skip > 0 {
		i := skip * (n / skip / 2)
		t.put(i%2, answer(as[i].tx, 5))
		sym.Settle()
		sym.Assert(as[i].calls == 1 && as[i].same && as[i].n == 5, "the handler of a request runs once for its response")
	}
}
