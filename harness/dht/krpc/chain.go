package krpc

import (
	"net"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// event is the start or the end of a handler of a chain.
type event struct {
	h   int
	end bool
}

// expect computes the events of a chain in which middleware i calls Next
// next[i] times: every handler runs once, in order, and a handler that calls
// Next goes on when the rest of the chain has finished.
func expect(next []int) (r []event) {
	at := 0
	var run func()
	rest := func() {
		for at < len(next)+1 {
			run()
		}
	}
	run = func() {
		i := at
		at++
		r = append(r, event{i, false})
		if i < len(next) {
			for k := 0; k < next[i]; k++ {
				rest()
			}
		}
		r = append(r, event{i, true})
	}
	rest()
	return r
}

func sameEvents(a, b []event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func calls(max int) []int {
	next := make([]int, sym.Pick("middlewares", max+1))
	for i := range next {
		next[i] = sym.Pick("next", 3)
	}
	return next
}

// VH_K06_context runs a chain directly.
//
//verif:opts
func VH_K06_context() {
	next := calls(sym.Bound(5, 6))
	var got []event
	var chain []RpcHandlerFunc
	for i := 0; i <= len(next); i++ {
		i := i
		chain = append(chain, func(ctx *RpcContext) {
			got = append(got, event{i, false})
			if i < len(next) {
				for k := 0; k < next[i]; k++ {
					ctx.Next()
				}
			}
			got = append(got, event{i, true})
		})
	}
	req := NewBaseRequest("aa", "ping", misc.Dict{"id": "x"}, nil)
	resp := WithResponse("aa", misc.Dict{})
	addr := &net.UDPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}
	ctx := NewReqContext(chain, req, resp, addr)
	sym.Assert(ctx.Request() == req && ctx.Response() == resp && ctx.RemoteAddr() == addr, "a context gives what it was made of")
	ctx.Next()
	sym.Assert(sameEvents(got, expect(next)), "every handler of a chain runs once, in order")
	ctx.Next()
	sym.Assert(sameEvents(got, expect(next)), "a finished chain runs nothing more")
}

type chainbed struct {
	srv  *RpcServer
	addr *net.UDPAddr
	c    *net.UDPConn
}

func newChain() *chainbed {
	port := sym.Port()
	t := &chainbed{addr: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}}
	config.DhtConfig().WorkPoolSize = 2
	t.srv = NewRpcServer("127.0.0.1:" + strconv.Itoa(port))
	var err error
	t.c, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	return t
}

func (t *chainbed) put(data string) {
	if _, err := t.c.WriteToUDP([]byte(data), t.addr); err != nil {
		panic(err)
	}
}

func (t *chainbed) all() (r []string) {
	sym.Settle()
	buf := make([]byte, 4096)
	for {
		t.c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		n, _, err := t.c.ReadFromUDP(buf)
		if err != nil {
			return r
		}
		r = append(r, string(buf[:n]))
	}
}

func (t *chainbed) ask(tx string, h RpcHandlerFunc) {
	to := t.c.LocalAddr().(*net.UDPAddr)
	req := NewBaseRequest(tx, "ping", misc.Dict{"id": chainId}, h)
	if t.srv.Query(to, req) != nil {
		panic("query")
	}
}

const chainId = "abcdefghij0123456789"

func chainQuery(tx string) string {
	return "d1:ad2:id20:" + chainId + "e1:q4:ping1:t" + strconv.Itoa(len(tx)) + ":" + tx + "1:y1:qe"
}

func chainAnswer(tx string) string {
	return "d1:rd2:id20:" + chainId + "e1:t" + strconv.Itoa(len(tx)) + ":" + tx + "1:y1:re"
}

// VH_K06_server runs the chains of both directions, added in any grouping.
//
//verif:opts weight=3
func VH_K06_server() {
	t := newChain()
	var got []event
	var txs []string
	mk := func(base, i, n int) RpcHandlerFunc {
		return func(ctx *RpcContext) {
			got = append(got, event{base + i, false})
			txs = append(txs, ctx.Request().TxId())
			for k := 0; k < n; k++ {
				ctx.Next()
			}
			got = append(got, event{base + i, true})
		}
	}
	q := calls(sym.Bound(3, 4))
	r := calls(sym.Bound(2, 3))
	final := func(base, n int) RpcHandlerFunc {
		return func(ctx *RpcContext) {
			got = append(got, event{base + n, false})
			if base == 0 {
				ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": chainId}))
			}
			got = append(got, event{base + n, true})
		}
	}
	add := func(base int, next []int, use func(...RpcHandlerFunc)) {
		var hs []RpcHandlerFunc
		for i, n := range next {
			hs = append(hs, mk(base, i, n))
		}
		cut := 0
		if len(hs) > 0 {
			cut = sym.Pick("cut", len(hs))
		}
		use(hs[:cut]...)
		use(hs[cut:]...)
	}
	if sym.Pick("order", 2) == 0 {
		add(0, q, t.srv.UseReqHandlerMiddleware)
		add(100, r, t.srv.UseRespHandlerMiddleware)
	} else {
		add(100, r, t.srv.UseRespHandlerMiddleware)
		add(0, q, t.srv.UseReqHandlerMiddleware)
	}
	t.srv.RegisteHandler("ping", final(0, len(q)))
	t.ask("rr", final(100, len(r)))
	t.all()
	go t.srv.Listen()
	shift := func(next []int, base int) (w []event) {
		for _, e := range expect(next) {
			w = append(w, event{e.h + base, e.end})
		}
		return
	}
	for round := 0; round < 2; round++ {
		got, txs = nil, nil
		t.put(chainQuery("qq"))
		ans := t.all()
		sym.Assert(sameEvents(got, shift(q, 0)), "every handler of a chain runs once, in order")
		for _, x := range txs {
			sym.Assert(x == "qq", "a chain runs for its own message")
		}
		sym.Assert(len(ans) == 1, "a query gets exactly one reply")
		if round == 1 {
			break
		}
		got, txs = nil, nil
		t.put(chainAnswer("rr"))
		sym.Settle()
		sym.Assert(sameEvents(got, shift(r, 100)), "every handler of a chain runs once, in order")
		for _, x := range txs {
			sym.Assert(x == "rr", "a chain runs for its own message")
		}
	}
}

// VH_K06_long adds more middlewares than the chains have room for at first.
//
//verif:opts
func VH_K06_long() {
	t := newChain()
	var got []int
	n := []int{14, 15, 16, 17, 18, 33, 129}[sym.Pick("n", 7)]
	m := []int{0, 15, 16, 17, 18, 260}[sym.Pick("m", 6)]
	sym.Assume((n > 100) == (m > 100))
	step := 1 + sym.Pick("step", 3)
	add := func(base, n int, use func(...RpcHandlerFunc)) {
		for i := 0; i < n; {
			var hs []RpcHandlerFunc
			for k := 0; k < step && i+k < n; k++ {
				i := base + i + k
				hs = append(hs, func(ctx *RpcContext) { got = append(got, i) })
			}
			i += len(hs)
			use(hs...)
		}
	}
	add(0, n, t.srv.UseReqHandlerMiddleware)
	add(1000, m, t.srv.UseRespHandlerMiddleware)
	t.srv.RegisteHandler("ping", func(ctx *RpcContext) { got = append(got, n) })
	t.srv.RegisteHandler("find_node", func(ctx *RpcContext) { got = append(got, -1) })
	t.ask("r1", func(ctx *RpcContext) { got = append(got, 1000+m) })
	t.ask("r2", func(ctx *RpcContext) { got = append(got, -2) })
	t.all()
	go t.srv.Listen()
	check := func(msg string, base, n, last int) {
		got = nil
		t.put(msg)
		t.all()
		sym.Assert(len(got) == n+1, "every handler of a chain runs once, in order")
		for i := 0; i < n; i++ {
			sym.Assert(got[i] == base+i, "every handler of a chain runs once, in order")
		}
		sym.Assert(got[n] == last, "the chain ends with the handler of the message")
	}
	check(chainQuery("q1"), 0, n, n)
	check(chainAnswer("r1"), 1000, m, 1000+m)
	check("d1:ad2:id20:"+chainId+"e1:q9:find_node1:t2:q21:y1:qe", 0, n, -1)
	check(chainAnswer("r2"), 1000, m, -2)
	check(chainQuery("q3"), 0, n, n)
}

// VH_K06_race handles two messages at the same time.
//
//verif:opts weight=3 race preempt=2 tpreempt=3
func VH_K06_race() {
	t := newChain()
	n := 1 + sym.Pick("n", 2)*15
	mark := func(v string) RpcHandlerFunc {
		return func(ctx *RpcContext) {
			b := ctx.Request().Body()
			b["log"] = b.GetStringOrDefault("log", "") + v
			ctx.Next()
			b["log"] = b.GetStringOrDefault("log", "") + v
		}
	}
	for i := 0; i < n; i++ {
		t.srv.UseReqHandlerMiddleware(mark("m"))
		t.srv.UseRespHandlerMiddleware(mark("s"))
	}
	logs := map[string]string{}
	fin := func(v string) RpcHandlerFunc {
		return func(ctx *RpcContext) {
			b := ctx.Request().Body()
			b["log"] = b.GetStringOrDefault("log", "") + v
			sym.Atomic(func() { logs[ctx.Request().TxId()] = b.GetString("log") })
			ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"id": chainId}))
		}
	}
	t.srv.RegisteHandler("ping", fin("p"))
	t.srv.RegisteHandler("find_node", fin("f"))
	t.ask("rr", fin("r"))
	t.all()
	go t.srv.Listen()
	sym.Settle()
	second := "d1:ad2:id20:" + chainId + "e1:q9:find_node1:t2:bb1:y1:qe"
	if sym.Pick("second", 2) == 1 {
		second = chainAnswer("rr")
	}
	sym.Explore(true)
	t.put(chainQuery("aa"))
	t.put(second)
	sym.Settle()
	sym.Explore(false)
	rep := func(s string) (r string) {
		for i := 0; i < n; i++ {
			r += s
		}
		return
	}
	sym.Assert(logs["aa"] == rep("m")+"p", "a chain runs for its own message")
	if second[3] == 'a' {
		sym.Assert(logs["bb"] == rep("m")+"f", "a chain runs for its own message")
	} else {
		sym.Assert(logs["rr"] == rep("s")+"r", "a chain runs for its own message")
	}
	sym.Assert(len(logs) == 2, "every handler of a chain runs once, in order")
}
