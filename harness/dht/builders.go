package dht

import (
	"net"
	"strconv"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// blRead encodes a message and reads the bytes with a reader of its own.
func blRead(raw misc.Dict) map[string]interface{} {
	s, err := misc.EncodeDict(raw)
	sym.Assert(err == nil, "a message can be encoded")
	v, rest, ok := ndParse(s)
	d, isDict := v.(map[string]interface{})
	sym.Assert(ok && isDict && rest == "", "a message is valid bencode")
	return d
}

func blFields(d map[string]interface{}, n int, tx, y string) {
	sym.Assert(len(d) == n, "a message has its fields and no others")
	t, ok := d["t"].(string)
	sym.Assert(ok && t == tx, "a message has the transaction id given")
	k, ok := d["y"].(string)
	sym.Assert(ok && k == y, "a message is of its kind")
}

func blText(d map[string]interface{}, key, want string) {
	s, ok := d[key].(string)
	sym.Assert(ok && s == want, "a field has the value given")
}

// VH_D01_queries builds queries of every method.
//
//verif:opts weight=2
func VH_D01_queries() {
	tx := sym.Str("tx", sym.Pick("tx.len", sym.Bound(3, 5)))
	id, other := sym.Str("id", 20), sym.Str("other", 20)
	called := 0
	h := func(*krpc.RpcContext) { called++ }
	var r krpc.Request
	method := ""
	token, port := "", 0
	switch sym.Pick("method", 4) {
	case 0:
		method, r = "ping", WithPingMsg(tx, id, h)
	case 1:
		method, r = "find_node", WithFindNodeMsg(tx, id, other, h)
	case 2:
		method, r = "get_peers", WithGetPeersMsg(tx, id, other, h)
	case 3:
		token = sym.Str("token", sym.Pick("token.len", 4))
		port = []int{1, 9, 80, 6881, 65535, 256}[sym.Pick("port", 6)]
		if sym.Pick("any", 2) == 1 {
			port = sym.Range("port", 1000, 9999)
		}
		method, r = "announce_peer", WithAnnouncePeerMsg(tx, id, other, token, port, h)
	}
	sym.Assert(r.TxId() == tx && r.Type() == method, "a query says its transaction id and method")
	r.Handler()(nil)
	sym.Assert(called == 1, "a query has the handler given")
	for i := 0; i < 2; i++ {
		d := blRead(r.RawData())
		blFields(d, 4, tx, "q")
		blText(d, "q", method)
		a, ok := d["a"].(map[string]interface{})
		sym.Assert(ok, "a query has arguments")
		n := 1
		blText(a, "id", id)
		switch method {
		case "find_node":
			n = 2
			blText(a, "target", other)
		case "get_peers":
			n = 2
			blText(a, "info_hash", other)
		case "announce_peer":
			n = 5
			blText(a, "info_hash", other)
			blText(a, "token", token)
			p, ok := a["port"].(int)
			sym.Assert(ok && p == port, "a field has the value given")
			p, ok = a["implied_port"].(int)
			sym.Assert(ok && p == 0, "the announced port is meant")
		}
		sym.Assert(len(a) == n, "a query has its arguments and no others")
	}
}

// VH_D01_responses builds responses of every kind.
//
//verif:opts weight=2
func VH_D01_responses() {
	tx := sym.Str("tx", sym.Pick("tx.len", 3))
	id := sym.Str("id", 20)
	token := sym.Str("token", sym.Pick("token.len", 3))
	n := []int{0, 1, 2, 3, 20, 60}[sym.Pick("n", sym.Bound(5, 6))]
	var nodes []*NodeInfo
	var addrs []*net.UDPAddr
	compact := ""
	var peers []string
	for i := 0; i < n; i++ {
		nid, ip, port := sym.Str("node", 20), sym.Bytes("ip", 4), sym.Range("port", 0, 65535)
		a := &net.UDPAddr{IP: net.IP(ip), Port: port}
		if i%2 == 1 {
			a.IP = net.IPv4(ip[0], ip[1], ip[2], ip[3])
		}
		nodes, addrs = append(nodes, NewNodeInfo(nid, a)), append(addrs, a)
		p := string(ip) + string([]byte{byte(port >> 8), byte(port)})
		compact += nid + p
		peers = append(peers, p)
	}
	var r krpc.Response
	kind := sym.Pick("kind", 5)
	want := 1
	switch kind {
	case 0:
		r = WithPingResponse(tx, id)
	case 1:
		r = WithAnnouncePeerResponse(tx, id)
	case 2:
		want, r = 2, WithFindNodeResponse(tx, id, nodes)
	case 3:
		want, r = 3, WithGetPeersNodesResponse(tx, id, token, nodes)
	case 4:
		want, r = 3, WithGetPeersValsResponse(tx, id, token, addrs)
	}
	sym.Assert(r.TxId() == tx && !r.Error() && r.NodeId() == id, "a response says its transaction id and node id")
	d := blRead(r.RawData())
	blFields(d, 3, tx, "r")
	b, ok := d["r"].(map[string]interface{})
	sym.Assert(ok && len(b) == want, "a response has its fields and no others")
	blText(b, "id", id)
	if kind > 2 {
		blText(b, "token", token)
	}
	if kind == 2 || kind == 3 {
		blText(b, "nodes", compact)
	}
	if kind == 4 {
		l, ok := b["values"].([]interface{})
		sym.Assert(ok && len(l) == n, "a response has every peer")
		for i := range l {
			p, ok := l[i].(string)
			sym.Assert(ok && p == peers[i], "a field has the value given")
		}
	}
}

// VH_D01_errors builds error messages.
//
//verif:opts
func VH_D01_errors() {
	tx := sym.Str("tx", sym.Pick("tx.len", 3))
	text := sym.Str("text", sym.Pick("text.len", sym.Bound(4, 9)))
	code := 203
	var r krpc.Response
	if sym.Pick("kind", 2) == 0 {
		r = krpc.WithParamErr(tx, text)
	} else {
		code = sym.Range("code", 201, 204)
		r = krpc.WithErr(tx, code, text)
	}
	sym.Assert(r.TxId() == tx && r.Error(), "an error says so")
	d := blRead(r.RawData())
	blFields(d, 3, tx, "e")
	l, ok := d["e"].([]interface{})
	sym.Assert(ok && len(l) == 2, "an error is a list of code and text")
	c, ok := l[0].(int)
	sym.Assert(ok && c == code, "an error has the code given")
	s, ok := l[1].(string)
	sym.Assert(ok && (s == text || text == "" && code == 203), "an error has the text given")
	sym.Observe("code", strconv.Itoa(c))
}
