package peerwire

import (
	"bytes"
	"encoding/binary"
	"strconv"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// wireFrame checks the length prefix of a message and gives what follows.
func wireFrame(m []byte) []byte {
	sym.Assert(len(m) > 4 && int(binary.BigEndian.Uint32(m)) == len(m)-4, "a message has its own length as prefix")
	return m[4:]
}

// VH_P04_handshake builds and parses handshakes of any ids.
func VH_P04_handshake() {
	peer, hash := sym.Bytes("peer", 20), sym.Bytes("hash", 20)
	want := "\x13BitTorrent protocol"
	m := withHandShakeMsg(peer, hash)
	sym.Assert(len(m) == 68 && string(m[:20]) == want, "a handshake names the protocol")
	sym.Assert(m[25]&0x10 != 0, "a handshake offers the extension protocol")
	for i := 20; i < 28; i++ {
		bits := byte(0)
		if i == 25 {
			bits = 0x10
		}
		if i == 27 {
			// the bits of other extensions: DHT and fast
			sym.Assert(m[i]&^0x05 == 0, "a handshake offers nothing unknown")
			continue
		}
		sym.Assert(m[i] == bits, "a handshake offers nothing unknown")
	}
	sym.Assert(bytes.Equal(m[28:48], hash) && bytes.Equal(m[48:], peer), "a handshake carries info-hash and id")
	p := parseHandShakeMsg(m)
	sym.Assert(p.Protocol() == "BitTorrent protocol" && p.SupportExtended(), "a handshake parses to what was built")
	sym.Assert(bytes.Equal(p.InfoHash(), hash) && bytes.Equal(p.PeerId(), peer), "a handshake parses to what was built")
}

// VH_P04_foreign parses handshakes of other peers.
func VH_P04_foreign() {
	r := sym.Bytes("reserved", 8)
	peer, hash := sym.Bytes("peer", 20), sym.Bytes("hash", 20)
	name := sym.Bytes("name", 19)
	b := NewBaseHandShakeMsg(string(name), r, hash, peer)
	sym.Assert(b.SupportExtended() == (r[5]&0x10 != 0), "the extension bit tells")
	m := b.Bytes()
	sym.Assert(len(m) == 68 && m[0] == 19 && string(m[1:20]) == string(name) && bytes.Equal(m[20:28], r) && bytes.Equal(m[28:48], hash) && bytes.Equal(m[48:], peer), "a handshake has its layout")
	p := parseHandShakeMsg(m)
	sym.Assert(p.SupportExtended() == (r[5]&0x10 != 0), "the extension bit tells")
	sym.Assert(p.Protocol() == string(name) && bytes.Equal(p.InfoHash(), hash) && bytes.Equal(p.PeerId(), peer), "a handshake parses to what was built")
}

// VH_P04_sizes builds handshakes of ids of wrong sizes, and parses data that
// is no handshake.
func VH_P04_sizes() {
	sizes := []int{0, 1, 19, 20, 21, 40}
	a, b := sizes[sym.Pick("peer", 6)], sizes[sym.Pick("hash", 6)]
	e := sym.Caught(func() { withHandShakeMsg(make([]byte, a), make([]byte, b)) })
	sym.Assert((e == nil) == (a == 20 && b == 20), "a handshake with a wrong-size id or hash is refused")
	n := []int{0, 1, 19, 67, 68, 69}[sym.Pick("n", 6)]
	d := make([]byte, n)
	if n > 20 {
		d[0] = 19
	}
	e = sym.Caught(func() { parseHandShakeMsg(d) })
	sym.Assert((e == nil) == (n == 68), "a handshake has 68 bytes")
}

// wireDict tells whether s is one of the orders of the entries of a dictionary
// followed by rest. The order of keys is the matter of B05.
func wireDict(s string, rest string, forms ...[]string) bool {
	var eq []bool
	var perm func(done string, left []string)
	perm = func(done string, left []string) {
		if len(left) == 0 {
			eq = append(eq, s == done+"e"+rest)
			return
		}
		for i := range left {
			var l []string
			l = append(l, left[:i]...)
			l = append(l, left[i+1:]...)
			perm(done+left[i], l)
		}
	}
	for _, f := range forms {
		perm("d", f)
	}
	return sym.Or(eq...)
}

func wireNum(name string) int {
	switch sym.Pick(name+"kind", 3) {
	case 0:
		n := sym.Int(name)
		sym.Assume(n >= -9 && n <= 99)
		return n
	case 1:
		n := sym.Int(name)
		sym.Assume(n >= 16380 && n <= 70000)
		return n
	}
	return []int{1<<31 - 1, 1 << 31, 1<<63 - 1, -1 << 63, 1000}[sym.Pick(name+"edge", 5)]
}

// VH_P04_piece builds and parses metadata messages.
//
//verif:opts weight=3
func VH_P04_piece() {
	id := sym.U8("id")
	typ := sym.Pick("type", 4)
	piece := wireNum("piece")
	total := 0
	n := sym.Pick("n", sym.Bound(4, 8))
	data := sym.Bytes("data", n)
	if n > 0 {
		total = wireNum("total")
	}
	var m []byte
	if n > 0 || sym.Pick("arg", 2) == 1 {
		m = withExtendedFetchMetaMsg(int(id), ExFecthMetaType(typ), piece, total, data)
	} else {
		m = withExtendedFetchMetaMsg(int(id), ExFecthMetaType(typ), piece, total)
	}
	want := []string{"8:msg_typei" + strconv.Itoa(typ) + "e", "5:piecei" + strconv.Itoa(piece) + "e"}
	if n > 0 {
		want = append(want, "10:total_sizei"+strconv.Itoa(total)+"e")
	}
	body := wireFrame(m)
	sym.Assert(len(body) > 2 && body[0] == 20 && body[1] == id, "a metadata message has the layout of BEP 9")
	sym.Assert(wireDict(string(body[2:]), string(data), want), "a metadata message has the layout of BEP 9")
	p := parseExtendedFetchMetaMsg(body)
	sym.Assert(p.ExMessageId() == int(id) && int(p.MsgType()) == typ && p.PieceNum() == piece, "a metadata message parses to what was built")
	sym.Assert(p.TotalSize() == total && bytes.Equal(p.Data(), data), "a metadata message parses to what was built")
}

// VH_P04_large builds a message of a whole piece.
func VH_P04_large() {
	n := []int{16384, 16383, 1000}[sym.Pick("n", 3)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i)
	}
	data[0], data[n-1] = sym.U8("first"), sym.U8("last")
	m := withExtendedFetchMetaMsg(3, ExData, 2, 40000, data)
	body := wireFrame(m)
	p := parseExtendedFetchMetaMsg(body)
	sym.Assert(p.PieceNum() == 2 && p.TotalSize() == 40000 && bytes.Equal(p.Data(), data), "a metadata message parses to what was built")
}

// VH_P04_foreignpiece parses metadata messages other peers built.
//
//verif:opts weight=2
func VH_P04_foreignpiece() {
	id := sym.U8("id")
	piece := wireNum("piece")
	n := 1 + sym.Pick("n", 4)
	data := sym.Bytes("data", n)
	body := "\x14" + string([]byte{id}) + []string{
		"d8:msg_typei1e5:piecei" + strconv.Itoa(piece) + "e10:total_sizei30000ee",
		"d5:piecei" + strconv.Itoa(piece) + "e8:msg_typei1e10:total_sizei30000ee",
		"d8:msg_typei1e5:piecei" + strconv.Itoa(piece) + "e10:total_sizei30000e1:xl1:aee",
	}[sym.Pick("form", 3)] + string(data)
	p := parseExtendedFetchMetaMsg([]byte(body))
	sym.Assert(p.ExMessageId() == int(id) && p.MsgType() == ExData && p.PieceNum() == piece && p.TotalSize() == 30000 && bytes.Equal(p.Data(), data), "a metadata message of another peer is understood")
}

// VH_P04_exthandshake builds and parses extended handshakes.
//
//verif:opts weight=3
func VH_P04_exthandshake() {
	meta := misc.Dict{}
	want, swap := "", ""
	ut, pex := 0, 0
	both := sym.Pick("m", 3)
	if both > 0 {
		ut = wireNum("ut")
		meta["ut_metadata"] = ut
		want += "11:ut_metadatai" + strconv.Itoa(ut) + "e"
		swap = want
	}
	if both > 1 {
		pex = 1 + sym.Pick("pex", 3)
		meta["ut_pex"] = pex
		swap = "6:ut_pexi" + strconv.Itoa(pex) + "e" + want
		want += "6:ut_pexi" + strconv.Itoa(pex) + "e"
	}
	rest := []string{}
	var dict misc.Dict
	size, v := 0, ""
	kind := sym.Pick("dict", 3)
	if kind > 0 {
		size = wireNum("size")
		dict = misc.Dict{"metadata_size": size}
		rest = append(rest, "13:metadata_sizei"+strconv.Itoa(size)+"e")
	}
	if kind > 1 {
		v = sym.Str("v", sym.Pick("vlen", 4))
		dict["v"] = v
		rest = append(rest, "1:v"+strconv.Itoa(len(v))+":"+v)
	}
	body := wireFrame(withExtendedhandShake(meta, dict))
	sym.Assert(len(body) > 2 && body[0] == 20 && body[1] == 0, "an extended handshake has the layout of BEP 10")
	sym.Assert(wireDict(string(body[2:]), "", append([]string{"1:md" + want + "e"}, rest...), append([]string{"1:md" + swap + "e"}, rest...)), "an extended handshake has the layout of BEP 10")
	p := parseExtendedHandShake(body)
	m, d := p.Metadata(), p.Dict()
	sym.Assert(len(m) == both, "an extended handshake parses to what was built")
	if both > 0 {
		sym.Assert(m.GetInteger("ut_metadata") == ut, "an extended handshake parses to what was built")
	}
	if both > 1 {
		sym.Assert(m.GetInteger("ut_pex") == pex, "an extended handshake parses to what was built")
	}
	if kind > 0 {
		sym.Assert(d.GetInteger("metadata_size") == size, "an extended handshake parses to what was built")
	}
	if kind > 1 {
		sym.Assert(d.GetString("v") == v, "an extended handshake parses to what was built")
	}
}
