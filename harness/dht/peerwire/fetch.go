package peerwire

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"io"
	"net"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

const pwProtocol = "\x13BitTorrent protocol"
const pwPeer = "-XX0001-abcdefghijkl"

// pwResult is what a fetch gave.
type pwResult struct {
	data []byte
	err  error
}

// pwStart starts a fetch of hash and accepts its connection.
func pwStart(hash []byte) (net.Conn, chan pwResult) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	done := make(chan pwResult, 1)
	go func() {
		b, err := FetchMetaData(l.Addr().String(), []byte("-GA0001-mnopqrstuvwx"), hash)
		done <- pwResult{b, err}
	}()
	c, err := l.Accept()
	if err != nil {
		panic(err)
	}
	l.Close()
	return c, done
}

func pwSum(b []byte) []byte {
	s := sha1.Sum(b)
	return s[:]
}

// pwEnd takes the result of a fetch and checks what always holds of it.
func pwEnd(c net.Conn, done chan pwResult, hash []byte) pwResult {
	r := <-done
	if r.err == nil {
		sym.Assert(bytes.Equal(pwSum(r.data), hash), "fetched metadata matches the info-hash")
		sym.Reach("success")
	} else {
		sym.Assert(len(r.data) == 0, "a failed fetch gives no data")
		sym.Reach("failure")
	}
	buf := make([]byte, 4096)
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	for {
		_, err := c.Read(buf)
		if err == nil {
			continue
		}
		e, ok := err.(net.Error)
		sym.Assert(!(ok && e.Timeout()), "the connection is closed when a fetch ends")
		break
	}
	c.Close()
	return r
}

func pwFrame(body string) string {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(len(body)))
	return string(b) + body
}

func pwHandshake(hash []byte) string {
	return pwProtocol + "\x00\x00\x00\x00\x00\x10\x00\x05" + string(hash) + pwPeer
}

// pwExt is the extended handshake of a peer.
func pwExt(id int, size string) string {
	return pwFrame("\x14\x00d1:md11:ut_metadatai" + strconv.Itoa(id) + "ee13:metadata_sizei" + size + "e4:reqqi255ee")
}

// pwData is a data message.
func pwData(id int, piece string, total int, data []byte) string {
	return pwFrame("\x14" + string([]byte{byte(id)}) + "d8:msg_typei1e5:piecei" + piece + "e10:total_sizei" + strconv.Itoa(total) + "ee" + string(data))
}

func pwWrite(c net.Conn, s string) {
	if len(s) > 0 {
		c.Write([]byte(s))
	}
}

// pwCut sends a stream in segments.
func pwCut(c net.Conn, s string, cuts ...int) {
	at := 0
	for _, x := range cuts {
		if x <= at || x >= len(s) {
			continue
		}
		pwWrite(c, s[at:x])
		sym.Settle()
		at = x
	}
	pwWrite(c, s[at:])
}

// pwRead reads exactly n bytes a fetch has sent.
func pwRead(c net.Conn, n int) []byte {
	b := make([]byte, n)
	_, err := io.ReadFull(c, b)
	sym.Assert(err == nil, "a fetch of an honest peer goes on")
	return b
}

func pwFrameFrom(c net.Conn) []byte {
	n := binary.BigEndian.Uint32(pwRead(c, 4))
	sym.Assert(n >= 2 && n < 1000, "a message has its own length as prefix")
	b := pwRead(c, int(n))
	sym.Assert(b[0] == 20, "a message is an extended one")
	return b
}

// pwInt gives the number after a key of a flat dictionary.
func pwInt(b []byte, key string) int {
	k := []byte(strconv.Itoa(len(key)) + ":" + key + "i")
	i := bytes.Index(b, k)
	sym.Assert(i >= 0, "a message holds "+key)
	n, j := 0, i+len(k)
	for ; j < len(b) && b[j] != 'e'; j++ {
		sym.Assert(b[j] >= '0' && b[j] <= '9', "a message holds a number for "+key)
		n = n*10 + int(b[j]-'0')
	}
	sym.Assert(j < len(b) && j > i+len(k), "a message holds a number for "+key)
	return n
}

// pwHello reads the handshake of a fetch.
func pwHello(c net.Conn, hash []byte) {
	h := pwRead(c, 68)
	sym.Assert(string(h[:20]) == pwProtocol && h[25]&0x10 != 0, "a handshake names the protocol and the extension")
	sym.Assert(bytes.Equal(h[28:48], hash), "a handshake carries the info-hash")
}

// pwHelloExt reads the extended handshake of a fetch and gives the id it
// wants data messages to have.
func pwHelloExt(c net.Conn) int {
	b := pwFrameFrom(c)
	sym.Assert(b[1] == 0, "an extended handshake has the id 0")
	id := pwInt(b, "ut_metadata")
	sym.Assert(id > 0 && id < 256, "an extended handshake offers ut_metadata")
	return id
}

// pwRequests reads the requests for n pieces.
func pwRequests(c net.Conn, id, n int) {
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		b := pwFrameFrom(c)
		sym.Assert(int(b[1]) == id, "a request carries the id the peer has chosen")
		sym.Assert(b[2] == 'd' && b[len(b)-1] == 'e' && len(b) < 100, "a request is one dictionary")
		sym.Assert(pwInt(b, "msg_type") == 0, "a request is one")
		p := pwInt(b, "piece")
		sym.Assert(p < n && !seen[p], "each piece of the declared size is requested once")
		seen[p] = true
	}
}

// pwQuiet checks that a fetch has sent nothing else.
func pwQuiet(c net.Conn) {
	sym.Settle()
	c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
	n, err := c.Read(make([]byte, 1))
	sym.Assert(n == 0 && err != nil, "each piece of the declared size is requested once")
	c.SetReadDeadline(time.Time{})
}

// pwContent is metadata of any size, different everywhere.
func pwContent(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*31 + i>>14)
	}
	return b
}

func pwPiece(d []byte, i int) []byte {
	to := (i + 1) * 16384
	if to > len(d) {
		to = len(d)
	}
	return d[i*16384 : to]
}

func pwCount(n int) int { return (n + 16383) / 16384 }

// pwNoise is a message a fetch has no use for.
func pwNoise(kind, ours int) string {
	switch kind {
	case 1: // keep-alive
		return "\x00\x00\x00\x00"
	case 2: // bitfield
		return pwFrame("\x05\xff\x00\xfe")
	case 3: // have
		return pwFrame("\x04\x00\x00\x00\x07")
	case 4: // unchoke, without payload
		return pwFrame("\x01")
	case 5: // port
		return pwFrame("\x09\x1a\xe1")
	case 6: // a repeated extended handshake
		return pwFrame("\x14\x00d1:mde1:v3:abce")
	case 7: // an extension that was not offered
		return pwFrame("\x14\x07de")
	case 8: // a long bitfield
		return pwFrame("\x05" + string(make([]byte, 5000)))
	case 9: // a repeated extended handshake with everything
		return pwExt(ours, "77")
	case 10: // a message longer than a piece
		return pwFrame("\x05" + string(make([]byte, 17000)))
	}
	return ""
}

const pwNoises = 11

// VH_P03_segments cuts what a peer sends anywhere.
//
//verif:opts weight=4
func VH_P03_segments() {
	data := append(sym.Bytes("content", 3), pwContent(sym.Pick("more", 2)*9)...)
	hash := pwSum(data)
	c, done := pwStart(hash)
	pwHello(c, hash)
	id := []int{3, 1, 255}[sym.Pick("id", sym.Bound(2, 3))]
	s1 := pwHandshake(hash)
	s2 := pwNoise(sym.Pick("noise", 2)*2, id) + pwExt(id, strconv.Itoa(len(data)))
	mode := sym.Pick("cut", 3)
	switch mode {
	case 0: // the handshakes in one segment, or cut once
		pwCut(c, s1+s2, sym.Pick("at", len(s1+s2)))
	default:
		pwWrite(c, s1)
	}
	ours := pwHelloExt(c)
	if mode == 1 {
		at := sym.Pick("at", len(s2))
		pwCut(c, s2, at, at+1+sym.Pick("then", sym.Bound(2, 5)))
	} else if mode == 2 {
		pwWrite(c, s2)
	}
	pwRequests(c, id, 1)
	m := pwData(ours, "0", len(data), data)
	if mode == 2 {
		at := sym.Pick("at", len(m))
		pwCut(c, m, at, at+1+sym.Pick("then", sym.Bound(2, 5)))
	} else {
		pwWrite(c, m)
	}
	r := pwEnd(c, done, hash)
	sym.Assert(r.err == nil && bytes.Equal(r.data, data), "the metadata of an honest peer is fetched")
}

// VH_P03_pieces fetches several pieces in any order, with other messages
// between them.
//
//verif:opts weight=5
func VH_P03_pieces() {
	size := []int{1, 16384, 16385, 40000, 32768, 70000}[sym.Pick("size", sym.Bound(4, 6))]
	data := pwContent(size)
	hash := pwSum(data)
	c, done := pwStart(hash)
	pwHello(c, hash)
	id := []int{1, 200}[sym.Pick("id", 2)]
	pwWrite(c, pwHandshake(hash))
	ours := pwHelloExt(c)
	n := pwCount(size)
	pwWrite(c, pwExt(id, strconv.Itoa(size)))
	pwRequests(c, id, n)
	var frames []string
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	spot := sym.Pick("spot", n)
	noise := pwNoise(sym.Pick("noise", pwNoises), id)
	for len(left) > 0 {
		k := sym.Pick("order", len(left))
		if len(frames) == spot {
			frames = append(frames, noise)
		}
		frames = append(frames, pwData(ours, strconv.Itoa(left[k]), size, pwPiece(data, left[k])))
		left = append(left[:k], left[k+1:]...)
	}
	switch sym.Pick("segments", 4) {
	case 0: // each message on its own
		for _, f := range frames {
			pwWrite(c, f)
		}
	case 1: // everything at once
		s := ""
		for _, f := range frames {
			s += f
		}
		pwWrite(c, s)
	case 2: // the length of each message on its own
		for _, f := range frames {
			pwCut(c, f, 4)
		}
	case 3: // a message and the beginning of the next one
		s, cuts := "", []int{}
		for _, f := range frames {
			s += f
			cuts = append(cuts, len(s)+3)
		}
		pwCut(c, s, cuts...)
	}
	r := pwEnd(c, done, hash)
	sym.Assert(r.err == nil && bytes.Equal(r.data, data), "the metadata of an honest peer is fetched")
}

// pwServe is an honest peer.
func pwServe(c net.Conn, hash, data []byte) {
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	ours := pwHelloExt(c)
	pwWrite(c, pwNoise(2, 5)+pwExt(5, strconv.Itoa(len(data))))
	n := pwCount(len(data))
	pwRequests(c, 5, n)
	for i := 0; i < n; i++ {
		pwWrite(c, pwNoise(1, 5)+pwData(ours, strconv.Itoa(n-1-i), len(data), pwPiece(data, n-1-i)))
	}
}

// VH_P03_many fetches many pieces whose messages carry other keys too.
//
//verif:opts weight=3 steps=200000000
func VH_P03_many() {
	n := []int{2, 12, 101, 1024}[sym.Pick("pieces", sym.Bound(3, 4))]
	data := pwContent(n*16384 - []int{0, 1, 16383}[sym.Pick("less", 3)])
	hash := pwSum(data)
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	ours := pwHelloExt(c)
	pwWrite(c, pwExt(9, strconv.Itoa(len(data))))
	pwRequests(c, 9, n)
	more := sym.Pick("keys", 4)
	order := sym.Pick("order", 3)
	ch := sym.U8("char")
	for i := 0; i < n; i++ {
		p := i
		switch order {
		case 1:
			p = n - 1 - i
		case 2: // even ones first
			p = 2 * i
			if p >= n {
				p = 2*(i-(n+1)/2) + 1
			}
		}
		h := "8:msg_typei1e5:piecei" + strconv.Itoa(p) + "e10:total_sizei" + strconv.Itoa(len(data)) + "e"
		switch more {
		case 1:
			h = "1:a" + "3:x" + string([]byte{ch}) + "y" + h
		case 2:
			h += "5:users" + "li1ed1:vi2eee"
		case 3: // as long as a message of 16 KiB allows, and longer
			h += "1:z" + strconv.Itoa(100) + ":" + string(bytes.Repeat([]byte{ch}, 100))
		}
		pwWrite(c, pwFrame("\x14"+string([]byte{byte(ours)})+"d"+h+"e"+string(pwPiece(data, p))))
	}
	r := pwEnd(c, done, hash)
	sym.Assert(r.err == nil && bytes.Equal(r.data, data), "the metadata of an honest peer is fetched")
}

// VH_P03_repeat runs fetches one after the other, some with peers that break
// off.
//
//verif:opts weight=2
func VH_P03_repeat() {
	rounds := sym.Bound(3, 4)
	for i := 0; i < rounds; i++ {
		data := append(pwContent([]int{20, 16390}[sym.Pick("size", 2)]), byte(i))
		hash := pwSum(data)
		c, done := pwStart(hash)
		bad := sym.Pick("bad", 4)
		switch bad {
		case 0:
			pwServe(c, hash, data)
		case 1:
			pwHello(c, hash)
			c.Close()
		case 2:
			pwHello(c, hash)
			pwWrite(c, pwHandshake(hash)+pwExt(1, "20")+pwData(1, "0", 20, pwContent(19)))
		case 3:
			pwHello(c, hash)
			pwWrite(c, pwHandshake(hash)+pwExt(1, "20")+"\x00\x00\x10\x00\x14\x00d")
			c.Close()
		}
		r := pwEnd(c, done, hash)
		if bad == 0 {
			sym.Assert(r.err == nil && bytes.Equal(r.data, data), "the metadata of an honest peer is fetched")
		} else {
			sym.Assert(r.err != nil, "a peer that does not serve the metadata fails the fetch")
		}
	}
}

// VH_P03_both runs two fetches at the same time.
//
//verif:opts weight=5 explore preempt=1 tpreempt=2 race
func VH_P03_both() {
	sym.Explore(false)
	var data, hash [2][]byte
	var ls [2]net.Listener
	var r [2]pwResult
	for i := range data {
		data[i] = append(pwContent(5), byte(i))
		hash[i] = pwSum(data[i])
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		ls[i] = l
		s := pwHandshake(hash[i]) + pwExt(5, "6") + pwNoise(3, 5) + pwData(1, "0", 6, data[i])
		go func() {
			if c, err := l.Accept(); err == nil {
				pwWrite(c, s)
			}
		}()
	}
	sym.Settle()
	fetch := func(i int) func() {
		return func() {
			b, err := FetchMetaData(ls[i].Addr().String(), []byte(pwPeer), hash[i])
			r[i] = pwResult{b, err}
		}
	}
	sym.Explore(true)
	sym.Par(fetch(0), fetch(1))
	sym.Explore(false)
	for i := range r {
		sym.Assert(r[i].err == nil && bytes.Equal(r[i].data, data[i]), "the metadata of an honest peer is fetched")
	}
}

// VH_P01_mask asks for a hash that may differ from the one of what is served.
//
//verif:opts weight=2
func VH_P01_mask() {
	data := pwContent([]int{10, 16400}[sym.Pick("size", 2)])
	hash := pwSum(data)
	hash[[]int{0, 7, 19}[sym.Pick("at", 3)]] ^= sym.U8("mask")
	if sym.Pick("second", 2) == 1 {
		hash[12] ^= sym.U8("mask2")
	}
	c, done := pwStart(hash)
	pwServe(c, hash, data)
	r := pwEnd(c, done, hash)
	same := bytes.Equal(hash, pwSum(data))
	sym.Assert((r.err == nil) == same, "a fetch succeeds when the hash matches")
}

// VH_P01_wrong serves something else than what the hash was made of.
//
//verif:opts weight=4
func VH_P01_wrong() {
	size := []int{6, 16388}[sym.Pick("size", 2)]
	data := pwContent(size)
	hash := pwSum(data)
	served := append([]byte(nil), data...)
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	ours := pwHelloExt(c)
	n := pwCount(size)
	declared := size
	if sym.Pick("declared", 2) == 1 {
		declared += []int{1, 16384, -1}[sym.Pick("off", 3)]
	}
	pwWrite(c, pwExt(9, strconv.Itoa(declared)))
	last := pwPiece(served, n-1)
	switch sym.Pick("fault", 9) {
	case 0: // any other byte
		last[sym.Pick("at", len(last))] = sym.U8("x")
	case 1:
		last = last[:len(last)-1]
	case 2:
		last = append(append([]byte(nil), last...), sym.U8("x"))
	case 3:
		last = nil
	case 4: // twice, the first time wrong
		pwWrite(c, pwData(ours, strconv.Itoa(n-1), size, []byte("wrong")))
	case 5: // any piece number
		pwWrite(c, pwData(ours, string([]byte{sym.U8("digit")}), size, []byte("wrong")))
	case 6: // any two characters as piece number
		pwWrite(c, pwData(ours, sym.Str("piece", 2), size, data[:1]))
	case 7: // another message type
		pwWrite(c, pwFrame("\x14"+string([]byte{byte(ours)})+"d8:msg_typei"+string([]byte{sym.U8("type")})+"e5:piecei0ee"))
	case 8: // a rejection
		pwWrite(c, pwFrame("\x14"+string([]byte{byte(ours)})+"d8:msg_typei2e5:piecei0ee"))
		last = nil
	}
	for i := 0; i < n-1; i++ {
		pwWrite(c, pwData(ours, strconv.Itoa(i), size, pwPiece(served, i)))
	}
	pwWrite(c, pwData(ours, strconv.Itoa(n-1), size, last))
	if sym.Pick("again", 2) == 1 {
		pwWrite(c, pwData(ours, strconv.Itoa(n-1), size, pwPiece(data, n-1)))
	}
	sym.Settle()
	pwEnd(c, done, hash)
}

// VH_P02_handshake answers the handshake with anything.
//
//verif:opts weight=2
func VH_P02_handshake() {
	hash := pwSum([]byte("abc"))
	c, done := pwStart(hash)
	h := []byte(pwHandshake(hash))
	h[0] = sym.U8("length")
	if sym.Pick("more", 2) == 1 {
		h[1], h[25] = sym.U8("name"), sym.U8("reserved")
	}
	n := []int{68, 0, 1, 20, 67, 69}[sym.Pick("n", 6)]
	s := string(h) + "\x00\x00\x00\x02\x14\x00"
	pwCut(c, s[:n], []int{0, 1, 30}[sym.Pick("cut", 3)])
	if sym.Pick("close", 2) == 1 {
		c.Close()
	}
	r := pwEnd(c, done, hash)
	sym.Assert(r.err != nil, "a peer that does not serve the metadata fails the fetch")
}

// VH_P02_frames sends any message after the handshake.
//
//verif:opts weight=4 alloc=4000000
func VH_P02_frames() {
	hash := pwSum([]byte("abc"))
	c, done := pwStart(hash)
	pwWrite(c, pwHandshake(hash))
	if sym.Pick("known", 2) == 1 {
		pwWrite(c, pwExt(1, "3"))
	}
	n := sym.Pick("n", sym.Bound(8, 10))
	body := sym.Bytes("body", n)
	prefix := string([]byte{0, 0, 0, byte(n)})
	switch sym.Pick("prefix", 4) {
	case 1:
		b := sym.Bytes("length", 4)
		l := binary.BigEndian.Uint32(b)
		// what is left of the body is no length of a second message
		sym.Assume(l <= 24 && int(l)+4 > n || l > 1<<16)
		prefix = string(b)
	case 2:
		prefix = []string{"\x00\x00\x00\x64", "\x00\x00\x7f\xff", "\x00\x00\x80\x00", "\x00\x00\x80\x01", "\x00\x00\xff\xff"}[sym.Pick("edge", 5)]
	case 3:
		prefix = sym.Str("length", 4)[:sym.Pick("short", 4)]
		body = nil
	}
	pwWrite(c, prefix+string(body))
	if sym.Pick("close", 2) == 1 {
		c.Close()
	}
	r := pwEnd(c, done, hash)
	sym.Assert(r.err != nil, "a peer that does not serve the metadata fails the fetch")
}

// VH_P02_dicts sends extended messages with any small dictionary.
//
//verif:opts weight=4
func VH_P02_dicts() {
	data := []byte("abc")
	hash := pwSum(data)
	c, done := pwStart(hash)
	pwWrite(c, pwHandshake(hash))
	id := []string{"\x00", "\x01", "\x02", "\xff"}[sym.Pick("id", 4)]
	if sym.Pick("known", 2) == 1 {
		pwWrite(c, pwExt(1, "3"))
	}
	x := string([]byte{sym.U8("x")})
	d := []string{
		"d1:m" + x + "e",
		"d1:md11:ut_metadatai" + x + "ee13:metadata_sizei" + x + "ee",
		"d13:metadata_sizei3ee",
		"d1:mde13:metadata_sizei3ee",
		"d1:md11:ut_metadata1:" + x + "e13:metadata_sizei3ee",
		"d1:md11:ut_metadatai1ee13:metadata_size1:" + x + "e",
		"d1:mle13:metadata_sizei3ee",
		"d8:msg_typei1e5:piecei-" + x + "e10:total_sizei3eeabc",
		"d8:msg_typei1e5:piecei0e10:total_size1:" + x + "eabc",
		"d8:msg_typei1e5:piece1:" + x + "10:total_sizei3eeabc",
		"d8:msg_type0:5:piecei0e10:total_sizei3eeabc",
		"d5:piecei" + x + "eeabc",
		"d8:msg_typei1eeabc",
		"d8:msg_typei1e5:piecei0eeabc",
		"i" + x + "eabc",
		"",
		x,
		"d" + x + "e",
		"d8:msg_typei1e5:piecei9223372036854775807e10:total_sizei3eeabc",
	}[sym.Pick("dict", 19)]
	pwWrite(c, pwFrame("\x14"+id+d))
	switch sym.Pick("then", 3) {
	case 0:
		c.Close()
	case 1:
		sym.Settle()
	case 2:
		pwWrite(c, pwFrame("\x14")+pwFrame("\x14\x01"))
	}
	pwEnd(c, done, hash)
}

// VH_P02_end breaks a good fetch off anywhere.
//
//verif:opts weight=2
func VH_P02_end() {
	data := pwContent(9)
	hash := pwSum(data)
	c, done := pwStart(hash)
	s := pwHandshake(hash) + pwNoise(1, 1) + pwNoise(3, 1) + pwExt(1, "9") + pwData(1, "0", 9, data)
	n := sym.Pick("at", len(s)+1)
	pwWrite(c, s[:n])
	if sym.Pick("close", 2) == 1 {
		c.Close()
	}
	r := pwEnd(c, done, hash)
	sym.Assert((r.err == nil) == (n == len(s)), "a fetch succeeds when the metadata was served")
}

// VH_P02_silent fetches from an address nobody listens at.
func VH_P02_silent() {
	before := sym.Goroutines()
	b, err := FetchMetaData("127.0.0.1:"+strconv.Itoa(sym.Port()), []byte(pwPeer), pwSum(nil))
	sym.Assert(err != nil && b == nil, "a failed fetch gives no data")
	b, err = FetchMetaData("nowhere", []byte(pwPeer), pwSum(nil))
	sym.Assert(err != nil && b == nil, "a failed fetch gives no data")
	sym.Settle()
	sym.Assert(sym.Goroutines() <= before, "a fetch leaves nothing behind")
}

// VH_P02_args fetches with an id or hash of the wrong size.
func VH_P02_args() {
	peer := pwPeer[:[]int{0, 19, 20}[sym.Pick("peer", 3)]]
	hash := pwSum(nil)[:[]int{0, 19, 20}[sym.Pick("hash", 3)]]
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		if c, err := l.Accept(); err == nil {
			c.Close()
		}
	}()
	b, err := FetchMetaData(l.Addr().String(), []byte(peer), hash)
	sym.Assert(err != nil && len(b) == 0, "a failed fetch gives no data")
}

// VH_P05_requests declares any size of up to six pieces.
//
//verif:opts weight=3
func VH_P05_requests() {
	digits := 1 + sym.Pick("digits", 5)
	size := sym.Bytes("size", digits)
	n := 0
	for i := range size {
		sym.Assume(size[i] >= '0' && size[i] <= '9')
		n = n*10 + int(size[i]-'0')
	}
	sym.Assume(size[0] != '0')
	hash := pwSum([]byte("abc"))
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	pwHelloExt(c)
	id := 1 + sym.Pick("id", 3)
	pwWrite(c, pwExt(id, string(size)))
	want := 1
	for want*16384 < n {
		want++
	}
	pwRequests(c, id, want)
	if sym.Pick("again", 2) == 1 {
		pwWrite(c, pwExt(id, string(size)))
	}
	pwQuiet(c)
	c.Close()
	r := pwEnd(c, done, hash)
	sym.Assert(r.err != nil, "a fetch is complete when all pieces have arrived")
}

// VH_P05_many declares sizes of up to as many pieces as are accepted.
//
//verif:opts weight=3 replays=1
func VH_P05_many() {
	most := 16 << 20
	size := []int{33, 64, 256, 512, 1024}[sym.Pick("pieces", 5)] * 16384
	if size < most && sym.Pick("over", 2) == 1 {
		size++
	}
	// one arbitrary digit more or less
	text := []byte(strconv.Itoa(size))
	d := sym.Bytes("digit", 1)[0]
	sym.Assume(d >= '0' && d <= '9')
	at := len(text) - 1 - sym.Pick("at", sym.Bound(2, 4))
	n := size
	u := 1
	for i := len(text) - 1; i > at; i-- {
		u *= 10
	}
	n += (int(d) - int(text[at])) * u
	text[at] = d
	sym.Assume(n <= most)
	hash := pwSum([]byte("abc"))
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	pwHelloExt(c)
	pwWrite(c, pwExt(3, string(text)))
	want := size/16384 - 1
	for want*16384 < n {
		want++
	}
	pwRequests(c, 3, want)
	pwQuiet(c)
	c.Close()
	r := pwEnd(c, done, hash)
	sym.Assert(r.err != nil, "a fetch is complete when all pieces have arrived")
	sym.Reach("all")
}

// VH_P05_missing serves all pieces but one.
//
//verif:opts weight=3
func VH_P05_missing() {
	size := []int{16385, 40000, 5}[sym.Pick("size", 3)]
	data := pwContent(size)
	n := pwCount(size)
	hash := pwSum(data)
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	ours := pwHelloExt(c)
	early := sym.Pick("early", 3)
	if early > 0 {
		// a piece nobody has asked for yet
		pwWrite(c, pwNoise(1, 1)+pwData(ours, strconv.Itoa(sym.Pick("which", n)), size, []byte("early")))
		if early == 2 {
			sym.Settle()
			pwEnd(c, done, hash)
			return
		}
	}
	pwWrite(c, pwExt(4, strconv.Itoa(size)))
	miss := sym.Pick("miss", n+1)
	last := -1
	for i := 0; i < n; i++ {
		if i != miss {
			pwWrite(c, pwData(ours, strconv.Itoa(i), size, pwPiece(data, i)))
			last = i
		}
	}
	if miss < n {
		// one of the others again
		if last >= 0 {
			pwWrite(c, pwData(ours, strconv.Itoa(last), size, pwPiece(data, last)))
		}
		sym.Settle()
		if early == 0 {
			select {
			case <-done:
				sym.Fail("a fetch is complete when all pieces have arrived")
			default:
			}
		}
		if sym.Pick("finally", 2) == 0 {
			c.Close()
			r := pwEnd(c, done, hash)
			sym.Assert(r.err != nil, "a fetch is complete when all pieces have arrived")
			return
		}
		pwWrite(c, pwData(ours, strconv.Itoa(miss), size, pwPiece(data, miss)))
	}
	r := pwEnd(c, done, hash)
	if early == 0 {
		sym.Assert(r.err == nil && bytes.Equal(r.data, data), "a fetch is complete when all pieces have arrived")
	}
}

// VH_P06_size declares an implausible size.
//
//verif:opts weight=3 alloc=8000000
func VH_P06_size() {
	var text string
	switch sym.Pick("kind", 4) {
	case 0: // 64 MB and more, any digits
		digits := []int{9, 8, 10, 14, 19, 12, 16, 18}[sym.Pick("digits", sym.Bound(5, 8))]
		b := sym.Bytes("size", digits)
		n := 0
		for i := range b {
			sym.Assume(b[i] >= '0' && b[i] <= '9')
			n = n*10 + int(b[i]-'0')
		}
		sym.Assume(b[0] != '0' && (n > 64<<20 || n < 0 || digits == 19))
		text = string(b)
	case 1:
		b := sym.Bytes("size", 1+sym.Pick("digits", 6))
		for i := range b {
			sym.Assume(b[i] >= '0' && b[i] <= '9')
		}
		text = "-" + string(b)
	case 2:
		text = "0"
	case 3:
		text = []string{"9223372036854775807", "-9223372036854775808", "18446744073709551616", "4294967296", "2147483648"}[sym.Pick("edge", 5)]
	}
	hash := pwSum(nil)
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	pwHelloExt(c)
	pwWrite(c, pwExt(1, text))
	r := <-done
	sym.Assert(r.err != nil, "an implausible size ends the fetch")
	n, _ := io.ReadFull(c, make([]byte, 200000))
	sym.Assert(n < 200000, "an implausible size sends few requests")
	c.Close()
}

// VH_P06_length declares any message length.
//
//verif:opts weight=2 alloc=4000000
func VH_P06_length() {
	data := []byte("abc")
	hash := pwSum(data)
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	ours := pwHelloExt(c)
	pwWrite(c, pwExt(1, "3"))
	l := sym.Bytes("length", 4)
	n := binary.BigEndian.Uint32(l)
	sym.Assume(n > 1<<20)
	pwWrite(c, string(l)+"\x14\x01")
	pwWrite(c, pwData(ours, "0", 3, data))
	r := pwEnd(c, done, hash)
	sym.Assert(r.err != nil, "an implausible length ends the fetch")
}

// VH_P06_piece sends a piece with any number and any total size.
//
//verif:opts weight=2 alloc=4000000
func VH_P06_piece() {
	data := []byte("abc")
	hash := pwSum(data)
	c, done := pwStart(hash)
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash))
	ours := pwHelloExt(c)
	pwWrite(c, pwExt(1, []string{"3", "40000"}[sym.Pick("declared", 2)]))
	num := func(name string) string {
		if sym.Pick(name+".kind", 2) == 0 {
			return []string{"0", "-1", "9223372036854775807", "-9223372036854775808", "4294967296", "2147483648", "18446744073709551616"}[sym.Pick(name+".edge", 7)]
		}
		b := sym.Bytes(name, []int{12, 18, 11, 14, 9}[sym.Pick(name+".digits", sym.Bound(2, 5))])
		for i := range b {
			sym.Assume(b[i] >= '0' && b[i] <= '9')
		}
		sym.Assume(b[0] != '0')
		return string(b)
	}
	piece, total := "0", "3"
	which := sym.Pick("which", 3)
	if which != 0 {
		piece = num("piece")
	}
	if which != 1 {
		total = num("total")
	}
	pwWrite(c, pwFrame("\x14"+string([]byte{byte(ours)})+"d8:msg_typei1e5:piecei"+piece+"e10:total_sizei"+total+"eeabc"))
	pwEnd(c, done, hash)
}

// VH_P03_others puts any message a peer may send besides the extended ones
// before the metadata.
//
//verif:opts weight=2
func VH_P03_others() {
	data := pwContent(5)
	hash := pwSum(data)
	c, done := pwStart(hash)
	t := sym.U8("type")
	n := 0
	switch sym.Pick("shape", 5) {
	case 0: // choke, unchoke, interested, not interested, have all, have none
		sym.Assume(t <= 3 || t == 14 || t == 15)
	case 1: // have, suggest piece, allowed fast
		sym.Assume(t == 4 || t == 13 || t == 17)
		n = 4
	case 2: // request, cancel, reject
		sym.Assume(t == 6 || t == 8 || t == 16)
		n = 12
	case 3: // port
		sym.Assume(t == 9)
		n = 2
	case 4: // bitfield, piece
		sym.Assume(t == 5 || t == 7)
		n = 9 + sym.Pick("more", 2)*40
	}
	m := pwFrame(string([]byte{t}) + sym.Str("payload", n))
	var at [3]string
	at[sym.Pick("at", 3)] = m
	pwHello(c, hash)
	pwWrite(c, pwHandshake(hash)+at[0])
	ours := pwHelloExt(c)
	pwWrite(c, pwExt(2, "5")+at[1])
	pwRequests(c, 2, 1)
	pwWrite(c, at[2]+pwData(ours, "0", 5, data))
	r := pwEnd(c, done, hash)
	sym.Assert(r.err == nil && bytes.Equal(r.data, data), "the metadata of an honest peer is fetched")
}
