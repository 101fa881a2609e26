package peerwire

import (
	"crypto/sha1"
	"encoding/binary"
	"net"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// bdLimit is more than the time to connect, to read and to loop together.
const bdLimit = 20 * time.Second

func bdFrame(body string) string {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(len(body)))
	return string(b) + body
}

// bdFetch starts a fetch that tells when it has ended.
func bdFetch(addr string, hash []byte) chan error {
	done := make(chan error, 1)
	go func() {
		_, err := FetchMetaData(addr, []byte("-GA0001-mnopqrstuvwx"), hash)
		done <- err
	}()
	return done
}

// bdWait takes the result of a fetch that has to be there before the limit.
func bdWait(done chan error, from int64) {
	left := bdLimit - time.Duration(sym.Clock()-from)
	if left < 0 {
		left = 0
	}
	select {
	case err := <-done:
		sym.Assert(err != nil, "a peer that does not serve the metadata fails the fetch")
	case <-time.After(left):
		sym.Fail("a fetch ends in bounded time")
	}
}

// VH_P07_trickle meets peers that always have something more to say, but
// never serve the metadata.
//
//verif:opts weight=3 timeout=60 steps=20000000
func VH_P07_trickle() {
	h := sha1.Sum([]byte("abc"))
	hash := h[:]
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	from := sym.Clock()
	done := bdFetch(l.Addr().String(), hash)
	c, err := l.Accept()
	if err != nil {
		panic(err)
	}
	l.Close()
	hello := "\x13BitTorrent protocol\x00\x00\x00\x00\x00\x10\x00\x05" + string(hash) + "-XX0001-abcdefghijkl"
	ext := bdFrame("\x14\x00d1:md11:ut_metadatai1ee13:metadata_sizei" + strconv.Itoa([]int{3, 40000}[sym.Pick("size", 2)]) + "ee")
	x := string([]byte{sym.U8("x")})
	// what is said at once, and what is said again and again
	first, again, bytewise := "", "", false
	switch sym.Pick("stage", 4) {
	case 0: // the handshake arrives byte by byte
		again, bytewise = hello, true
	case 1: // no extended handshake
		first = hello
	case 2: // the extended handshake, and no data
		first = hello + ext
	case 3: // a message that never ends
		first = hello + ext + "\x00\x00\x7f\xff\x14\x01" + x
		again, bytewise = "d1:", true
	}
	if !bytewise {
		again = []string{
			"",
			"\x00\x00\x00\x00",
			bdFrame("\x04\x00\x00\x00" + x),
			bdFrame("\x14\x01d8:msg_typei2e5:piecei0ee"),
			bdFrame("\x14\x00d1:mde1:v1:" + x + "e"),
			bdFrame("\x14\x07de"),
			bdFrame("\x14\x02d5:added0:e"),
		}[sym.Pick("again", 7)]
		if first == hello {
			sym.Assume(again == "" || again[0] == 0 && (len(again) == 4 || again[4] != 20 || again[5] != 0))
		}
	}
	every := []time.Duration{300 * time.Millisecond, 900 * time.Millisecond, 4 * time.Second}[sym.Pick("every", 3)]
	c.Write([]byte(first))
	at := 0
	for time.Duration(sym.Clock()-from) < bdLimit-every {
		time.Sleep(every)
		ended := false
		select {
		case err := <-done:
			done <- err
			ended = true
		default:
		}
		if ended {
			break
		}
		if len(again) == 0 {
			continue
		}
		m := again
		if bytewise {
			// the last byte never comes
			if at >= len(again)-1 && len(again) > 10 {
				continue
			}
			m = again[at%len(again) : at%len(again)+1]
			at++
		}
		c.Write([]byte(m))
	}
	bdWait(done, from)
	c.Close()
}

// VH_P07_connect meets an address that answers nothing at all.
//
//verif:opts timeout=60
func VH_P07_connect() {
	a := sym.BlackHole()
	from := sym.Clock()
	bdWait(bdFetch(a, make([]byte, 20)), from)
}
