package peerwire

import "github.com/GalaIO/P2Pcrawler/zzverif/sym"

// wireReader gives a stream in segments.
type wireReader struct {
	parts [][]byte
}

func (r *wireReader) Read(b []byte) (int, error) {
	for len(r.parts) > 0 && len(r.parts[0]) == 0 {
		r.parts = r.parts[1:]
	}
	if len(r.parts) == 0 {
		return 0, errWireEnd
	}
	n := copy(b, r.parts[0])
	r.parts[0] = r.parts[0][n:]
	return n, nil
}

type wireEnd struct{}

func (wireEnd) Error() string { return "end" }

var errWireEnd = wireEnd{}

// VH_P04_frames reads messages of any content from a stream.
//
//verif:opts weight=3
func VH_P04_frames() {
	var msgs [][]byte
	var stream []byte
	k := sym.Bound(2, 3)
	for i := 0; i < k; i++ {
		n := []int{0, 1, 3, 300}[sym.Pick("n", sym.Bound(3, 4))]
		b := make([]byte, n)
		copy(b, sym.Bytes("body", 3))
		msgs = append(msgs, b)
		stream = append(stream, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		stream = append(stream, b...)
	}
	at := sym.Pick("cut", len(stream)+1)
	end := at + sym.Pick("cut2", 3)
	if end > len(stream) {
		end = len(stream)
	}
	r := &wireReader{parts: [][]byte{stream[:at], stream[at:end], stream[end:]}}
	if sym.Pick("truncated", 2) == 1 {
		r.parts = r.parts[:2]
		stream = stream[:end]
	}
	left := len(stream)
	for _, m := range msgs {
		alive, b, err := readBytesByPrefixLenMsg(r)
		if left < 4+len(m) {
			sym.Assert(err != nil && !alive && len(b) == 0, "a truncated message is an error")
			return
		}
		left -= 4 + len(m)
		sym.Assert(err == nil, "a whole message is read")
		sym.Assert(alive == (len(m) == 0), "a message without content is a keep-alive")
		sym.Assert(string(b) == string(m), "a message is read exactly")
	}
}
