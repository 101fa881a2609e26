package dht

import (
	"bytes"
	"io/ioutil"
	"os"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// dkLook looks at the torrent files between any two changes of a file, as
// another process or the next start after a crash would find them. want holds
// what may be in each file.
func dkLook(want map[string][][]byte) func() {
	return func() {
		l, err := ioutil.ReadDir("torrent")
		if err != nil {
			return
		}
		for _, f := range l {
			if f.IsDir() || !strings.HasSuffix(f.Name(), ".torrent") {
				continue
			}
			g, err := ioutil.ReadFile("torrent/" + f.Name())
			if err != nil {
				continue
			}
			ok := false
			for _, d := range want["torrent/"+f.Name()] {
				ok = ok || bytes.Equal(g, d)
			}
			sym.Assert(ok, "a torrent file is whole at every moment")
		}
	}
}

func dkData(i, n int) []byte {
	d := make([]byte, 1+n)
	d[0] = byte(i)
	if n > 0 {
		copy(d[1:], sym.Bytes("data", 3))
		copy(d[n-2:], sym.Bytes("end", 3))
	}
	return d
}

func dkEnd(want map[string][]byte) {
	sym.Assert(sym.OpenFiles() == 0, "no file stays open")
	l, err := ioutil.ReadDir("torrent")
	sym.Assert(err == nil, "the torrent directory stays")
	for _, f := range l {
		sym.Assert(want["torrent/"+f.Name()] != nil, "nothing but whole torrent files is left behind")
	}
	for name, d := range want {
		g, err := ioutil.ReadFile(name)
		sym.Assert(err == nil, "fetched metadata is written")
		sym.Assert(bytes.Equal(g, d), "a file holds exactly the fetched metadata")
	}
}

// VH_F03_states downloads torrents and looks at the files all the time.
//
//verif:opts weight=2
func VH_F03_states() {
	b := ndStart(1)
	c := b.socks[0]
	t := ndListen(0)
	os.Mkdir("torrent", 0755)
	want, may := map[string][]byte{}, map[string][][]byte{}
	n := sym.Bound(2, 3)
	var hashes []string
	for i := 0; i < n; i++ {
		data := dkData(i, []int{0, 6, 16384, 40000}[sym.Pick("size", 4)])
		hash, name := ndHex(data)
		hashes = append(hashes, hash)
		sym.Atomic(func() { t.data[hash] = data })
		want[name] = data
		may[name] = append(may[name], data)
		if sym.Pick("old", 2) == 1 {
			old := make([]byte, 50000)
			ioutil.WriteFile(name, old, 0644)
			may[name] = append(may[name], old)
		}
	}
	sym.OnFile(dkLook(may))
	quiet := sym.Pick("quiet", 2) == 1
	for i := range hashes {
		b.send(c, ndAnnounce(b.txid(), hashes[i], t.port, ""))
		if quiet {
			b.got(c)
		}
	}
	b.got(c)
	sym.Settle()
	dkEnd(want)
}

// VH_F03_full downloads torrents while files cannot grow.
//
//verif:opts weight=2
func VH_F03_full() {
	b := ndStart(1)
	c := b.socks[0]
	t := ndListen(0)
	os.Mkdir("torrent", 0755)
	data := dkData(0, []int{6, 20000}[sym.Pick("size", 2)])
	hash, name := ndHex(data)
	sym.Atomic(func() { t.data[hash] = data })
	may := map[string][][]byte{name: {data}}
	old := sym.Pick("old", 2) == 1
	if old {
		was := []byte("an earlier file")
		ioutil.WriteFile(name, was, 0644)
		may[name] = append(may[name], was)
	}
	sym.OnFile(dkLook(may))
	room := []int{0, 1, 3, len(data) - 1}[sym.Pick("room", 4)]
	sym.FileLimit(room)
	b.send(c, ndAnnounce(b.txid(), hash, t.port, ""))
	b.got(c)
	sym.Settle()
	sym.FileLimit(-1)
	l, err := ioutil.ReadDir("torrent")
	sym.Assert(err == nil, "the torrent directory stays")
	for _, f := range l {
		g, err := ioutil.ReadFile("torrent/" + f.Name())
		ok := err == nil && "torrent/"+f.Name() == name
		if ok {
			ok = false
			for _, d := range may[name] {
				ok = ok || bytes.Equal(g, d)
			}
		}
		sym.Assert(ok, "a failed write leaves nothing behind")
	}
	// the next attempt has room
	b.send(c, ndAnnounce(b.txid(), hash, t.port, ""))
	b.got(c)
	sym.Settle()
	dkEnd(map[string][]byte{name: data})
}

// VH_F03_two downloads the same torrent twice at once.
//
//verif:opts weight=3 preempt=2 tpreempt=3
func VH_F03_two() {
	b := ndStart(1)
	c := b.socks[0]
	t := ndListen(0)
	os.Mkdir("torrent", 0755)
	data := append([]byte("d"), sym.Bytes("data", 3)...)
	hash, name := ndHex(data)
	sym.Atomic(func() { t.data[hash] = data })
	look := dkLook(map[string][][]byte{name: {data}})
	// interleavings matter from the first change of a torrent file on
	sym.OnFile(func() {
		look()
		if l, _ := ioutil.ReadDir("torrent"); len(l) > 0 {
			sym.Explore(true)
		}
	})
	b.send(c, ndAnnounce(b.txid(), hash, t.port, ""))
	b.send(c, ndAnnounce(b.txid(), hash, t.port, ""))
	sym.Settle()
	sym.Explore(false)
	dkEnd(map[string][]byte{name: data})
}
