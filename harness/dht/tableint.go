package dht

import (
	"net"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

const intLocal = "\x6d\x91\xc4\x02nopqrstuvwxyz123"

func intId(d ...byte) string {
	b := []byte(intLocal)
	for i, x := range d {
		b[i] ^= x
	}
	return string(b)
}

// VH_R01_structure looks inside the table after any history.
//
//verif:opts weight=5
func VH_R01_structure() {
	mk := func(id string, port int) *NodeInfo {
		return NewNodeInfo(id, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: port})
	}
	host := mk(intLocal, 7)
	k := 1 + sym.Pick("k", 2)
	c := 1 + sym.Pick("capacity", sym.Bound(3, 4))
	t := NewRouteTable(host, k, c)
	known := []*NodeInfo{host}
	steps := sym.Bound(3, 4)
	for i := 0; i < steps; i++ {
		var n *NodeInfo
		switch sym.Pick("node", 4) {
		case 0:
			n = mk(intId(sym.U8("d")), 100+i)
		case 1:
			n = mk(intId(0, sym.U8("e")), 100+i)
		case 2:
			n = known[sym.Pick("again", len(known))]
		case 3:
			n = mk(known[sym.Pick("other", len(known))].Id, 100+i)
		}
		known = append(known, n)
		t.AddNode(n)
		intCheck(t, host, k, c)
	}
}

// intCheck looks at every bucket of a table.
func intCheck(t *RouteTable, host *NodeInfo, k, c int) {
	last := t.lastBucketIndex
	sym.Assert(len(t.nodeMap) == last+1 && last <= c, "the number of buckets never exceeds the capacity plus one")
	count := 0
	for p := 0; p <= last; p++ {
		b := t.nodeMap[p]
		sym.Assert(b != nil, "every bucket up to the last exists")
		l := b.All()
		sym.Assert(len(l) <= k && b.Size() == len(l), "a bucket holds at most k nodes")
		count += len(l)
		for j, x := range l {
			sym.Assert(x != nil, "a bucket holds nodes")
			for _, y := range l[:j] {
				sym.Assert(x.Id != y.Id, "no node is stored twice")
			}
			same := true
			for bit := 0; bit < p; bit++ {
				if (x.Id[bit/8]^intLocal[bit/8])&(0x80>>uint(bit%8)) != 0 {
					same = false
				}
			}
			sym.Assert(same, "a node sits in the bucket of its common prefix with the local node")
			if p < last {
				sym.Assert((x.Id[p/8]^intLocal[p/8])&(0x80>>uint(p%8)) != 0, "a node sits in the bucket of its common prefix with the local node")
			}
		}
	}
	sym.Assert(t.nodeMap[last].Exist(host), "the local node stays stored")
	sym.Assert(t.Size() == count, "the size is the number of stored nodes")
}

// VH_R01_levels looks inside a table that is split as far as it goes, around
// any bit.
//
//verif:opts weight=2
func VH_R01_levels() {
	mk := func(id string, port int) *NodeInfo {
		return NewNodeInfo(id, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: port})
	}
	host := mk(intLocal, 7)
	k, c := 2, []int{160, 12}[sym.Pick("capacity", 2)]
	t := NewRouteTable(host, k, c)
	at := []int{0, 19, 16, 8, 15, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 17, 18}[sym.Pick("byte", sym.Bound(4, 20))]
	for i := 0; i < 160; i++ {
		b := []byte(intLocal)
		b[i/8] ^= 0x80 >> uint(i%8)
		t.AddNode(mk(string(b), 100+i))
	}
	sym.Assert(t.lastBucketIndex >= c-1 || c == 160 && t.lastBucketIndex >= 158, "the table is split as far as needed")
	intCheck(t, host, k, c)
	for i := 0; i < sym.Bound(1, 2); i++ {
		b := []byte(intLocal)
		b[at] ^= sym.U8("d")
		t.AddNode(mk(string(b), 1000+i))
	}
	intCheck(t, host, k, c)
}
