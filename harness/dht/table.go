package dht

import (
	"net"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

const tabLocal = "\x6d\x91\xc4\x02nopqrstuvwxyz123"

// tabId is the id at distance d (first bytes) from the local one.
func tabId(d ...byte) string {
	b := []byte(tabLocal)
	for i, x := range d {
		b[i] ^= x
	}
	return string(b)
}

func tabNode(id string, port int) *NodeInfo {
	return NewNodeInfo(id, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: port})
}

func sameNode(a, b *NodeInfo) bool {
	return a.Addr.Port == b.Addr.Port && a.Addr.IP.Equal(b.Addr.IP) && a.Id == b.Id
}

func holds(l []*NodeInfo, n *NodeInfo) bool {
	for _, x := range l {
		if sameNode(x, n) {
			return true
		}
	}
	return false
}

// prefix is the length of the common prefix of two ids in bits.
func prefix(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		x := a[i] ^ b[i]
		if x == 0 {
			continue
		}
		n := 0
		for x&0x80 == 0 {
			x <<= 1
			n++
		}
		return i*8 + n
	}
	return 160
}

// anyNode is a node anywhere near or far, a known one again, a known id at
// another address, or one with the id of the local node.
func anyNode(i int, known []*NodeInfo) *NodeInfo {
	kinds := 2
	if len(known) > 0 {
		kinds = 4
	}
	port := 1000 + i
	switch sym.Pick("node", kinds) {
	case 0:
		return tabNode(tabId(sym.U8("d")), port)
	case 1:
		return tabNode(tabId(0, sym.U8("e")), port)
	case 2:
		k := known[sym.Pick("again", len(known))]
		return tabNode(k.Id, k.Addr.Port)
	}
	return tabNode(known[sym.Pick("other", len(known))].Id, port)
}

// holdsId tells whether a node with an id is among l.
func holdsId(l []*NodeInfo, id string) bool {
	for _, x := range l {
		if x.Id == id {
			return true
		}
	}
	return false
}

// list gives everything the table holds.
func list(t *RouteTable) []*NodeInfo {
	l := t.FindClosest(tabLocal, 60)
	for _, n := range l {
		sym.Assert(n != nil, "a listing holds no nil node")
	}
	for i, a := range l {
		for _, b := range l[:i] {
			sym.Assert(a.Id != b.Id, "no node is stored twice")
		}
	}
	return l
}

func history(each func(t *RouteTable, host *NodeInfo, n *NodeInfo, before, after []*NodeInfo, err error)) {
	host := tabNode(tabLocal, 7)
	k := 1 + sym.Pick("k", 2)
	c := 1 + sym.Pick("capacity", sym.Bound(3, 4))
	t := NewRouteTable(host, k, c)
	known := []*NodeInfo{host}
	steps := sym.Bound(3, 4)
	for i := 0; i < steps; i++ {
		n := anyNode(i, known)
		before := list(t)
		err := t.AddNode(n)
		after := list(t)
		each(t, host, n, before, after, err)
		known = append(known, n)
	}
}

// VH_R01_listing checks what can be seen of the table from outside.
//
//verif:opts weight=4
func VH_R01_listing() {
	history(func(t *RouteTable, host, n *NodeInfo, before, after []*NodeInfo, err error) {
		sym.Assert(holds(after, host), "the local node stays stored")
		sym.Assert(t.Size() == len(after), "the size is the number of stored nodes")
	})
}

// VH_R02_truth compares what AddNode reports with what the table holds.
//
//verif:opts weight=5
func VH_R02_truth() {
	history(func(t *RouteTable, host, n *NodeInfo, before, after []*NodeInfo, err error) {
		for _, b := range before {
			sym.Assert(holds(after, b), "a stored node stays stored")
		}
		for _, b := range before {
			if b.Id == n.Id {
				sym.Assert(len(after) == len(before), "adding a known id changes nothing")
				f := t.Find(n.Id)
				sym.Assert(f != nil && sameNode(f, b), "adding a known id changes nothing")
				return
			}
		}
		if err == nil {
			sym.Assert(holds(after, n), "a node that was accepted is in the table")
			sym.Assert(len(after) == len(before)+1, "a node that was accepted is in the table")
			sym.Reach("accepted")
		} else {
			sym.Assert(!holds(after, n), "a node that was refused is not in the table")
			sym.Assert(len(after) == len(before), "a node that was refused is not in the table")
			sym.Reach("refused")
		}
	})
}

// VH_R02_deep fills the table along the path to the local node, so that one
// insertion splits several buckets or fails halfway.
//
//verif:opts weight=4
func VH_R02_deep() {
	host := tabNode(tabLocal, 7)
	k := 2 + sym.Pick("k", 2)
	c := 1 + sym.Pick("capacity", sym.Bound(6, 10))
	t := NewRouteTable(host, k, c)
	var have []*NodeInfo
	have = append(have, host)
	// nodes that share a long prefix with the local one
	for i := 0; i < k-1; i++ {
		n := tabNode(tabId(byte(1+i)), 100+i)
		if known := holdsId(have, n.Id); t.AddNode(n) == nil && !known {
			have = append(have, n)
		}
	}
	for i := 0; i < 2; i++ {
		n := tabNode(tabId(sym.U8("d")), 1000+i)
		if sym.Pick("near", 2) == 1 {
			n = tabNode(tabId(0, sym.U8("e")), 1000+i)
		}
		known := holdsId(have, n.Id)
		err := t.AddNode(n)
		after := list(t)
		if known {
			sym.Assert(!holds(after, n), "adding a known id changes nothing")
		} else {
			sym.Assert(holds(after, n) == (err == nil), "AddNode reports whether the node is in the table")
		}
		for _, h := range have {
			sym.Assert(holds(after, h), "a stored node stays stored")
			f := t.Find(h.Id)
			sym.Assert(f != nil && f.Id == h.Id, "a stored node stays findable")
		}
		if err == nil && !known {
			have = append(have, n)
		}
		sym.Assert(t.Size() == len(have), "the size is the number of stored nodes")
	}
}

// VH_R02_full adds nodes until the table refuses, then goes on.
//
//verif:opts weight=2
func VH_R02_full() {
	host := tabNode(tabLocal, 7)
	k := 1 + sym.Pick("k", 3)
	c := sym.Pick("capacity", 5)
	t := NewRouteTable(host, k, c)
	have := []*NodeInfo{host}
	for i := 0; i < 14; i++ {
		d := []byte{0x80, 0x80, 0xc0, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01, 0x03, 0x41, 0x21, 0xff}[i]
		n := tabNode(tabId(d, byte(i)), 100+i)
		if i%4 == 0 && sym.Pick("order", 2) == 1 {
			n = tabNode(tabLocal, 100+i)
		}
		known := holdsId(have, n.Id)
		err := t.AddNode(n)
		after := list(t)
		if known {
			sym.Assert(!holds(after, n), "adding a known id changes nothing")
		} else {
			sym.Assert(holds(after, n) == (err == nil), "AddNode reports whether the node is in the table")
		}
		if err == nil && !known {
			have = append(have, n)
		}
		sym.Assert(t.Size() == len(have) && len(after) == len(have), "the size is the number of stored nodes")
		for _, h := range have {
			sym.Assert(holds(after, h), "a stored node stays stored")
		}
	}
	sym.Assert(!t.Full() || c < 160, "fullness")
}

// VH_R03_find looks ids up that are stored, and ids that are not.
//
//verif:opts weight=3
func VH_R03_find() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 2, sym.Pick("capacity", 3)+1)
	var have []*NodeInfo
	have = append(have, host)
	n := sym.Bound(2, 3)
	for i := 0; i < n; i++ {
		x := tabNode(tabId(sym.U8("d")), 100+i)
		if known := holdsId(have, x.Id); t.AddNode(x) == nil && !known {
			have = append(have, x)
		}
	}
	var q string
	switch sym.Pick("q", 5) {
	case 0:
		q = tabId(sym.U8("q"))
	case 1:
		q = tabId(0, sym.U8("q"))
	case 3: // the beginning of a stored id
		q = have[sym.Pick("whose", len(have))].Id[:sym.Pick("length", 20)]
	case 4: // more than a stored id
		q = have[sym.Pick("whose", len(have))].Id + sym.Str("more", 1)
	case 2:
		b := []byte(have[len(have)-1].Id)
		b[sym.Pick("at", 20)] ^= 1 << uint(sym.Pick("bit", 8))
		q = string(b)
	}
	f := t.Find(q)
	stored := false
	for _, h := range have {
		if h.Id == q {
			stored = true
		}
	}
	if stored {
		sym.Assert(f != nil && f.Id == q, "a stored id is found")
		sym.Assert(holds(have, f), "what is found was stored")
		sym.Reach("found")
	} else {
		sym.Assert(f == nil, "an id that is not stored is not found")
		sym.Reach("missing")
	}
}

// VH_R03_levels looks ids up in a table that is split as far as it goes.
//
//verif:opts weight=2
func VH_R03_levels() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 2, 160)
	at := []int{0, 19, 16, 8, 15, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 17, 18}[sym.Pick("byte", sym.Bound(4, 20))]
	have := []*NodeInfo{host}
	add := func(n *NodeInfo) {
		if known := holdsId(have, n.Id); t.AddNode(n) == nil && !known {
			have = append(have, n)
		}
	}
	for i := 0; i < 160; i++ {
		b := []byte(tabLocal)
		b[i/8] ^= 0x80 >> uint(i%8)
		add(tabNode(string(b), 100+i))
	}
	sym.Assert(len(have) == 161, "there is room")
	d := make([]byte, 20)
	d[at] = sym.U8("d")
	n := tabNode(tabId(d...), 1000)
	known := t.Find(n.Id)
	err := t.AddNode(n)
	if known == nil {
		sym.Assert(err == nil, "there is room")
	}
	f := t.Find(n.Id)
	sym.Assert(f != nil && f.Id == n.Id, "a stored id is found")
	for _, h := range have {
		f := t.Find(h.Id)
		sym.Assert(f != nil && f.Id == h.Id, "a stored id is found")
	}
	d[at] = sym.U8("q")
	q := tabId(d...)
	stored := q == n.Id
	for _, h := range have {
		if h.Id == q {
			stored = true
		}
	}
	f = t.Find(q)
	sym.Assert((f != nil) == stored, "an id that is not stored is not found")
	sym.Assert(!stored || f.Id == q, "a stored id is found")
}

// VH_R03_binary: two ids that differ in one byte only, of any values, are
// different nodes.
//
//verif:opts weight=2
func VH_R03_binary() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 8, 160)
	at := []int{0, 10, 19}[sym.Pick("at", 3)]
	a, b := []byte(tabId(0x80)), []byte(tabId(0x80))
	a[at], b[at] = sym.U8("a"), sym.U8("b")
	if sym.Pick("wide", 2) == 1 {
		a[11], b[11] = 0xff, 0xfe
		a[12], b[12] = 'k', 'K'
	}
	sym.Assume(string(a) != tabLocal && string(b) != tabLocal)
	na, nb := tabNode(string(a), 1), tabNode(string(b), 1)
	same := string(a) == string(b)
	sym.Assert(na.Equals(nb) == same, "different ids are different nodes")
	sym.Assert(t.AddNode(na) == nil, "there is room")
	f := t.Find(string(b))
	sym.Assert((f != nil) == same, "an id that is not stored is not found")
	sym.Assert(t.AddNode(nb) == nil || same, "there is room")
	fa, fb := t.Find(string(a)), t.Find(string(b))
	sym.Assert(fa != nil && fa.Id == string(a) && fb != nil && fb.Id == string(b), "a stored id is found")
	want := 3
	if same {
		want = 2
	}
	sym.Assert(t.Size() == want, "different ids are different nodes")
}

// VH_R04_closest asks for the neighbourhood of any id.
//
//verif:opts weight=4
func VH_R04_closest() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 1+sym.Pick("cap", 2), 1+sym.Pick("capacity", 3))
	have := []*NodeInfo{host}
	steps := sym.Bound(3, 4)
	for i := 0; i < steps; i++ {
		n := tabNode(tabId(sym.U8("d")), 100+i)
		if known := holdsId(have, n.Id); t.AddNode(n) == nil && !known {
			have = append(have, n)
		}
	}
	k := []int{0, 1, 2, 5, 3, 4}[sym.Pick("k", sym.Bound(4, 6))]
	var q string
	switch sym.Pick("q", 5) {
	case 3:
		q = have[len(have)-1].Id[:[]int{0, 1, 19}[sym.Pick("length", 3)]]
	case 4:
		q = have[len(have)-1].Id + "x"
	case 0:
		q = tabLocal
	case 1:
		q = have[sym.Pick("which", len(have))].Id
	case 2:
		q = tabId(sym.U8("q"))
	}
	l := t.FindClosest(q, k)
	for i, n := range l {
		sym.Assert(n != nil && holds(have, n), "a closest-nodes query gives stored nodes")
		sym.Assert(!holds(l[:i], n), "a closest-nodes query gives a node once")
	}
	for _, h := range have {
		if h.Id == q {
			sym.Assert(holds(l, h), "a closest-nodes query gives the target when it is stored")
		}
	}
	if q == tabLocal {
		want := k
		if len(have) < k {
			want = len(have)
		}
		sym.Assert(len(l) >= want, "a closest-nodes query about the local node gives enough nodes")
	}
	// the answer is the caller's own
	for i := range l {
		l[i] = nil
	}
	l = append(l[:0], host, host, host)
	for _, h := range have {
		sym.Assert(t.Find(h.Id) != nil, "an answer may be changed by its receiver")
	}
	sym.Assert(t.Size() == len(have), "an answer may be changed by its receiver")
}

// VH_R04_kept asks and inserts while an answer is in use.
//
//verif:opts weight=1
func VH_R04_kept() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 1+sym.Pick("cap", sym.Bound(2, 3)), 1+2*sym.Pick("capacity", 2))
	site := []byte{0x80, 0x01, 0x40, 0x02, 0x81}
	n := 1 + sym.Pick("nodes", 3)
	for i := 0; i < n; i++ {
		t.AddNode(tabNode(tabId(site[sym.Pick("d", sym.Bound(3, 5))]), 100+i))
	}
	l := t.FindClosest(tabLocal, 1+2*sym.Pick("k", 2))
	was := append([]*NodeInfo(nil), l...)
	steps := sym.Bound(2, 3)
	for i := 0; i < steps; i++ {
		switch sym.Pick("then", 4) {
		case 0:
			t.FindClosest(tabId(0x80), 3)
		case 1:
			t.FindClosest(tabLocal, 8)
		case 2:
			t.AddNode(tabNode(tabId(site[sym.Pick("late", sym.Bound(3, 4))]), 200))
		case 3:
			t.AddNode(tabNode(tabId(3), 201))
		}
		for i, n := range l {
			sym.Assert(n == was[i], "an answer stays as it was given")
		}
	}
}

// VH_R05_race inserts, looks up, lists and measures at the same time.
//
//verif:opts weight=4 race preempt=1 tpreempt=2
func VH_R05_race() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 2, 3)
	first := tabNode(tabId(0x80), 50)
	sym.Assert(t.AddNode(first) == nil, "there is room")
	mk := func(name string, port int) *NodeInfo {
		return tabNode(tabId([]byte{0x81, 0x01, 0x40}[sym.Pick(name, sym.Bound(2, 3))]), port)
	}
	a, b := mk("a", 100), mk("b", 101)
	var ea, eb error
	var seen *NodeInfo
	var l []*NodeInfo
	size, did := 0, sym.Pick("read", 3)
	sym.Explore(true)
	sym.Par(func() {
		ea = t.AddNode(a)
	}, func() {
		eb = t.AddNode(b)
	}, func() {
		switch did {
		case 0:
			seen = t.Find(first.Id)
		case 1:
			l = t.FindClosest(tabLocal, 10)
		case 2:
			size = t.Size()
			t.Full()
		}
	})
	sym.Explore(false)
	switch did {
	case 0:
		sym.Assert(seen != nil && seen.Id == first.Id, "a stored node is found at any time")
	case 1:
		sym.Assert(holds(l, host) && holds(l, first), "a stored node is listed at any time")
		for i, n := range l {
			sym.Assert(n != nil && !holds(l[:i], n), "a listing holds each node once")
		}
	case 2:
		sym.Assert(size >= 2 && size <= 4, "the size is right at any time")
	}
	all := list(t)
	sym.Assert((holdsId(all, a.Id) || ea != nil) && (ea == nil || !holds(all, a)), "a reported success stays visible")
	sym.Assert((holdsId(all, b.Id) || eb != nil) && (eb == nil || !holds(all, b)), "a reported success stays visible")
	sym.Assert(holds(all, host) && holds(all, first), "a stored node stays stored")
	sym.Assert(t.Size() == len(all), "the size is the number of stored nodes")
}

// VH_R05_two lets two goroutines interleave more finely.
//
//verif:opts weight=3 race preempt=2 tpreempt=3
func VH_R05_two() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 2, 3)
	first := tabNode(tabId(0x80), 50)
	sym.Assert(t.AddNode(first) == nil, "there is room")
	pair := [][2]byte{{0x81, 0x81}, {0x81, 0x01}, {0x01, 0x01}, {0x40, 0x81}, {0x40, 0x01}}
	var a, b *NodeInfo
	var ea, eb error
	size, did := 0, sym.Pick("other", 2)
	if did == 1 {
		p := pair[sym.Pick("ids", sym.Bound(3, 5))]
		a, b = tabNode(tabId(p[0]), 100), tabNode(tabId(p[1]), 101)
	} else {
		a = tabNode(tabId([]byte{0x81, 0x01}[sym.Pick("a", sym.Bound(1, 2))]), 100)
	}
	sym.Explore(true)
	sym.Par(func() {
		ea = t.AddNode(a)
	}, func() {
		switch did {
		case 0:
			size = t.Size()
			t.Full()
		case 1:
			eb = t.AddNode(b)
		}
	})
	sym.Explore(false)
	if did == 0 {
		sym.Assert(size >= 2 && size <= 3, "the size is right at any time")
	}
	all := list(t)
	sym.Assert((holdsId(all, a.Id) || ea != nil) && (ea == nil || !holds(all, a)), "a reported success stays visible")
	if b != nil {
		sym.Assert((holdsId(all, b.Id) || eb != nil) && (eb == nil || !holds(all, b)), "a reported success stays visible")
	}
	sym.Assert(holds(all, host) && holds(all, first), "a stored node stays stored")
	sym.Assert(t.Size() == len(all), "the size is the number of stored nodes")
}

// VH_R05_read lets two readers look at the table at the same time.
//
//verif:opts weight=1 race preempt=2 tpreempt=3
func VH_R05_read() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 2, 3)
	have := []*NodeInfo{host}
	for i, d := range []byte{0x80, 0x01, 0x40}[:1+sym.Pick("nodes", sym.Bound(2, 3))] {
		n := tabNode(tabId(d), 50+i)
		sym.Assert(t.AddNode(n) == nil, "there is room")
		have = append(have, n)
	}
	read := func(what int) {
		switch what {
		case 0:
			for _, h := range have {
				n := t.Find(h.Id)
				sym.Assert(n != nil && n.Id == h.Id, "a stored node is found at any time")
			}
		case 1:
			l := t.FindClosest(tabLocal, 10)
			for _, h := range have {
				sym.Assert(holds(l, h), "a stored node is listed at any time")
			}
			sym.Assert(len(l) == len(have), "a listing holds each node once")
		case 2:
			l := t.FindClosest(tabId(0x80), 1)
			sym.Assert(holds(l, have[1]), "a stored node is listed at any time")
		case 3:
			sym.Assert(t.Size() == len(have), "the size is right at any time")
			t.Full()
		}
	}
	a := sym.Pick("a", 4)
	b := a + sym.Pick("b", 4-a)
	sym.Explore(true)
	sym.Par(func() { read(a) }, func() { read(b) })
	sym.Explore(false)
}

// VH_R05_move looks a node up while it moves to another bucket.
//
//verif:opts weight=2 race preempt=2 tpreempt=3
func VH_R05_move() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 2, 3)
	first := tabNode(tabId([]byte{0x80, 0x40, 0x01}[sym.Pick("first", 3)]), 50)
	sym.Assert(t.AddNode(first) == nil, "there is room")
	a := tabNode(tabId([]byte{0x81, 0x02}[sym.Pick("a", sym.Bound(1, 2))]), 100)
	var seen *NodeInfo
	var l []*NodeInfo
	did := sym.Pick("read", 2)
	sym.Explore(true)
	sym.Par(func() {
		t.AddNode(a)
	}, func() {
		if did == 0 {
			seen = t.Find(first.Id)
		} else {
			l = t.FindClosest(first.Id, 1)
		}
	})
	sym.Explore(false)
	if did == 0 {
		sym.Assert(seen != nil && seen.Id == first.Id, "a stored node is found at any time")
	} else {
		sym.Assert(holds(l, first), "a stored node is listed at any time")
	}
}

// VH_R05_same adds the same node twice at the same time.
//
//verif:opts weight=2 race preempt=2 tpreempt=3
func VH_R05_same() {
	host := tabNode(tabLocal, 7)
	t := NewRouteTable(host, 2, 3)
	id := tabId([]byte{0x80, 0x01}[sym.Pick("id", 2)])
	a, b := tabNode(id, 100), tabNode(id, 100)
	sym.Explore(true)
	sym.Par(func() { t.AddNode(a) }, func() { t.AddNode(b) })
	sym.Explore(false)
	all := list(t)
	sym.Assert(len(all) == 2 && t.Size() == 2, "a node is stored once")
}

// VH_R06_bucket fills a bucket.
func VH_R06_bucket() {
	c := 1 + sym.Pick("cap", sym.Bound(3, 4))
	b := NewBucket(c)
	var have []*NodeInfo
	n := sym.Bound(4, 6)
	for i := 0; i < n; i++ {
		x := tabNode(tabId(sym.U8("d")), 100+i)
		ok := b.Add(x)
		sym.Assert(ok == (len(have) < c), "a bucket accepts nodes until its capacity")
		if ok {
			have = append(have, x)
		}
		sym.Assert(b.Size() == len(have), "the size of a bucket is the number of accepted nodes")
		sym.Assert(b.Full() == (len(have) == c), "a bucket is full at its capacity")
		all := b.All()
		sym.Assert(len(all) == len(have), "a bucket lists the accepted nodes")
		for j, h := range have {
			sym.Assert(all[j] != nil && sameNode(all[j], h), "a bucket lists the accepted nodes in order")
		}
		at := 0
		b.Iterator(func(n *NodeInfo) {
			sym.Assert(n != nil && at < len(have), "iterating visits accepted nodes only")
			sym.Assert(sameNode(n, have[at]), "iterating visits the accepted nodes in order")
			at++
		})
		sym.Assert(at == len(have), "iterating visits every accepted node")
		for _, h := range have {
			sym.Assert(b.Exist(tabNode(h.Id, h.Addr.Port)), "an accepted node is a member")
		}
		sym.Assert(!b.Exist(tabNode(x.Id, 9999)), "a node at another address is not a member")
		q := tabNode(tabId(sym.U8("q")), 100+i)
		sym.Assert(b.Exist(q) == holds(have, q), "membership means an accepted node")
	}
	sym.Assert(!b.Exist(nil), "nil is not a member")
}

// VH_R06_race fills a bucket from several goroutines.
//
//verif:opts weight=3 race preempt=2 tpreempt=3
func VH_R06_race() {
	c := 1 + sym.Pick("cap", sym.Bound(2, 3))
	b := NewBucket(c)
	var ok [3]bool
	var x [3]*NodeInfo
	for i := range x {
		x[i] = tabNode(tabId(byte(i+1)), 100+i)
	}
	pre := sym.Pick("pre", 2)
	if pre == 1 {
		sym.Assert(b.Add(x[2]), "a bucket accepts nodes until its capacity")
		ok[2] = true
	}
	what := sym.Pick("what", 5)
	sym.Explore(true)
	sym.Par(func() {
		ok[0] = b.Add(x[0])
	}, func() {
		ok[1] = b.Add(x[1])
	}, func() {
		switch what {
		case 0:
			if pre == 0 {
				ok[2] = b.Add(x[2])
			}
		case 1:
			for _, n := range b.All() {
				sym.Assert(n != nil, "a bucket lists the accepted nodes")
			}
		case 2:
			n := b.Size()
			sym.Assert(n >= pre && n <= c, "the size of a bucket is the number of accepted nodes")
		case 3:
			b.Iterator(func(n *NodeInfo) {
				sym.Assert(n != nil, "iterating visits accepted nodes only")
			})
		case 4:
			sym.Assert(b.Exist(x[2]) == (pre == 1), "an accepted node is a member")
			b.Full()
		}
	})
	sym.Explore(false)
	n := 0
	for i := range ok {
		if ok[i] {
			n++
		}
		sym.Assert(b.Exist(x[i]) == ok[i], "a bucket holds the accepted nodes")
	}
	tried := 2 + pre
	if what == 0 && pre == 0 {
		tried = 3
	}
	want := c
	if tried < c {
		want = tried
	}
	sym.Assert(n == want && b.Size() == want && len(b.All()) == want, "a bucket accepts nodes until its capacity")
}

// widId is the i-th of many ids that are spread over the levels of the table.
func widId(i int) string {
	b := []byte(tabLocal)
	level := i % 23
	x := uint32(i)*2654435761 + 12345
	for j := level/8 + 1; j < 20; j++ {
		x = x*1664525 + 1013904223
		b[j] ^= byte(x >> 24)
	}
	bit := byte(0x80) >> uint(level%8)
	b[level/8] ^= bit | byte(x>>16)&(bit-1)
	return string(b)
}

// widTable fills a table as far as it takes nodes.
func widTable() (t *RouteTable, have, refused []*NodeInfo) {
	host := tabNode(tabLocal, 7)
	k := []int{8, 20, 3}[sym.Pick("k", 3)]
	c := []int{160, 12}[sym.Pick("capacity", 2)]
	n := []int{60, 400}[sym.Pick("n", 2)]
	t = NewRouteTable(host, k, c)
	have = []*NodeInfo{host}
	for i := 0; i < n; i++ {
		x := tabNode(widId(i), 100+i)
		err := t.AddNode(x)
		f := t.Find(x.Id)
		sym.Assert((f != nil) == (err == nil), "AddNode reports whether the node is in the table")
		if err == nil {
			sym.Assert(sameNode(f, x), "what is found was stored")
			have = append(have, x)
		} else {
			refused = append(refused, x)
		}
		sym.Assert(t.Size() == len(have), "the size is the number of stored nodes")
	}
	return
}

// VH_R02_wide adds hundreds of nodes, the last of them anywhere.
//
//verif:opts weight=2
func VH_R02_wide() {
	t, have, refused := widTable()
	x := tabNode(tabId(sym.U8("d"), 0x55, 0x11), 99)
	if err := t.AddNode(x); err == nil {
		have = append(have, x)
	} else {
		refused = append(refused, x)
	}
	sym.Assert(t.Size() == len(have), "the size is the number of stored nodes")
	for _, h := range have {
		f := t.Find(h.Id)
		sym.Assert(f != nil && sameNode(f, h), "a stored node stays stored")
	}
	for _, r := range refused {
		sym.Assert(t.Find(r.Id) == nil, "a refused node is not stored")
	}
}

// VH_R03_wide looks up in a table of hundreds of nodes.
//
//verif:opts weight=2
func VH_R03_wide() {
	t, have, _ := widTable()
	b := []byte(have[len(have)-1-sym.Pick("whose", 3)*(len(have)/4)].Id)
	b[[]int{0, 1, 19}[sym.Pick("at", 3)]] = sym.U8("q")
	q := string(b)
	var want *NodeInfo
	for _, h := range have {
		if h.Id == q {
			want = h
		}
	}
	f := t.Find(q)
	sym.Assert((f != nil) == (want != nil), "a stored id is found, and no other")
	sym.Assert(f == nil || sameNode(f, want), "what is found was stored")
}

// VH_R04_wide asks a table of hundreds of nodes.
//
//verif:opts weight=2
func VH_R04_wide() {
	t, have, _ := widTable()
	k := []int{1, 8, 20, 100, 1000}[sym.Pick("want", 5)]
	q := tabLocal
	if sym.Pick("q", 2) == 1 {
		q = tabId(sym.U8("q"), 0x21)
	}
	stored := map[string]*NodeInfo{}
	for _, h := range have {
		stored[h.Id] = h
	}
	l := t.FindClosest(q, k)
	for _, n := range l {
		sym.Assert(n != nil && stored[n.Id] != nil && sameNode(n, stored[n.Id]), "a closest-nodes query gives stored nodes, each once")
		delete(stored, n.Id)
	}
	if q == tabLocal {
		want := k
		if len(have) < k {
			want = len(have)
		}
		sym.Assert(len(l) >= want, "a closest-nodes query about the local node gives enough nodes")
	}
}

// VH_R06_wide fills larger buckets.
func VH_R06_wide() {
	c := []int{8, 20, 64, 300}[sym.Pick("cap", 4)]
	b := NewBucket(c)
	var have []*NodeInfo
	for i := 0; i < c+3; i++ {
		x := tabNode(tabId(byte(i), byte(i>>8)), 100+i)
		if i == c-1 {
			x = tabNode(tabId(sym.U8("d"), 0xff), 100+i)
		}
		sym.Assert(b.Add(x) == (i < c), "a bucket accepts nodes until its capacity")
		if i < c {
			have = append(have, x)
		}
		sym.Assert(b.Size() == len(have), "the size of a bucket is the number of accepted nodes")
		sym.Assert(b.Full() == (len(have) == c), "a bucket is full at its capacity")
	}
	all := b.All()
	sym.Assert(len(all) == c, "a bucket lists the accepted nodes")
	at := 0
	b.Iterator(func(n *NodeInfo) {
		sym.Assert(n != nil && at < c && sameNode(n, have[at]), "iterating visits the accepted nodes in order")
		at++
	})
	sym.Assert(at == c, "iterating visits every accepted node")
	for i, h := range have {
		sym.Assert(all[i] != nil && sameNode(all[i], h), "a bucket lists the accepted nodes in order")
		sym.Assert(b.Exist(tabNode(h.Id, h.Addr.Port)), "an accepted node is a member")
	}
}
