package misc

import (
	"strconv"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

type mapOp struct {
	kind int // 0 put 1 get 2 del 3 take
	key  string
	val  int
	ok   bool
	got  interface{}
	from int64
	to   int64
}

func (o *mapOp) run(m *SyncMap, timed bool) {
	if timed {
		o.from = sym.Begin()
	}
	switch o.kind {
	case 0:
		m.Put(o.key, o.val)
	case 1:
		o.got, o.ok = m.Get(o.key)
	case 2:
		m.Del(o.key)
	case 3:
		o.got, o.ok = m.Take(o.key)
	}
	if timed {
		o.to = sym.Tick()
	}
}

// apply tells whether the sequential map would have answered as o did.
func (o *mapOp) apply(st map[string]int) bool {
	switch o.kind {
	case 0:
		st[o.key] = o.val
	case 1, 3:
		v, ok := st[o.key]
		if o.kind == 3 {
			delete(st, o.key)
		}
		if ok != o.ok {
			return false
		}
		if ok {
			g, isInt := o.got.(int)
			return isInt && g == v
		}
		return o.got == nil
	case 2:
		delete(st, o.key)
	}
	return true
}

// linear looks for an order of the operations that keeps the order of each
// thread and of operations that do not overlap.
func linear(threads [][]*mapOp, final []*mapOp, pos []int, st map[string]int) bool {
	done := true
	for t := range threads {
		if pos[t] < len(threads[t]) {
			done = false
		}
	}
	if done {
		for _, o := range final {
			if !o.apply(st) {
				return false
			}
		}
		return true
	}
	for t := range threads {
		if pos[t] >= len(threads[t]) {
			continue
		}
		o := threads[t][pos[t]]
		first := true
		for u := range threads {
			if u != t && pos[u] < len(threads[u]) && threads[u][pos[u]].to < o.from {
				first = false
			}
		}
		if !first {
			continue
		}
		nst := map[string]int{}
		for k, v := range st {
			nst[k] = v
		}
		if !o.apply(nst) {
			continue
		}
		pos[t]++
		ok := linear(threads, final, pos, nst)
		pos[t]--
		if ok {
			return true
		}
	}
	return false
}

func mapOps(nthreads, nops int) (m *SyncMap, st map[string]int, threads [][]*mapOp) {
	keys := []string{"a", "b"}
	m = NewSyncMap(4)
	st = map[string]int{}
	if sym.Pick("prefill", 2) == 1 {
		m.Put("a", 1)
		st["a"] = 1
	}
	n := 10
	for t := 0; t < nthreads; t++ {
		ops := []*mapOp{}
		for i := 0; i < nops; i++ {
			n++
			k := 0
			if t+i > 0 {
				k = sym.Pick("key", 2)
			}
			ops = append(ops, &mapOp{kind: sym.Pick("kind", 4), key: keys[k], val: n})
		}
		threads = append(threads, ops)
	}
	return
}

func runMapOps(m *SyncMap, st map[string]int, threads [][]*mapOp, timed bool) {
	sym.Explore(true)
	var fs []func()
	for _, ops := range threads {
		ops := ops
		fs = append(fs, func() {
			for _, o := range ops {
				o.run(m, timed)
			}
		})
	}
	sym.Par(fs...)
	sym.Explore(false)
	final := []*mapOp{{kind: 1, key: "a"}, {kind: 1, key: "b"}}
	for _, o := range final {
		o.run(m, false)
	}
	sym.Assert(linear(threads, final, make([]int, len(threads)), st), "the answers are those of a map in some order of the calls")
	sym.Reach("linearized")
}

// VH_M01_conc runs two threads of two calls each in every schedule.
//
//verif:opts race preempt=2 tpreempt=4 weight=4
func VH_M01_conc() {
	m, st, threads := mapOps(2, 2)
	runMapOps(m, st, threads, true)
}

// VH_M01_conc3 runs three threads of one call each in every schedule.
//
//verif:opts race preempt=2 tpreempt=5 weight=2
func VH_M01_conc3() {
	m, st, threads := mapOps(3, 1)
	runMapOps(m, st, threads, true)
}

// VH_M01_race runs the calls without any ordering between the threads but
// their own, so that unordered accesses show.
//
//verif:opts race preempt=1 weight=1
func VH_M01_race() {
	m, st, threads := mapOps(2, 1)
	runMapOps(m, st, threads, false)
}

// VH_M01_seq runs a history of calls with any keys one after another.
//
//verif:opts weight=3
func VH_M01_seq() {
	m := NewSyncMap(sym.Pick("cap", 2))
	n := sym.Bound(4, 5)
	type ent struct {
		k string
		v int
		o bool
	}
	var st []ent
	for i := 0; i < n; i++ {
		k := sym.Str("k", sym.Pick("k.len", 2))
		at := -1
		for j := range st {
			if st[j].k == k {
				at = j
			}
		}
		op := sym.Pick("op", 4)
		switch op {
		case 0:
			v := sym.Int("v")
			m.Put(k, v)
			if at >= 0 {
				st[at] = ent{k, v, true}
			} else {
				st = append(st, ent{k, v, true})
			}
		case 1:
			m.Del(k)
			if at >= 0 {
				st[at].o = false
			}
		case 2, 3:
			v, ok := m.Get(k)
			if op == 3 {
				v, ok = m.Take(k)
			}
			want := at >= 0 && st[at].o
			sym.Assert(ok == want, "Get finds exactly the stored keys")
			if want {
				sym.Assert(v.(int) == st[at].v, "Get returns the value put last")
				sym.Reach("found")
			} else {
				sym.Assert(v == nil, "an absent key has no value")
			}
			if op == 3 && at >= 0 {
				st[at].o = false
			}
		}
	}
}

// VH_M01_keys uses many and long keys.
//
//verif:opts
func VH_M01_keys() {
	base := strings.Repeat("k", []int{0, 1, 2, 4, 19, 20, 64, 255, 1000}[sym.Pick("base", 9)])
	keys := []string{base, base + "a", base + "A", base + " ", base + "\x00", base + "k"}
	for i := 0; i < 60; i++ {
		keys = append(keys, base+strconv.Itoa(i))
	}
	m := NewSyncMap([]int{0, 1, 16}[sym.Pick("capacity", 3)])
	for i, k := range keys {
		m.Put(k, i)
	}
	check := func(gone func(i int) bool) {
		for i, k := range keys {
			v, ok := m.Get(k)
			sym.Assert(ok == !gone(i), "a key is there until it is deleted")
			sym.Assert(!ok || v == i, "a get returns the latest put value")
		}
	}
	check(func(int) bool { return false })
	from := sym.Pick("from", 3)
	gone := func(i int) bool { return i%3 == from }
	for i, k := range keys {
		if gone(i) && i%2 == 0 {
			m.Del(k)
		} else if gone(i) {
			v, ok := m.Take(k)
			sym.Assert(ok && v == i, "a take returns the latest put value")
		}
	}
	check(gone)
}
