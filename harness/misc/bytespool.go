package misc

import (
	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

type poolBuf struct {
	full []byte
	held bool
	idle bool
}

// poolModel follows who owns which buffer.
type poolModel struct {
	bp   *BytesPool
	max  int
	bufs []*poolBuf
}

func (p *poolModel) find(b []byte) *poolBuf {
	for _, x := range p.bufs {
		if cap(x.full) > 0 && cap(b) > 0 && &x.full[:1][0] == &b[:1][0] {
			return x
		}
	}
	return nil
}

func (p *poolModel) get(size int, def bool) {
	var b []byte
	if def {
		b = p.bp.Get()
	} else {
		b = p.bp.GetBySize(size)
	}
	sym.Assert(len(b) == size, "a buffer has the requested length")
	if size == 0 {
		return
	}
	x := p.find(b)
	if x == nil {
		p.bufs = append(p.bufs, &poolBuf{full: b[:cap(b)], held: true})
		sym.Reach("new buffer")
		return
	}
	sym.Assert(!x.held, "a buffer has one owner")
	sym.Assert(x.idle, "a buffer is handed out once per return")
	x.held, x.idle = true, false
	sym.Reach("buffer reused")
}

func (p *poolModel) put(x *poolBuf, n int) {
	p.bp.Put(x.full[:n])
	x.held, x.idle = false, true
}

// drain takes out more buffers of a size than the pool may hold and counts
// those that were in it.
func (p *poolModel) drain(size int) {
	n := 0
	for i := 0; i < p.max+2; i++ {
		b := p.bp.GetBySize(size)
		sym.Assert(len(b) == size, "a buffer has the requested length")
		x := p.find(b)
		if x == nil {
			p.bufs = append(p.bufs, &poolBuf{full: b, held: true})
			continue
		}
		sym.Assert(!x.held, "a buffer has one owner")
		sym.Assert(x.idle, "a buffer is handed out once per return")
		x.held, x.idle = true, false
		n++
	}
	sym.Assert(n <= p.max, "the pool keeps no more buffers of a size than its bound")
	if n == p.max {
		sym.Reach("full")
	}
}

// VH_Y01_seq runs a history of gets and puts.
//
//verif:opts weight=4
func VH_Y01_seq() {
	max := 1 + sym.Pick("max", 2)
	width := sym.Range("width", 1, 2)
	p := &poolModel{bp: NewBytesPool(max, width), max: max}
	n := sym.Bound(4, 6)
	for i := 0; i < n; i++ {
		var held []*poolBuf
		for _, x := range p.bufs {
			if x.held {
				held = append(held, x)
			}
		}
		ops := 2
		if len(held) > 0 {
			ops += len(held)
		}
		op := sym.Pick("op", ops)
		switch op {
		case 0:
			p.get(width, true)
		case 1:
			p.get(sym.Range("size", 0, 3), false)
		default:
			x := held[op-2]
			short := cap(x.full)
			if short > 1 {
				short -= sym.Range("short", 0, 1)
			}
			if sym.Pick("empty", 2) == 1 {
				short = 0
			}
			p.put(x, short)
		}
	}
	for s := 1; s < 4; s++ {
		p.drain(s)
	}
}

// VH_Y01_bound returns more buffers than the pool keeps, of any sizes.
func VH_Y01_bound() {
	max := sym.Pick("max", 3)
	width := sym.Range("width", 1, 3)
	p := &poolModel{bp: NewBytesPool(max, width), max: max}
	n := max + 2
	size := sym.Range("size", 1, 3)
	for i := 0; i < n; i++ {
		if sym.Pick("own", 2) == 1 {
			p.bufs = append(p.bufs, &poolBuf{full: make([]byte, size), held: true})
		} else {
			p.get(size, false)
		}
	}
	for _, x := range p.bufs {
		p.put(x, sym.Sel(sym.Bool("short"), 0, size))
	}
	p.drain(size)
}

// useBuf is one user of the pool: it marks its buffer and expects the mark to
// stay until the buffer is returned.
func useBuf(bp *BytesPool, size int, def bool, id byte, times int) {
	for i := 0; i < times; i++ {
		var b []byte
		if def {
			b = bp.Get()
		} else {
			b = bp.GetBySize(size)
		}
		if len(b) != size {
			sym.Assert(false, "a buffer has the requested length")
		}
		b[0] = id
		bp.Put(b[:1])
		id++
	}
}

// VH_Y01_conc runs two users at the same time; a buffer with two owners shows
// as a data race on its bytes.
//
//verif:opts race preempt=3 tpreempt=5 weight=3
func VH_Y01_conc() {
	max := 1 + sym.Pick("max", 2)
	bp := NewBytesPool(max, 2)
	size := sym.Range("size", 1, 2)
	if sym.Pick("prefill", 2) == 1 {
		bp.Put(make([]byte, size))
	}
	def := sym.Pick("def", 2) == 1 && size == 2
	sym.Explore(true)
	sym.Par(
		func() { useBuf(bp, size, def, 1, 2) },
		func() { useBuf(bp, size, false, 101, 2) },
	)
	sym.Explore(false)
	p := &poolModel{bp: bp, max: max}
	for i := 0; i < max+2; i++ {
		b := bp.GetBySize(size)
		sym.Assert(len(b) == size, "a buffer has the requested length")
		sym.Assert(p.find(b) == nil, "a buffer has one owner")
		p.bufs = append(p.bufs, &poolBuf{full: b, held: true})
	}
	sym.Reach("done")
}

// VH_Y01_hold keeps both buffers at the same time.
//
//verif:opts race preempt=3 tpreempt=5 weight=3
func VH_Y01_hold() {
	bp := NewBytesPool(1+sym.Pick("max", 2), 2)
	size := sym.Range("size", 2, 3)
	for i := sym.Pick("prefill", 3); i > 0; i-- {
		bp.Put(make([]byte, size))
	}
	var a, b, c []byte
	sym.Explore(true)
	sym.Par(
		func() {
			x := bp.GetBySize(size)
			bp.Put(x)
			a = bp.GetBySize(size)
		},
		func() { b = bp.GetBySize(size) },
		func() { c = bp.GetBySize(size) },
	)
	sym.Explore(false)
	sym.Assert(len(a) == size && len(b) == size && len(c) == size, "a buffer has the requested length")
	sym.Assert(&a[0] != &b[0] && &b[0] != &c[0] && &a[0] != &c[0], "a buffer has one owner")
}
