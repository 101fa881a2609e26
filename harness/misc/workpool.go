package misc

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_W01_once submits tasks from one or two goroutines to a pool of one or
// two workers. A task that runs twice, or does not see what its submitter
// wrote, shows as a wrong count or a data race.
//
//verif:opts race preempt=1 tpreempt=2 weight=4
func VH_W01_once() {
	size := sym.Fix(sym.Range("size", 1, 2))
	n1 := sym.Fix(sym.Range("n1", 1, sym.Bound(2, 3)))
	n2 := sym.Fix(sym.Range("n2", 0, sym.Bound(1, 2)))
	if n1+n2 > sym.Bound(2, 4) {
		sym.Assume(false)
	}
	pool := NewWorkPool(context.Background(), "verif", size)
	var ran, data, saw [8]int
	var wg sync.WaitGroup
	wg.Add(n1 + n2)
	submit := func(from, n int) {
		for i := from; i < from+n; i++ {
			i := i
			data[i] = i + 40
			pool.AsyncSubmit(func() {
				saw[i] = data[i]
				ran[i]++
				wg.Done()
			})
		}
	}
	sym.Explore(true)
	if n2 == 0 {
		submit(0, n1)
	} else {
		sym.Par(func() { submit(0, n1) }, func() { submit(4, n2) })
	}
	wg.Wait()
	sym.Explore(false)
	sym.Settle()
	for i := range ran {
		want := 0
		if i < n1 || i >= 4 && i < 4+n2 {
			want = 1
			sym.Assert(saw[i] == i+40, "a task sees what its submitter did")
		}
		sym.Assert(ran[i] == want, "every accepted task runs exactly once")
	}
	sym.Assert(pool.Status() == Running, "the pool keeps running")
	sym.Reach("all ran")
}

// VH_W01_width counts how many tasks run at a time.
//
//verif:opts preempt=2 tpreempt=3 weight=3
func VH_W01_width() {
	size := sym.Fix(sym.Range("size", 1, 3))
	n := sym.Bound(3, 4)
	pool := NewWorkPool(context.Background(), "verif", size)
	var cur, bad int32
	var wg sync.WaitGroup
	wg.Add(n)
	sym.Explore(true)
	for i := 0; i < n; i++ {
		pool.AsyncSubmit(func() {
			if int(atomic.AddInt32(&cur, 1)) > size {
				atomic.StoreInt32(&bad, 1)
			}
			time.Sleep(time.Millisecond)
			atomic.AddInt32(&cur, -1)
			wg.Done()
		})
	}
	wg.Wait()
	sym.Explore(false)
	sym.Assert(bad == 0, "no more tasks at a time than workers")
	sym.Reach("all ran")
}

// VH_W01_slow submits more than the pool can take while its tasks run long.
//
//verif:opts weight=1 replays=1 timeout=150
func VH_W01_slow() {
	size := sym.Fix(sym.Range("size", 1, 2))
	pool := NewWorkPool(context.Background(), "verif", size)
	d := []time.Duration{0, time.Second, 12 * time.Second, 31 * time.Second}[sym.Pick("d", 4)]
	n := 2*size + 1 + sym.Pick("n", 2)
	two := sym.Pick("two", 2) == 1
	ran := make([]int32, n)
	submit := func(from, step int) {
		for i := from; i < n; i += step {
			i := i
			pool.AsyncSubmit(func() {
				time.Sleep(d)
				atomic.AddInt32(&ran[i], 1)
			})
		}
	}
	if two {
		sym.Par(func() { submit(0, 2) }, func() { submit(1, 2) })
	} else {
		submit(0, 1)
	}
	time.Sleep(time.Duration(n+1)*d + time.Second)
	for i := range ran {
		sym.Assert(atomic.LoadInt32(&ran[i]) == 1, "every accepted task runs exactly once")
	}
}

// VH_W01_later submits again after the pool was idle, and from a task.
//
//verif:opts preempt=2 tpreempt=3 weight=2
func VH_W01_later() {
	size := sym.Fix(sym.Range("size", 1, 2))
	pool := NewWorkPool(context.Background(), "verif", size)
	var n int32
	first := make(chan bool)
	sym.Explore(true)
	pool.AsyncSubmit(func() { atomic.AddInt32(&n, 1); first <- true })
	<-first
	second := make(chan bool)
	pool.AsyncSubmit(func() {
		atomic.AddInt32(&n, 10)
		pool.AsyncSubmit(func() { atomic.AddInt32(&n, 100); second <- true })
	})
	<-second
	sym.Explore(false)
	sym.Settle()
	sym.Assert(atomic.LoadInt32(&n) == 111, "every accepted task runs exactly once")
}

const poolUnit = 100 * time.Millisecond

func afterShutdown(pool *WorkPool, base int) {
	sym.Assert(pool.Status() == Shutdowned, "the pool is shut down")
	for i := 0; i < 2; i++ {
		ran := false
		p := sym.Caught(func() { pool.AsyncSubmit(func() { ran = true }) })
		sym.Assert(p != nil, "submitting to a shut down pool panics")
		sym.Settle()
		sym.Assert(!ran, "a refused task does not run")
	}
	t := sym.Clock()
	pool.Shutdown(time.Hour)
	sym.Assert(sym.Clock()-t < int64(poolUnit/2), "a second shutdown returns at once")
	sym.Assert(pool.Status() == Shutdowned, "the pool is shut down")
	sym.Assert(sym.Goroutines() <= base, "no worker keeps running")
}

// VH_W02_direct shuts a pool down that has tasks running and queued.
//
//verif:opts weight=4 preempt=1 tpreempt=2 replays=4
func VH_W02_direct() {
	size := sym.Fix(sym.Range("size", 1, 2))
	base := sym.Goroutines()
	pool := NewWorkPool(context.Background(), "verif", size)
	n := sym.Fix(sym.Range("n", 0, sym.Bound(3, 4)))
	var ran [4]int
	var mu sync.Mutex
	left := n
	last := sym.Clock()
	unit := poolUnit
	timeout := time.Duration([]int{0, 2, 5}[sym.Pick("timeout", 3)]) * unit
	for i := 0; i < n; i++ {
		i := i
		d := time.Duration([]int{0, 1, 3}[sym.Pick("d", 3)]) * unit
		pool.AsyncSubmit(func() {
			if d > 0 {
				time.Sleep(d)
			}
			mu.Lock()
			ran[i]++
			left--
			last = sym.Clock()
			mu.Unlock()
		})
	}
	sym.Explore(true)
	start := sym.Clock()
	pool.Shutdown(timeout)
	took := time.Duration(sym.Clock() - start)
	sym.Explore(false)
	sym.Assert(pool.Status() == Shutdowned, "the pool is shut down")
	mu.Lock()
	l, end := left, last
	mu.Unlock()
	sym.Assert(took <= timeout+unit/2, "shutdown returns by the timeout")
	if l == 0 {
		rest := time.Duration(end - start)
		if rest < 0 {
			rest = 0
		}
		sym.Assert(took <= rest+unit/2, "shutdown returns as soon as the tasks have finished")
		sym.Reach("finished")
	} else {
		sym.Assert(took >= timeout-unit/2, "shutdown does not return before the tasks have finished")
		sym.Reach("timed out")
	}
	time.Sleep(14 * unit)
	mu.Lock()
	for i := 0; i < n; i++ {
		sym.Assert(ran[i] == 1, "a task accepted before the shutdown runs exactly once")
	}
	mu.Unlock()
	afterShutdown(pool, base)
}

// VH_W02_concurrent shuts a pool down from two places at the same time, one
// of which may be the cancelled context.
//
//verif:opts race weight=4 preempt=1 tpreempt=2 replays=2
func VH_W02_concurrent() {
	size := sym.Fix(sym.Range("size", 1, sym.Bound(1, 2)))
	base := sym.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	pool := NewWorkPool(ctx, "verif", size)
	sym.Settle()
	n := sym.Fix(sym.Range("n", 0, sym.Bound(1, 2)))
	var ran int32
	for i := 0; i < n; i++ {
		pool.AsyncSubmit(func() { atomic.AddInt32(&ran, 1) })
	}
	how := sym.Pick("how", 2)
	sym.Explore(true)
	if how == 0 {
		sym.Par(func() { pool.Shutdown(5 * time.Second) }, func() { pool.Shutdown(5 * time.Second) })
	} else {
		sym.Par(func() { cancel() }, func() { pool.Shutdown(5 * time.Second) })
	}
	sym.Explore(false)
	sym.Settle()
	cancel()
	sym.Settle()
	sym.Assert(int(atomic.LoadInt32(&ran)) == n, "a task accepted before the shutdown runs exactly once")
	afterShutdown(pool, base)
}

// VH_W02_second shuts a pool down again while the first shutdown still waits.
//
//verif:opts preempt=1 tpreempt=2 replays=2
func VH_W02_second() {
	base := sym.Goroutines()
	pool := NewWorkPool(context.Background(), "verif", 1)
	sym.Settle()
	busy := time.Duration([]int{5, 40}[sym.Pick("busy", 2)]) * poolUnit
	for i := 0; i < sym.Bound(1, 2); i++ {
		pool.AsyncSubmit(func() { time.Sleep(busy) })
	}
	first := time.Duration([]int{3, 20, 60}[sym.Pick("first", 3)]) * poolUnit
	next := time.Duration([]int{0, 10, 70}[sym.Pick("next", 3)]) * poolUnit
	go pool.Shutdown(first)
	time.Sleep(poolUnit)
	sym.Assert(sym.Caught(func() { pool.AsyncSubmit(func() {}) }) != nil, "submitting to a pool being shut down panics")
	for i := 0; i < 2; i++ {
		t := sym.Clock()
		pool.Shutdown(next)
		sym.Assert(sym.Clock()-t < int64(poolUnit/2), "a second shutdown returns at once")
	}
	time.Sleep(100 * poolUnit)
	afterShutdown(pool, base)
}

// VH_W02_cancel shuts a pool down by cancelling its context.
//
//verif:opts weight=3 preempt=1 tpreempt=2 replays=4
func VH_W02_cancel() {
	size := sym.Fix(sym.Range("size", 1, 2))
	base := sym.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	pool := NewWorkPool(ctx, "verif", size)
	n := sym.Fix(sym.Range("n", 0, sym.Bound(2, 3)))
	d := time.Duration([]int{0, 3, 30}[sym.Pick("d", 3)]) * poolUnit
	var ran int32
	for i := 0; i < n; i++ {
		pool.AsyncSubmit(func() {
			if d > 0 {
				time.Sleep(d)
			}
			atomic.AddInt32(&ran, 1)
		})
	}
	sym.Explore(true)
	cancel()
	sym.Settle()
	sym.Explore(false)
	time.Sleep(poolUnit)
	if d == 0 || n == 0 {
		sym.Assert(pool.Status() == Shutdowned, "a cancelled pool is shut down as soon as its tasks have finished")
	} else {
		sym.Assert(sym.Caught(func() { pool.AsyncSubmit(func() {}) }) != nil, "submitting to a cancelled pool panics")
	}
	time.Sleep(21 * poolUnit)
	sym.Assert(pool.Status() == Shutdowned, "a cancelled pool is shut down by its timeout")
	time.Sleep(75 * poolUnit)
	sym.Assert(int(atomic.LoadInt32(&ran)) == n, "a task accepted before the cancellation runs exactly once")
	afterShutdown(pool, base)
	sym.Reach("cancelled")
}
