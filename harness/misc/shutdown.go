package misc

import (
	"context"
	"sync"
	"time"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

const sdUnit = 100 * time.Millisecond

// sdCleans makes cleanups that take some time, or never end.
type sdCleans struct {
	mu     sync.Mutex
	n      int
	start  [40]int
	done   int
	last   int64
	status func() ShutdownStatus
	bad    bool
	units  []int
	hang   bool
}

func (s *sdCleans) clean(i, d int) CleanFunc {
	return func() {
		s.mu.Lock()
		s.start[i]++
		if s.status != nil && s.status() == Running {
			s.bad = true
		}
		s.mu.Unlock()
		if d < 0 {
			select {}
		}
		if d > 0 {
			time.Sleep(time.Duration(d) * sdUnit)
		}
		s.mu.Lock()
		s.done++
		s.last = sym.Clock()
		s.mu.Unlock()
	}
}

func (s *sdCleans) judge(began int64, timeout time.Duration) {
	took := time.Duration(sym.Clock() - began)
	s.mu.Lock()
	done, last := s.done, s.last
	s.mu.Unlock()
	sym.Assert(took <= timeout+sdUnit/2, "the wait returns by the timeout")
	if done == s.n {
		rest := time.Duration(0)
		if s.n > 0 && last > began {
			rest = time.Duration(last - began)
		}
		sym.Assert(took <= rest+sdUnit/2, "the wait returns when all cleanups have finished")
		sym.Reach("all finished")
	} else {
		sym.Assert(took >= timeout-sdUnit/2, "the wait does not return before the cleanups have finished")
		sym.Reach("timed out")
	}
	sym.Settle()
	s.mu.Lock()
	for i := 0; i < len(s.start); i++ {
		want := 0
		if i < s.n {
			want = 1
		}
		sym.Assert(s.start[i] == want, "every registered cleanup is started exactly once")
	}
	sym.Assert(!s.bad, "cleanups run while the status is shutting down")
	s.mu.Unlock()
}

func newCleans() *sdCleans {
	s := &sdCleans{n: sym.Pick("n", sym.Bound(3, 4))}
	for i := 0; i < s.n; i++ {
		d := []int{0, 1, 3, -1}[sym.Pick("d", 4)]
		s.hang = s.hang || d < 0
		s.units = append(s.units, d)
	}
	return s
}

// VH_S01_wait lets the signal or the cancellation come before or during the
// wait.
//
//verif:opts preempt=1 tpreempt=2 weight=3 replays=1
func VH_S01_wait() {
	inner, cancel := context.WithCancel(context.Background())
	defer cancel()
	ctx := WithShutdownContext(inner)
	s := newCleans()
	s.status = ctx.Status
	if sym.Pick("once", 2) == 0 {
		for i, d := range s.units {
			ctx.Clean(s.clean(i, d))
		}
	} else {
		var fs []CleanFunc
		for i, d := range s.units {
			fs = append(fs, s.clean(i, d))
		}
		ctx.Clean(fs...)
	}
	sym.Assert(ctx.Status() == Running, "the status is running before the shutdown")
	timeout := time.Duration([]int{2, 5}[sym.Pick("timeout", 2)]) * sdUnit
	trigger := func() {
		cancel()
	}
	if sym.Pick("signal", 2) == 1 {
		n := []int{15, 2}[sym.Pick("which", 2)]
		trigger = func() { sym.Signal(n) }
	}
	var at int64
	early := sym.Pick("early", 2) == 1
	if early {
		trigger()
		sym.Settle()
	}
	back := make(chan bool)
	sym.Explore(true)
	go func() {
		if early {
			at = sym.Clock()
		}
		ctx.WaitShutdown(timeout)
		sym.Explore(false)
		s.judge(at, timeout)
		back <- true
	}()
	if !early {
		sym.Settle()
		sym.Assert(ctx.Status() == Running, "the status is running before the shutdown")
		sym.Assert(s.start[0] == 0, "no cleanup is started before the shutdown")
		time.Sleep(2 * sdUnit)
		sym.Assert(s.start[0] == 0, "no cleanup is started before the shutdown")
		at = sym.Clock()
		trigger()
	}
	<-back
	sym.Assert(ctx.Status() == Shutdowned, "the status is shut down after the wait")
	time.Sleep(5 * sdUnit)
	sym.Assert(ctx.Status() == Shutdowned, "the status never goes back")
}

// VH_S01_status follows the status through a shutdown.
//
//verif:opts preempt=2 tpreempt=3 weight=2 replays=1
func VH_S01_status() {
	inner, cancel := context.WithCancel(context.Background())
	ctx := WithShutdownContext(inner)
	d := []int{0, 2, -1}[sym.Pick("d", 3)]
	s := &sdCleans{n: 1, units: []int{d}, status: ctx.Status}
	ctx.Clean(s.clean(0, d))
	var seen []ShutdownStatus
	stop := false
	sym.Explore(true)
	sym.Par(
		func() { cancel() },
		func() { ctx.WaitShutdown(sdUnit); stop = true },
		func() {
			for i := 0; i < 3; i++ {
				seen = append(seen, ctx.Status())
			}
		},
	)
	sym.Explore(false)
	sym.Assert(stop, "the wait returns")
	seen = append(seen, ctx.Status())
	time.Sleep(4 * sdUnit)
	seen = append(seen, ctx.Status())
	for i := 1; i < len(seen); i++ {
		sym.Assert(seen[i-1] <= seen[i], "the status never goes back")
	}
	sym.Assert(seen[len(seen)-1] == Shutdowned, "the status is shut down after the wait")
	sym.Assert(!s.bad, "cleanups run while the status is shutting down")
}

// VH_S01_default is the same through the package's own context.
//
//verif:opts weight=1 replays=1
func VH_S01_default() {
	s := newCleans()
	for i, d := range s.units {
		RegisterShutDownClean(s.clean(i, d))
	}
	timeout := 2 * sdUnit
	at := sym.Clock()
	if sym.Pick("signal", 2) == 1 {
		sym.Signal(15)
	} else {
		inner, cancel := context.WithCancel(context.Background())
		InitShutdownCtx(inner)
		cancel()
	}
	Wait4Shutdown(timeout)
	s.judge(at, timeout)
}

// VH_S01_register registers cleanups while the shutdown is awaited.
//
//verif:opts race preempt=1 tpreempt=2 weight=3 replays=1
func VH_S01_register() {
	inner, cancel := context.WithCancel(context.Background())
	ctx := WithShutdownContext(inner)
	var mu sync.Mutex
	runs := map[string]int{}
	clean := func(name string) CleanFunc {
		return func() {
			mu.Lock()
			runs[name]++
			mu.Unlock()
		}
	}
	must := []string{}
	kind := sym.Pick("kind", 3)
	if kind > 0 {
		ctx.Clean(clean("before"))
		must = append(must, "before")
	}
	two := kind == 1
	var late chan bool
	if kind == 2 {
		late = make(chan bool, 1)
	}
	took := int64(0)
	sym.Explore(true)
	sym.Par(
		func() {
			ctx.Clean(clean("mine"))
			if two {
				ctx.Clean(clean("second"), clean("third"))
			}
			mu.Lock()
			must = append(must, "mine")
			if two {
				must = append(must, "second", "third")
			}
			if late != nil {
				select {
				case <-late:
					must = append(must, "other")
				default:
				}
			}
			mu.Unlock()
			cancel()
		},
		func() {
			ctx.Clean(clean("other"))
			if late != nil {
				late <- true
			}
		},
		func() {
			at := sym.Clock()
			ctx.WaitShutdown(3 * sdUnit)
			took = sym.Clock() - at
		},
	)
	sym.Explore(false)
	sym.Settle()
	sym.Assert(time.Duration(took) <= 4*sdUnit, "the wait returns by the timeout")
	sym.Assert(ctx.Status() == Shutdowned, "the status is shut down after the wait")
	mu.Lock()
	for _, m := range must {
		sym.Assert(runs[m] == 1, "every cleanup registered before the shutdown is started exactly once")
	}
	for _, n := range runs {
		sym.Assert(n == 1, "no cleanup is started twice")
	}
	mu.Unlock()
}

// VH_S01_many registers many cleanups in groups of any size.
//
//verif:opts weight=1 replays=1
func VH_S01_many() {
	inner, cancel := context.WithCancel(context.Background())
	ctx := WithShutdownContext(inner)
	s := &sdCleans{n: []int{9, 17, 40}[sym.Pick("n", sym.Bound(2, 3))], status: ctx.Status}
	group := []int{1, 3, 8, 40}[sym.Pick("group", 4)]
	d := []int{0, 1}[sym.Pick("d", 2)]
	odd := []int{0, 3, -1}[sym.Pick("odd", 3)]
	at := sym.Pick("at", 2) * (s.n - 1)
	var fs []CleanFunc
	for i := 0; i < s.n; i++ {
		u := d
		if i == at {
			u = odd
		}
		fs = append(fs, s.clean(i, u))
		if len(fs) == group || i == s.n-1 {
			ctx.Clean(fs...)
			fs = nil
		}
	}
	ctx.Clean()
	began := sym.Clock()
	if sym.Pick("signal", 2) == 1 {
		sym.Signal([]int{15, 2}[sym.Pick("which", 2)])
	} else {
		cancel()
	}
	timeout := time.Duration([]int{2, 5}[sym.Pick("timeout", 2)]) * sdUnit
	ctx.WaitShutdown(timeout)
	s.judge(began, timeout)
	sym.Assert(ctx.Status() == Shutdowned, "the status is shut down after the wait")
	cancel()
}

// VH_S01_part hands over parts of one list and changes the list afterwards.
//
//verif:opts weight=1 replays=1
func VH_S01_part() {
	inner, cancel := context.WithCancel(context.Background())
	ctx := WithShutdownContext(inner)
	var mu sync.Mutex
	var runs [5]int
	other := 0
	var all []CleanFunc
	for i := range runs {
		i := i
		all = append(all, func() {
			mu.Lock()
			runs[i]++
			mu.Unlock()
		})
	}
	a := sym.Pick("a", 4)
	b := a + sym.Pick("b", 5-a)
	ctx.Clean(all[:a]...)
	ctx.Clean(all[a:b]...)
	for i := range all {
		all[i] = func() {
			mu.Lock()
			other++
			mu.Unlock()
		}
	}
	ctx.Clean(all[:0]...)
	cancel()
	ctx.WaitShutdown(3 * sdUnit)
	sym.Settle()
	mu.Lock()
	for i, n := range runs {
		want := 0
		if i < b {
			want = 1
		}
		sym.Assert(n == want, "the cleanups registered are started once, and no others")
	}
	sym.Assert(other == 0, "the cleanups registered are started once, and no others")
	mu.Unlock()
}
