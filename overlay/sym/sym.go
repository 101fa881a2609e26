// Package sym gives the harnesses their symbolic inputs. In the symbolic
// engine every function here is replaced; natively the inputs come from the
// file named by VERIF_INPUT, so that a solver model runs on the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/signal"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	once   sync.Once
	mu     sync.Mutex
	vals   map[string]uint64
	used   = map[string]int{}
	obsLog []string
)

func load() {
	once.Do(func() {
		vals = map[string]uint64{}
		f := os.Getenv("VERIF_INPUT")
		if f == "" {
			return
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &vals); err != nil {
			panic(err)
		}
	})
}

func val(name string) uint64 {
	load()
	mu.Lock()
	defer mu.Unlock()
	n := used[name]
	used[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return vals[name]
}

func U8(name string) uint8   { return uint8(val(name)) }
func U16(name string) uint16 { return uint16(val(name)) }
func U32(name string) uint32 { return uint32(val(name)) }
func U64(name string) uint64 { return val(name) }
func Int(name string) int    { return int(val(name)) }
func Bool(name string) bool  { return val(name)&1 == 1 }
func Fix(v int) int          { return v }
func Pick(name string, n int) int {
	return int(val(name))
}
func Range(name string, lo, hi int) int {
	v := int(val(name))
	if v < lo || v > hi {
		Assume(false)
	}
	return v
}
func Bytes(name string, n int) []byte {
	mu.Lock()
	k := "in:" + name
	c := used[k]
	used[k] = c + 1
	mu.Unlock()
	if c > 0 {
		name = fmt.Sprintf("%s@%d", name, c)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}
func Str(name string, n int) string { return string(Bytes(name, n)) }

func out(s string) {
	mu.Lock()
	defer mu.Unlock()
	f := os.Getenv("VERIF_OUT")
	if f == "" {
		fmt.Fprintln(os.Stderr, s)
		return
	}
	if fileLimit >= 0 {
		n := fileLimit
		FileLimit(-1)
		defer FileLimit(n)
	}
	h, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	fmt.Fprintln(h, s)
	h.Close()
}

func exit(code int) {
	os.Exit(code)
}

func Assume(c bool) {
	if !c {
		out("ASSUME")
		exit(0)
	}
}

func Assert(c bool, msg string) {
	if !c {
		out("VIOLATION assert " + msg)
		exit(7)
	}
}

func Fail(msg string) { Assert(false, msg) }

func Reach(string)  {}
func Known(string)  {}
func MapOrder(bool) {}
func Explore(bool)  {}

// Note records a line of the native run.
func Note(s string) { out(s) }

func Observe(label string, v interface{}) {
	out("OBS " + label + " " + show(reflect.ValueOf(&v).Elem(), 0))
}

func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

func Thorough() bool { return os.Getenv("VERIF_TIER_RUN") == "thorough" }
func Native() bool   { return true }

// Settle gives every other goroutine the time to come to rest.
func Settle() {
	d := 30 * time.Millisecond
	if os.Getenv("VERIF_SLOW") != "" {
		d = 150 * time.Millisecond
	}
	if !dOn {
		time.Sleep(d)
		return
	}
	// threads are being held up: wait for the last hold to be over
	for i := 0; i < 40; i++ {
		time.Sleep(120 * time.Millisecond)
		if !heldLately() {
			return
		}
	}
}

// Tick orders events: a smaller tick happened no later.
func Tick() int64 { return time.Now().UnixNano() }

// Begin is Tick at the start of an operation.
func Begin() int64 { return time.Now().UnixNano() }

// Caught runs f and returns what it panicked with.
func Caught(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Signal sends a signal (15 is the usual one to end a process, 2 the one of the
// keyboard) to the process itself.
func Signal(n int) { syscall.Kill(os.Getpid(), syscall.Signal(n)) }

// WriteConfig writes a configuration file.
func WriteConfig(path string, sections map[string]map[string]interface{}) {
	b, err := json.Marshal(sections)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0666); err != nil {
		panic(err)
	}
}

// BreakConfig writes a configuration file that does not parse.
func BreakConfig(path string) {
	if err := os.WriteFile(path, []byte("{\"dht\": {"), 0666); err != nil {
		panic(err)
	}
}

// ConfigState tells whether a configuration file was touched: it stays the same
// as long as the file does, and is empty when there is none.
func ConfigState(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	return "there " + string(b)
}

// OpenFiles tells how many files of the working directory are open. Files that
// were forgotten are not closed behind its back once it has been called.
func OpenFiles() int {
	debug.SetGCPercent(-1)
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, fd := range fds {
		to, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err == nil && strings.HasPrefix(to, wd+"/") && !strings.HasPrefix(to, wd+"/logs/") {
			n++
		}
	}
	return n
}

// Port returns a free UDP and TCP port of the loopback interface.
func Port() int {
	for i := 0; i < 50; i++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		p := c.LocalAddr().(*net.UDPAddr).Port
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		c.Close()
		if err == nil {
			l.Close()
			return p
		}
	}
	panic("no free port")
}

// Par runs functions concurrently and waits for all of them.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		go func(f func()) {
			f()
			wg.Done()
		}(f)
	}
	wg.Wait()
}

func Clock() int64 { return time.Now().UnixNano() }

var allocBase uint64
var allocMax int64

// AllocLimit sets the number of bytes a run may ask for from here on.
func AllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	allocBase, allocMax = ms.TotalAlloc, int64(n)
}

// AllocCheck is called by the replay driver at the end of a run.
func AllocCheck() {
	if allocMax == 0 {
		allocMax = 1 << 28
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if int64(ms.TotalAlloc-allocBase) > allocMax {
		out(fmt.Sprintf("VIOLATION alloc %d bytes", ms.TotalAlloc-allocBase))
		exit(7)
	}
}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Sel(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func Goroutines() int { return runtime.NumGoroutine() }

// OnFile has f look at the files again and again.
func OnFile(f func()) {
	go func() {
		for {
			f()
			time.Sleep(100 * time.Microsecond)
		}
	}()
}

var fileLimit = -1

// FileLimit bounds the size of the files that are written from now on: what
// does not fit is not written.
func FileLimit(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	fileLimit = n
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

var holes []net.Conn

// BlackHole gives a TCP address that never completes a connection: a
// listener whose queue is full.
func BlackHole() string {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		panic(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	a := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	for i := 0; i < 4; i++ {
		c, err := net.DialTimeout("tcp", a, 50*time.Millisecond)
		if err != nil {
			break
		}
		holes = append(holes, c)
	}
	return a
}

func Atomic(f func()) {
	atomicMu.Lock()
	defer atomicMu.Unlock()
	f()
}

var atomicMu sync.Mutex

var stdoutR, stdoutW *os.File
var stdoutCh chan string

// Stdout returns what was printed since CaptureStdout.
func CaptureStdout() {
	stdoutR, stdoutW, _ = os.Pipe()
	os.Stdout = stdoutW
	stdoutCh = make(chan string, 1)
	go func() {
		var sb strings.Builder
		buf := make([]byte, 65536)
		for {
			n, err := stdoutR.Read(buf)
			sb.Write(buf[:n])
			if err != nil {
				break
			}
		}
		stdoutCh <- sb.String()
	}()
}

func Stdout() string {
	stdoutW.Close()
	return <-stdoutCh
}

func show(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 10 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.CanInterface() {
			if _, ok := v.Interface().(error); ok {
				return "error"
			}
		}
		return show(v.Elem(), depth+1)
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.String:
		return fmt.Sprintf("%q", []byte(v.String()))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%q", v.Bytes())
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += show(v.Index(i), depth+1)
		}
		return s + "]"
	case reflect.Map:
		rows := map[string]string{}
		var ks []string
		for _, k := range v.MapKeys() {
			x := show(k, depth+1)
			rows[x] = show(v.MapIndex(k), depth+1)
			ks = append(ks, x)
		}
		sort.Strings(ks)
		s := "{"
		for i, k := range ks {
			if i > 0 {
				s += " "
			}
			s += k + ":" + rows[k]
		}
		return s + "}"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&"
	case reflect.Struct, reflect.Array:
		return "#"
	}
	return "_"
}

var (
	dOn    bool
	dHold  [1 << 14]bool
	dCount [1 << 14]int
	dMode  int // 1..3 hold the k-th visit, 4 every visit, 5 some visits, 6 jitter
	dRand  uint64
)

func init() {
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_JITTER"), &seed)
	dRand = uint64(seed)*0x9e3779b97f4a7c15 + 12345
	if h := os.Getenv("VERIF_HOLD"); h != "" {
		i := strings.IndexByte(h, ';')
		for _, x := range strings.Split(h[:i], ",") {
			n := 0
			fmt.Sscan(x, &n)
			dHold[n&(1<<14-1)] = true
		}
		dMode = map[string]int{"1": 1, "2": 2, "3": 3, "all": 4, "rnd": 5}[h[i+1:]]
	} else if seed != 0 {
		dMode = 6
	}
	dOn = dMode != 0
}

// D is a perturbation point put before a statement of the code under test
// when a schedule is replayed natively. It must not synchronise anything, so
// its own state is racy on purpose.
//
//go:norace
func D(id int) {
	if !dOn {
		return
	}
	x := dRand
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	dRand = x
	var d time.Duration
	if dMode == 6 {
		switch x % 5 {
		case 0:
			d = time.Duration(x>>8%2000) * time.Microsecond
		case 1:
			d = 1
		}
	} else if id &= 1<<14 - 1; dHold[id] {
		dCount[id]++
		c := dCount[id]
		switch {
		case dMode <= 3:
			if c == dMode {
				d = 50 * time.Millisecond
			}
		case dMode == 4:
			if c < 40 {
				d = 30 * time.Millisecond
			}
		case dMode == 5:
			if x>>20&1 == 0 && c < 40 {
				d = time.Duration(10+x>>8%40) * time.Millisecond
			}
		}
	}
	if d > 0 {
		time.Sleep(d)
		if d > time.Millisecond {
			dLast = time.Now()
		}
	}
}

// Touch accesses a buffer the kernel has accessed.
func Touch(b interface{}, write bool) {
	x, _ := b.([]byte)
	for i := range x {
		if write {
			x[i] = x[i]
		} else if x[i] == 1 {
			runtime.KeepAlive(x)
		}
	}
}

var dLast time.Time

//go:norace
func heldLately() bool { return time.Since(dLast) < 100*time.Millisecond }
