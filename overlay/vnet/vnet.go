// Package vnet is the network and file system the symbolic engine gives the
// code under test: calls of net and os are redirected here. It is never used
// natively (there the harnesses run on loopback sockets and a scratch
// directory).
package vnet

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"strconv"
	"syscall"
	"time"
)

// operr is an error as package net reports it.
func operr(op, network string, src, dst net.Addr, err error) error {
	if e, ok := err.(syscall.Errno); ok {
		name := map[string]string{"dial": "connect", "listen": "bind"}[op]
		if name == "" {
			name = op
		}
		if network == "udp" && op == "write" {
			name = "sendto"
		}
		err = &os.SyscallError{Syscall: name, Err: e}
	}
	return &net.OpError{Op: op, Net: network, Source: src, Addr: dst, Err: err}
}

// ---- registry (replaced by the engine)

func bind(obj interface{}, v interface{}) {}
func find(obj interface{}) interface{}    { return nil }

// state of one run
type world struct {
	nextPort  int
	listeners map[string]*listener
	udp       []*udpSock
	holes     map[string]bool
	files     map[string]*vfile
	dirs      map[string]bool
	deny      map[string]os.FileMode // the permissions the owner of a directory lacks
	Sent      []Dgram
	watch     func() // looks at the files before each change of them
	watching  bool
	limit     int // size no file can outgrow, plus one
	temps     int
	open      int // files that are open
}

// mark notes the place of a change of a file in the schedule (replaced by the
// engine).
func mark() {}

// OpenFiles tells how many files are open.
func OpenFiles() int { return get().open }

// OnFile has f look at the files between any two changes of them.
func OnFile(f func()) { get().watch = f }

// FileLimit bounds the size of the files that are written from now on.
func FileLimit(n int) { get().limit = n + 1 }

func (w *world) change() {
	if w.watch == nil || w.watching {
		return
	}
	mark()
	w.watching = true
	w.watch()
	w.watching = false
}

type Dgram struct {
	From, To *net.UDPAddr
	B        []byte
}

func get() *world {
	if w, ok := find("world").(*world); ok {
		return w
	}
	w := &world{nextPort: 40000, listeners: map[string]*listener{}, files: map[string]*vfile{}, dirs: map[string]bool{".": true, "/tmp": true, "conf": !vipFresh()}}
	bind("world", w)
	return w
}

// ---- TCP

type pipe struct {
	ch   chan []byte
	wcl  chan struct{} // writer closed
	rcl  chan struct{} // reader closed
	rest []byte
}

type Conn struct {
	in, out      *pipe
	local, remot *net.TCPAddr
	rd           time.Time
	closed       bool
}

// xfer and dup move bytes from and to buffers of the code under test.
func xfer(to, from []byte) int { return copy(to, from) }
func dup(b []byte) []byte      { return append([]byte(nil), b...) }

func newPipe() *pipe {
	return &pipe{ch: make(chan []byte, 4096), wcl: make(chan struct{}), rcl: make(chan struct{})}
}

func (c *Conn) Read(b []byte) (int, error) {
	p := c.in
	if c.closed {
		return 0, c.err("read", net.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.rest) == 0 {
		select {
		case p.rest = <-p.ch:
		default:
			var tc <-chan time.Time
			if !c.rd.IsZero() {
				d := time.Until(c.rd)
				if d <= 0 {
					return 0, c.err("read", os.ErrDeadlineExceeded)
				}
				t := time.NewTimer(d)
				defer t.Stop()
				tc = t.C
			}
			select {
			case p.rest = <-p.ch:
			case <-p.wcl:
				select {
				case p.rest = <-p.ch:
				default:
					return 0, io.EOF
				}
			case <-p.rcl:
				return 0, c.err("read", net.ErrClosed)
			case <-tc:
				return 0, c.err("read", os.ErrDeadlineExceeded)
			}
		}
	}
	n := xfer(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, c.err("write", net.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	c.out.ch <- dup(b)
	return len(b), nil
}

func (c *Conn) Close() error {
	if c.closed {
		return c.err("close", net.ErrClosed)
	}
	c.closed = true
	close(c.out.wcl)
	close(c.in.rcl)
	return nil
}

func (c *Conn) err(op string, err error) error { return operr(op, "tcp", c.local, c.remot, err) }

func (c *Conn) LocalAddr() net.Addr                { return c.local }
func (c *Conn) RemoteAddr() net.Addr               { return c.remot }
func (c *Conn) SetDeadline(t time.Time) error      { c.rd = t; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rd = t; return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

type listener struct {
	addr *net.TCPAddr
	q    chan *Conn
	cl   chan struct{}
	down bool
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.q:
		return c, nil
	case <-l.cl:
		return nil, operr("accept", "tcp", nil, l.addr, net.ErrClosed)
	}
}
func (l *listener) Close() error {
	if !l.down {
		l.down = true
		close(l.cl)
		delete(get().listeners, l.addr.String())
	}
	return nil
}
func (l *listener) Addr() net.Addr { return l.addr }

func Listen(network, address string) (net.Listener, error) {
	w := get()
	host, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, _ := strconv.Atoi(ps)
	if port == 0 {
		w.nextPort++
		port = w.nextPort
	}
	ip := net.ParseIP(host)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	if a := (&net.TCPAddr{IP: ip, Port: port}); w.listeners[a.String()] != nil {
		return nil, operr("listen", network, nil, a, syscall.EADDRINUSE)
	}
	l := &listener{addr: &net.TCPAddr{IP: ip, Port: port}, q: make(chan *Conn, 16), cl: make(chan struct{})}
	w.listeners[l.addr.String()] = l
	return l, nil
}

// HTTP servers: they listen and keep the connections, and answer nothing.

type httpState struct {
	pats map[string]bool
	ls   []net.Listener
	shut bool
}

func httpOf(x interface{}) *httpState {
	if h, ok := find(x).(*httpState); ok {
		return h
	}
	h := &httpState{pats: map[string]bool{}}
	bind(x, h)
	return h
}

func HTTPHandle(m *http.ServeMux, pattern string, h http.Handler) { httpPattern(m, pattern) }

func HTTPHandleFunc(m *http.ServeMux, pattern string, f func(http.ResponseWriter, *http.Request)) {
	httpPattern(m, pattern)
}

func httpPattern(m *http.ServeMux, pattern string) {
	h := httpOf(m)
	if pattern == "" {
		panic("http: invalid pattern")
	}
	if h.pats[pattern] {
		panic("http: multiple registrations for " + pattern)
	}
	h.pats[pattern] = true
}

func HTTPServerListen(s *http.Server) error {
	addr := s.Addr
	if addr == "" {
		addr = ":80"
	}
	if httpOf(s).shut {
		return http.ErrServerClosed
	}
	l, err := Listen("tcp", addr)
	if err != nil {
		return err
	}
	return HTTPServe(s, l)
}

func HTTPServe(s *http.Server, l net.Listener) error {
	h := httpOf(s)
	h.ls = append(h.ls, l)
	for {
		if _, err := l.Accept(); err != nil {
			if h.shut {
				return http.ErrServerClosed
			}
			return err
		}
	}
}

func HTTPClose(s *http.Server) error {
	h := httpOf(s)
	h.shut = true
	for _, l := range h.ls {
		l.Close()
	}
	h.ls = nil
	return nil
}

func HTTPShutdown(s *http.Server, ctx context.Context) error { return HTTPClose(s) }

func HTTPListenAndServe(addr string, h http.Handler) error {
	return HTTPServerListen(&http.Server{Addr: addr, Handler: h})
}

func Dial(network, address string) (net.Conn, error) {
	return DialTimeout(network, address, 0)
}

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	w := get()
	if w.holes[address] {
		if timeout <= 0 {
			select {}
		}
		time.Sleep(timeout)
		return nil, operr("dial", network, nil, tcpAddr(address), os.ErrDeadlineExceeded)
	}
	l := w.listeners[address]
	if l == nil {
		a := tcpAddr(address)
		if a == nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: &net.AddrError{Err: "invalid address", Addr: address}}
		}
		return nil, operr("dial", network, nil, a, syscall.ECONNREFUSED)
	}
	a, b := newPipe(), newPipe()
	w.nextPort++
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: w.nextPort}
	c := &Conn{in: a, out: b, local: la, remot: l.addr}
	s := &Conn{in: b, out: a, local: l.addr, remot: la}
	l.q <- s
	return c, nil
}

func tcpAddr(s string) net.Addr {
	host, ps, err := net.SplitHostPort(s)
	if err != nil {
		return nil
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return nil
	}
	return &net.TCPAddr{IP: net.ParseIP(host), Port: port}
}

// BlackHole gives an address that never completes a connection.
func BlackHole() string {
	w := get()
	w.nextPort++
	a := "127.0.0.1:" + strconv.Itoa(w.nextPort)
	if w.holes == nil {
		w.holes = map[string]bool{}
	}
	w.holes[a] = true
	return a
}

func DialerDial(d *net.Dialer, network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}
func DialerDialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

// ---- UDP

type udpSock struct {
	q    chan Dgram
	cl   chan struct{}
	down bool
	addr *net.UDPAddr
	rd   time.Time
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	host, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: address}
	}
	a := &net.UDPAddr{Port: port}
	if host != "" {
		a.IP = net.ParseIP(host)
		if a.IP == nil {
			if host == "localhost" {
				a.IP = net.IPv4(127, 0, 0, 1)
			} else {
				return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
			}
		}
		if network == "udp4" {
			a.IP = a.IP.To4()
			if a.IP == nil {
				return nil, &net.AddrError{Err: "no suitable address found", Addr: host}
			}
		}
	}
	return a, nil
}

func ListenUDP(network string, laddr *net.UDPAddr) (*net.UDPConn, error) {
	w := get()
	a := &net.UDPAddr{}
	if laddr != nil {
		a.IP, a.Port = laddr.IP, laddr.Port
	}
	if a.Port == 0 {
		w.nextPort++
		a.Port = w.nextPort
	}
	if a.IP == nil {
		a.IP = net.IPv6unspecified
	}
	for _, o := range w.udp {
		if o.addr.Port == a.Port && (o.addr.IP.IsUnspecified() || a.IP.IsUnspecified() || o.addr.IP.Equal(a.IP)) {
			return nil, operr("listen", network, nil, a, syscall.EADDRINUSE)
		}
	}
	s := &udpSock{q: make(chan Dgram, 4096), cl: make(chan struct{}), addr: a}
	w.udp = append(w.udp, s)
	u := new(net.UDPConn)
	bind(u, s)
	return u, nil
}

// at tells whether a datagram to ip reaches the socket.
func (s *udpSock) at(ip net.IP) bool {
	if s.addr.IP.IsUnspecified() {
		return true
	}
	if len(ip) == 0 || ip.IsUnspecified() {
		return s.addr.IP.Equal(net.IPv4(127, 0, 0, 1))
	}
	return s.addr.IP.Equal(ip)
}

func (s *udpSock) err(op string, to *net.UDPAddr, err error) error {
	if to == nil {
		return operr(op, "udp", s.addr, nil, err)
	}
	return operr(op, "udp", s.addr, to, err)
}

func sock(c *net.UDPConn) *udpSock {
	s, _ := find(c).(*udpSock)
	return s
}

func UDPReadFrom(c *net.UDPConn, b []byte) (int, *net.UDPAddr, error) {
	s := sock(c)
	if s == nil {
		return 0, nil, syscall.EINVAL
	}
	if s.down {
		return 0, nil, s.err("read", nil, net.ErrClosed)
	}
	var tc <-chan time.Time
	if !s.rd.IsZero() {
		d := time.Until(s.rd)
		if d <= 0 {
			return 0, nil, s.err("read", nil, os.ErrDeadlineExceeded)
		}
		t := time.NewTimer(d)
		defer t.Stop()
		tc = t.C
	}
	select {
	case d := <-s.q:
		n := xfer(b, d.B)
		return n, d.From, nil
	case <-s.cl:
		return 0, nil, s.err("read", nil, net.ErrClosed)
	case <-tc:
		return 0, nil, s.err("read", nil, os.ErrDeadlineExceeded)
	}
}

func UDPReadFromAddr(c *net.UDPConn, b []byte) (int, net.Addr, error) {
	n, a, err := UDPReadFrom(c, b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

func UDPWriteTo(c *net.UDPConn, b []byte, addr *net.UDPAddr) (int, error) {
	s := sock(c)
	if s == nil {
		return 0, syscall.EINVAL
	}
	if addr == nil {
		return 0, s.err("write", nil, errors.New("missing address"))
	}
	if s.down {
		return 0, s.err("write", addr, net.ErrClosed)
	}
	if addr.Port == 0 || addr.Port < 0 || addr.Port > 65535 {
		return 0, s.err("write", addr, syscall.EINVAL)
	}
	if n := len(addr.IP); n != 0 && n != 4 && n != 16 {
		return 0, s.err("write", addr, &net.AddrError{Err: "non-IPv4 address", Addr: "?"})
	}
	if len(b) > 65507 {
		return 0, s.err("write", addr, syscall.EMSGSIZE)
	}
	w := get()
	from := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: s.addr.Port}
	if len(s.addr.IP) != 0 && !s.addr.IP.IsUnspecified() {
		from.IP = s.addr.IP
	} else if len(addr.IP) == 16 && addr.IP.To4() == nil {
		from.IP = net.IPv6loopback
	}
	d := Dgram{From: from, To: addr, B: dup(b)}
	w.Sent = append(w.Sent, d)
	if len(addr.IP) == 0 || addr.IP.IsLoopback() || addr.IP.IsUnspecified() {
		for _, t := range w.udp {
			if t.addr.Port == addr.Port && t.at(addr.IP) {
				select {
				case t.q <- d:
				default:
				}
				break
			}
		}
	}
	return len(b), nil
}

func UDPWriteToAddr(c *net.UDPConn, b []byte, addr net.Addr) (int, error) {
	a, _ := addr.(*net.UDPAddr)
	return UDPWriteTo(c, b, a)
}

func UDPClose(c *net.UDPConn) error {
	s := sock(c)
	if s == nil {
		return syscall.EINVAL
	}
	if s.down {
		return s.err("close", nil, net.ErrClosed)
	}
	s.down = true
	close(s.cl)
	w := get()
	for i, o := range w.udp {
		if o == s {
			w.udp = append(w.udp[:i:i], w.udp[i+1:]...)
			break
		}
	}
	return nil
}

func UDPSetReadDeadline(c *net.UDPConn, t time.Time) error {
	s := sock(c)
	if s == nil {
		return syscall.EINVAL
	}
	s.rd = t
	return nil
}

func UDPLocalAddr(c *net.UDPConn) net.Addr {
	s := sock(c)
	if s == nil {
		return nil
	}
	return s.addr
}

// ---- files

type vfile struct {
	data []byte
	full bool        // a device without room
	deny os.FileMode // the permissions the owner lacks
}

type handle struct {
	name string
	f    *vfile
	off  int
	down bool
	app  bool
	nord bool // not open for reading
	nowr bool // not open for writing
}

func clean(p string) string {
	for len(p) > 2 && p[:2] == "./" {
		p = p[2:]
	}
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	return p
}

func parent(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			if i == 0 {
				return "/"
			}
			return p[:i]
		}
	}
	return "."
}

// missing is why there is nothing under a name.
func missing(name string) error {
	for p := parent(clean(name)); p != "." && p != "/" && p != ""; p = parent(p) {
		if get().files[p] != nil {
			return syscall.ENOTDIR
		}
	}
	return syscall.ENOENT
}

func perr(op, name string, err error) error { return &os.PathError{Op: op, Path: name, Err: err} }

// denied tells that a directory on the way to a name cannot be passed, or,
// for a change of the directory that holds it, not be written.
func denied(name string, change bool) bool {
	d := get().deny
	if len(d) == 0 {
		return false
	}
	for p, first := parent(clean(name)), true; p != "." && p != "/" && p != ""; p, first = parent(p), false {
		if d[p]&0100 != 0 || first && change && d[p]&0200 != 0 {
			return true
		}
	}
	return false
}

func setMode(name string, perm os.FileMode) {
	w := get()
	if f := w.files[name]; f != nil {
		f.deny = ^perm & 0700
		return
	}
	if ^perm&0700 != 0 {
		if w.deny == nil {
			w.deny = map[string]os.FileMode{}
		}
		w.deny[name] = ^perm & 0700
	} else if w.deny != nil {
		delete(w.deny, name)
	}
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	w := get()
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		w.change()
	}
	name = clean(name)
	f := w.files[name]
	if w.dirs[name] && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if denied(name, f == nil && flag&os.O_CREATE != 0) {
		return nil, perr("open", name, syscall.EACCES)
	}
	acc := flag & (os.O_WRONLY | os.O_RDWR)
	if f != nil && (f.deny&0400 != 0 && acc != os.O_WRONLY || f.deny&0200 != 0 && (acc != 0 || flag&os.O_TRUNC != 0)) {
		return nil, perr("open", name, syscall.EACCES)
	}
	if f == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, missing(name))
		}
		if !w.dirs[parent(name)] {
			return nil, perr("open", name, missing(name))
		}
		f = &vfile{deny: ^perm & 0700}
		w.files[name] = f
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	} else if flag&os.O_TRUNC != 0 {
		f.data = nil
	}
	h := new(os.File)
	w.open++
	bind(h, &handle{name: name, f: f, app: flag&os.O_APPEND != 0, nord: acc == os.O_WRONLY, nowr: acc == 0})
	return h, nil
}

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func CreateTemp(dir, pattern string) (*os.File, error) {
	w := get()
	w.temps++
	if dir == "" {
		dir = "/tmp"
	}
	pre, post := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, post = pattern[:i], pattern[i+1:]
			break
		}
	}
	return OpenFile(dir+"/"+pre+strconv.Itoa(1000000+w.temps)+post, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func hnd(f *os.File) *handle {
	if f == nil {
		return nil
	}
	h, _ := find(f).(*handle)
	return h
}

// printed takes what is written to the standard output (replaced by the engine).
func printed(b []byte) {}

func FileWrite(f *os.File, b []byte) (int, error) {
	h := hnd(f)
	if h == nil && f != nil && f == os.Stdout {
		printed(b)
		return len(b), nil
	}
	if h == nil && f != nil && f == os.Stderr {
		return len(b), nil
	}
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.down {
		return 0, perr("write", h.name, os.ErrClosed)
	}
	if h.nowr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if h.f.full && len(b) > 0 {
		return 0, perr("write", h.name, syscall.ENOSPC)
	}
	w := get()
	w.change()
	if h.app {
		h.off = len(h.f.data)
	}
	var err error
	if w.limit > 0 && h.off+len(b) > w.limit-1 {
		n := w.limit - 1 - h.off
		if n < 0 {
			n = 0
		}
		b, err = b[:n], perr("write", h.name, syscall.EFBIG)
		if n == 0 {
			return 0, err
		}
	}
	for len(h.f.data) < h.off {
		h.f.data = append(h.f.data, 0)
	}
	d := append([]byte(nil), h.f.data[:h.off]...)
	d = append(d, dup(b)...)
	if len(h.f.data) > len(d) {
		d = append(d, h.f.data[len(d):]...)
	}
	h.f.data = d
	h.off += len(b)
	return len(b), err
}

func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h := hnd(f)
	if h == nil {
		return 0, os.ErrInvalid
	}
	was, app := h.off, h.app
	h.off, h.app = int(off), false
	n, err := FileWrite(f, b)
	h.off, h.app = was, app
	return n, err
}

func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h := hnd(f)
	if h == nil {
		return 0, os.ErrInvalid
	}
	switch whence {
	case 1:
		off += int64(h.off)
	case 2:
		off += int64(len(h.f.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, os.ErrInvalid)
	}
	h.off = int(off)
	return off, nil
}

func FileTruncate(f *os.File, n int64) error {
	h := hnd(f)
	if h == nil {
		return os.ErrInvalid
	}
	get().change()
	d := make([]byte, int(n))
	xfer(d, h.f.data)
	h.f.data = d
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return FileTruncate(f, n)
}

// FileReadFrom is what io.Copy to a file calls.
func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b := make([]byte, 32768)
	t := int64(0)
	for {
		n, err := r.Read(b)
		if n > 0 {
			n, werr := FileWrite(f, b[:n])
			t += int64(n)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func FileStat(f *os.File) (os.FileInfo, error) {
	h := hnd(f)
	if h == nil {
		return nil, os.ErrInvalid
	}
	return info{base(h.name), int64(len(h.f.data)), false}, nil
}

func FileChmod(f *os.File, perm os.FileMode) error {
	h := hnd(f)
	if h == nil {
		return os.ErrInvalid
	}
	h.f.deny = ^perm & 0700
	return nil
}

func Chmod(name string, perm os.FileMode) error {
	_, err := Stat(name)
	if err == nil {
		setMode(clean(name), perm)
	}
	return err
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileRead(f *os.File, b []byte) (int, error) {
	h := hnd(f)
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.down {
		return 0, perr("read", h.name, os.ErrClosed)
	}
	if h.nord {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.f.data) {
		return 0, io.EOF
	}
	n := xfer(b, h.f.data[h.off:])
	h.off += n
	return n, nil
}

func FileClose(f *os.File) error {
	h := hnd(f)
	if h == nil {
		return os.ErrInvalid
	}
	if h.down {
		return perr("close", h.name, os.ErrClosed)
	}
	h.down = true
	get().open--
	return nil
}

func FileSync(f *os.File) error { return nil }
func FileName(f *os.File) string {
	if h := hnd(f); h != nil {
		return h.name
	}
	return ""
}

func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, b)
	FileClose(f)
	return err
}

// Symlink only knows the device without room.
func Symlink(to, name string) error {
	w := get()
	name = clean(name)
	if to != "/dev/full" || !w.dirs[parent(name)] || w.files[name] != nil {
		return perr("symlink", name, os.ErrInvalid)
	}
	w.files[name] = &vfile{full: true}
	return nil
}

// ReadDir lists a directory by name.
func ReadDir(name string) ([]os.DirEntry, error) {
	l, err := IoReadDir(name)
	var r []os.DirEntry
	for _, i := range l {
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, err
}

// IoReadDir lists a directory by name.
func IoReadDir(name string) ([]os.FileInfo, error) {
	w := get()
	name = clean(name)
	if denied(name, false) || w.deny[name]&0400 != 0 {
		return nil, perr("open", name, syscall.EACCES)
	}
	if !w.dirs[name] {
		return nil, perr("open", name, missing(name))
	}
	var l []os.FileInfo
	add := func(n string, size int64, dir bool) {
		i := len(l)
		l = append(l, nil)
		for i > 0 && l[i-1].Name() > n {
			l[i] = l[i-1]
			i--
		}
		l[i] = info{n, size, dir}
	}
	for n, f := range w.files {
		if parent(n) == name {
			add(base(n), int64(len(f.data)), false)
		}
	}
	for n := range w.dirs {
		if n != name && parent(n) == name {
			add(base(n), 0, true)
		}
	}
	return l, nil
}

func base(n string) string {
	if p := parent(n); p != "." && p != "/" {
		return n[len(p)+1:]
	} else if p == "/" {
		return n[1:]
	}
	return n
}

func ReadFile(name string) ([]byte, error) {
	w := get()
	f := w.files[clean(name)]
	if denied(name, false) || f != nil && f.deny&0400 != 0 {
		return nil, perr("open", name, syscall.EACCES)
	}
	if f == nil {
		return nil, perr("open", name, missing(name))
	}
	return append([]byte(nil), f.data...), nil
}

func MkdirAll(name string, perm os.FileMode) error {
	w := get()
	name = clean(name)
	for i := 0; i < len(name); i++ {
		if name[i] == '/' && i > 0 {
			w.dirs[name[:i]] = true
		}
	}
	w.dirs[name] = true
	return nil
}

func Mkdir(name string, perm os.FileMode) error {
	w := get()
	name = clean(name)
	if w.dirs[name] || w.files[name] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if !w.dirs[parent(name)] {
		return perr("mkdir", name, missing(name))
	}
	if denied(name, true) {
		return perr("mkdir", name, syscall.EACCES)
	}
	w.dirs[name] = true
	setMode(name, perm)
	return nil
}

func Remove(name string) error {
	w := get()
	w.change()
	name = clean(name)
	if denied(name, true) {
		return perr("remove", name, syscall.EACCES)
	}
	if w.dirs[name] {
		for n := range w.files {
			if parent(n) == name {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
		for n := range w.dirs {
			if n != name && parent(n) == name {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
		delete(w.dirs, name)
		setMode(name, 0777)
		return nil
	}
	if w.files[name] == nil && vipHas(name) {
		vipDel(name)
		return nil
	}
	if w.files[name] == nil {
		return perr("remove", name, missing(name))
	}
	delete(w.files, name)
	return nil
}

func RemoveAll(name string) error {
	w := get()
	name = clean(name)
	for n := range w.files {
		if n == name || len(n) > len(name) && n[:len(name)+1] == name+"/" {
			delete(w.files, n)
		}
	}
	for n := range w.dirs {
		if n == name || len(n) > len(name) && n[:len(name)+1] == name+"/" {
			delete(w.dirs, n)
		}
	}
	return nil
}

// Link makes a second name of a file.
func Link(a, b string) error {
	w := get()
	w.change()
	a, b = clean(a), clean(b)
	f := w.files[a]
	if denied(a, false) || denied(b, true) {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EACCES}
	}
	if f == nil || !w.dirs[parent(b)] {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: missing(a)}
	}
	if w.dirs[b] || w.files[b] != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	w.files[b] = f
	return nil
}

func Rename(a, b string) error {
	w := get()
	w.change()
	a, b = clean(a), clean(b)
	f := w.files[a]
	if denied(a, true) || denied(b, true) {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EACCES}
	}
	if f == nil && vipHas(a) && w.dirs[parent(b)] && !w.dirs[b] {
		vipMove(a, b)
		return nil
	}
	if f == nil || !w.dirs[parent(b)] {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: missing(a)}
	}
	if w.dirs[b] {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	delete(w.files, a)
	w.files[b] = f
	return nil
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }

func Stat(name string) (os.FileInfo, error) {
	w := get()
	name = clean(name)
	if denied(name, false) {
		return nil, perr("stat", name, syscall.EACCES)
	}
	if f := w.files[name]; f != nil {
		return info{base(name), int64(len(f.data)), false}, nil
	}
	if w.dirs[name] {
		return info{base(name), 0, true}, nil
	}
	if vipHas(name) {
		return info{base(name), 300, false}, nil
	}
	return nil, perr("stat", name, missing(name))
}

// What viper writes: the default configuration file where there is none, or
// any file.
func SafeWriteConfig() error { return SafeWriteConfigAs("conf/config.json") }

func SafeWriteConfigAs(name string) error {
	if vipHas(clean(name)) {
		return errors.New("Config File \"" + name + "\" Already Exists")
	}
	return WriteConfigAs(name)
}

func WriteConfigAs(name string) error {
	name = clean(name)
	if !get().dirs[parent(name)] {
		return perr("open", name, syscall.ENOENT)
	}
	vipSave(name)
	return nil
}

func vipHas(name string) bool { return false }
func vipSave(name string)     {}
func vipDel(name string)      {}
func vipMove(from, to string) {}
func vipFresh() bool          { return false }
