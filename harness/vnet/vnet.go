// Package vnet stands in for net in the code under test: addresses of the
// harness's virtual network resolve to in-memory connections.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

// DialHook answers every dial of the code under test. ListenHook likewise.
var (
	DialHook   func(network, addr string) (net.Conn, error)
	ListenHook func(network, addr string) (net.Listener, error)
)

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	if DialHook != nil {
		c, err := DialHook(network, address)
		if err == ErrHole {
			return d.hole(ctx, network, address)
		}
		return c, err
	}
	rd := &net.Dialer{Timeout: d.Timeout, Deadline: d.Deadline, LocalAddr: d.LocalAddr, KeepAlive: d.KeepAlive}
	return rd.DialContext(ctx, network, address)
}

// ErrHole from DialHook means that nothing answers at that address.
var ErrHole = errors.New("vnet: no answer")

// hole dials an address that does not answer: the kernel tries again after 1,
// 3, 7, 15, 31 and 63 seconds and gives up after 127.
func (d *Dialer) hole(ctx context.Context, network, address string) (net.Conn, error) {
	start := vsched.Now()
	wake := make(chan int, 16)
	var stops []func() bool
	defer func() {
		for _, stop := range stops {
			stop()
		}
	}()
	at := func(in int64, n int) {
		stops = append(stops, vsched.AddTimer(in, func() { vsched.TrySend(wake, n) }))
	}
	for _, sec := range []int64{1, 3, 7, 15, 31, 63} {
		at(sec*1e9, 0)
	}
	at(127e9, 1)
	if d.Timeout > 0 {
		at(int64(d.Timeout), 2)
	}
	if !d.Deadline.IsZero() {
		at(d.Deadline.UnixNano()-vsched.Epoch*1e9-start, 2)
	}
	if t, ok := ctx.Deadline(); ok {
		at(t.UnixNano()-vsched.Epoch*1e9-start, 2)
	}
	for {
		got := vsched.RC(wake)
		var err error
		switch vsched.Select(false, got, vsched.RC(ctx.Done()), vsched.RC(d.Cancel)) {
		case 0:
			switch got.V {
			case 0:
				if c, err := DialHook(network, address); err != ErrHole {
					return c, err
				}
				continue
			case 1:
				err = syscall.ETIMEDOUT
			case 2:
				err = os.ErrDeadlineExceeded
			}
		case 1:
			err = ctx.Err()
		case 2:
			err = errors.New("operation was canceled")
		}
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func Dial(network, address string) (net.Conn, error) {
	return (&Dialer{}).Dial(network, address)
}

func DialTimeout(network, address string, t time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, address)
}

func Listen(network, address string) (net.Listener, error) {
	if ListenHook != nil {
		return ListenHook(network, address)
	}
	return net.Listen(network, address)
}

// MConn is one end of an in-memory stream. Everything the owner reads was
// queued chunk by chunk; a Read never returns bytes of two chunks.
type MConn struct {
	Name    string
	in      [][]byte
	eof     error // returned once in is empty (io.EOF or a reset)
	closed  bool
	rdl     int64 // virtual deadline in ns, 0 none, -1 expired
	wdl     int64
	OnWrite func(p []byte) (int, error)
	OnClose func()
	Room    func() bool // after ErrStall: whether the peer takes bytes again
	Pull    func()      // lets the peer go on before the owner waits for bytes
	Reads   int
	Writes  int
	Closes  int
	stop    func() bool
	wstop   func() bool
	addr    string
}

// ErrStall from OnWrite means that the peer takes no more bytes.
var ErrStall = errors.New("vnet: stalled")

func NewConn(name string) *MConn { return &MConn{Name: name, addr: name} }

// Pair returns the two ends of a stream.
func Pair(name string) (*MConn, *MConn) {
	a, b := NewConn(name+".a"), NewConn(name+".b")
	link := func(from, to *MConn) {
		from.OnWrite = func(p []byte) (int, error) {
			if to.closed {
				return 0, syscall.EPIPE
			}
			to.Deliver(p)
			return len(p), nil
		}
		from.OnClose = func() { to.DeliverEOF(io.EOF) }
	}
	link(a, b)
	link(b, a)
	return a, b
}

// Deliver queues one chunk for the owner.
func (c *MConn) Deliver(p []byte) {
	if len(p) == 0 || c.closed || c.eof != nil {
		return
	}
	c.in = append(c.in, append([]byte(nil), p...))
}

// DeliverEOF ends the inbound stream after what is queued.
func (c *MConn) DeliverEOF(err error) {
	if c.eof == nil {
		c.eof = err
	}
}

func (c *MConn) Closed() bool { return c.closed }

// Pending returns the number of queued bytes the owner has not read.
func (c *MConn) Pending() int {
	n := 0
	for _, p := range c.in {
		n += len(p)
	}
	return n
}

func (c *MConn) Drop() { c.in = nil }

func expired(d int64) bool {
	return d == -1 || d != 0 && vsched.Now() >= d
}

func (c *MConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: c.RemoteAddr(), Err: err}
}

// What the operations of a real connection order: the operations on one
// connection (its descriptor's lock), and every write before every later read.
var traffic int

func (c *MConn) edge() {
	vsched.Acquire(unsafe.Pointer(c))
	vsched.Release(unsafe.Pointer(c))
}

func (c *MConn) Read(p []byte) (int, error) {
	c.edge()
	defer c.edge()
	n, err := c.read(p)
	if n > 0 {
		vsched.Acquire(unsafe.Pointer(&traffic))
	}
	return n, err
}

func (c *MConn) read(p []byte) (int, error) {
	c.Reads++
	vsched.Point("conn read")
	if len(p) == 0 {
		return 0, nil
	}
	if !vsched.Active() {
		return 0, c.opErr("read", os.ErrDeadlineExceeded)
	}
	vsched.Block(func() bool {
		if c.Pull != nil && len(c.in) == 0 {
			c.Pull()
		}
		return c.closed || len(c.in) > 0 || c.eof != nil || expired(c.rdl)
	}, "read on "+c.Name)
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if expired(c.rdl) {
		return 0, c.opErr("read", os.ErrDeadlineExceeded)
	}
	if len(c.in) > 0 {
		n := copy(p, c.in[0])
		if n == len(c.in[0]) {
			c.in = c.in[1:]
		} else {
			c.in[0] = c.in[0][n:]
		}
		return n, nil
	}
	if c.eof == io.EOF {
		return 0, io.EOF
	}
	return 0, c.opErr("read", c.eof)
}

func (c *MConn) Write(p []byte) (int, error) {
	vsched.Release(unsafe.Pointer(&traffic))
	c.edge()
	defer c.edge()
	c.Writes++
	vsched.Point("conn write")
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	if expired(c.wdl) {
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	if c.OnWrite == nil {
		return len(p), nil
	}
	n, err := c.OnWrite(append([]byte(nil), p...))
	for err == ErrStall {
		vsched.Block(func() bool { return c.closed || expired(c.wdl) || c.Room != nil && c.Room() }, "write on "+c.Name)
		if c.closed {
			err = net.ErrClosed
		} else if expired(c.wdl) {
			err = os.ErrDeadlineExceeded
		} else {
			var m int
			m, err = c.OnWrite(append([]byte(nil), p[n:]...))
			n += m
		}
	}
	if err != nil {
		err = c.opErr("write", err)
	}
	return n, err
}

func (c *MConn) Close() error {
	c.edge()
	c.Closes++
	if vsched.Killing() {
		return nil
	}
	vsched.Point("conn close")
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	if c.stop != nil {
		c.stop()
	}
	if c.wstop != nil {
		c.wstop()
	}
	if c.OnClose != nil {
		c.OnClose()
	}
	return nil
}

func abs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(time.Unix(vsched.Epoch, 0)))
	if d <= vsched.Now() {
		return -1
	}
	return d
}

// arm makes virtual time reach the read deadline even when nothing else would.
func (c *MConn) arm() {
	if c.stop != nil {
		c.stop()
		c.stop = nil
	}
	if c.rdl > 0 {
		c.stop = vsched.AddTimer(c.rdl-vsched.Now(), nil)
	}
}

func (c *MConn) setErr() error {
	c.edge()
	vsched.Point("conn deadline")
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	return nil
}

func (c *MConn) SetDeadline(t time.Time) error {
	if err := c.setErr(); err != nil {
		return err
	}
	c.rdl, c.wdl = abs(t), abs(t)
	c.arm()
	return nil
}
func (c *MConn) SetReadDeadline(t time.Time) error {
	if err := c.setErr(); err != nil {
		return err
	}
	c.rdl = abs(t)
	c.arm()
	return nil
}
func (c *MConn) SetWriteDeadline(t time.Time) error {
	if err := c.setErr(); err != nil {
		return err
	}
	c.wdl = abs(t)
	if c.wstop != nil {
		c.wstop()
		c.wstop = nil
	}
	if c.wdl > 0 {
		c.wstop = vsched.AddTimer(c.wdl-vsched.Now(), nil)
	}
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *MConn) LocalAddr() net.Addr  { return addr("local:" + c.addr) }
func (c *MConn) RemoteAddr() net.Addr { return addr(c.addr) }

// Listener hands out queued connections.
type Lis struct {
	q      []net.Conn
	err    error
	closed bool
	temp   []error // returned by the next calls of Accept
}

func NewListener() *Lis { return &Lis{} }

func (l *Lis) Push(c net.Conn) { l.q = append(l.q, c) }
func (l *Lis) edge() {
	vsched.Acquire(unsafe.Pointer(l))
	vsched.Release(unsafe.Pointer(l))
}

func (l *Lis) Accept() (net.Conn, error) {
	l.edge()
	defer l.edge()
	vsched.Point("accept")
	vsched.Block(func() bool { return l.closed || len(l.q) > 0 || l.err != nil || len(l.temp) > 0 }, "accept")
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	if len(l.temp) > 0 {
		err := l.temp[0]
		l.temp = l.temp[1:]
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", err)}
	}
	if len(l.q) > 0 {
		c := l.q[0]
		l.q = l.q[1:]
		return c, nil
	}
	return nil, l.err
}

// FailNext makes the next calls of Accept fail for the time being.
func (l *Lis) FailNext(n int, err error) {
	for i := 0; i < n; i++ {
		l.temp = append(l.temp, err)
	}
}
func (l *Lis) Fail(err error) { l.err = err }
func (l *Lis) Close() error {
	l.edge()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	return nil
}
func (l *Lis) IsClosed() bool { return l.closed }
func (l *Lis) Addr() net.Addr { return addr("listener") }
