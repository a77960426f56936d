package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/fmc"
	"go.f110.dev/go-memcached/internal/zverif/vnet"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func nowSec() int64 { return vsched.Epoch + vsched.Now()/1e9 }

// World is the virtual network of one execution: addresses, the reference
// servers behind them, and the faults of their connections.
type World struct {
	Stores map[string]*fmc.Store
	Links  []*Link
	Down   map[string]bool
	Hole   map[string]bool // nothing answers there
	// Chunk cuts a reply into the segments the client will read.
	Chunk func(l *Link, out []byte) [][]byte
	// NewLink may set a fault plan for a new connection.
	NewLink func(l *Link)
	Dials   int
	DialGap func(addr string) // called for every dial
	Custom  map[string]func(l *Link)
	Buf     int // bytes that fit between client and server in each direction; 0: any number
}

// Link is one client connection and its server end.
type Link struct {
	N       int
	Addr    string
	C       *vnet.MConn
	Sess    *fmc.Session
	Sent    int // request bytes the server took
	Recv    int // reply bytes delivered
	Req     []byte
	Rep     []byte
	Plan    Plan
	dead    bool
	fired   bool
	queue   []byte // sent by the client, not yet taken by the server (Buf)
	held    []byte // request bytes the slow server has not read yet
	slow    bool   // replies are under way on a slow path
	slowAt  int64
	lagging int64
	Mangle  func(reply []byte) []byte // changes the next reply
}

// Plan is a fault: after the server took ReqCut request bytes, or delivered
// RepCut reply bytes, the connection breaks.
type Plan struct {
	ReqCut int // -1: never
	RepCut int
	// Kind says how: "eof" and "rst" end the connection, "stall" is silence
	// for good, "wstall" also stops taking bytes, "late" goes on after
	// Lag, "trickle" delivers one byte every 2/5 second from there on,
	// "garbage" replaces the rest of this reply by Junk.
	Kind string
	Junk []byte
	Lag  time.Duration // of "late"; 0: Lag
	// Every is the time between bytes of "trickle"; 0: 2/5 second. "lagging"
	// is late with every reply from there on.
	Every time.Duration
}

func (p *Plan) every() int64 {
	if p.Every != 0 {
		return int64(p.Every)
	}
	return int64(400 * time.Millisecond)
}

func (p *Plan) lag() int64 {
	if p.Lag != 0 {
		return int64(p.Lag)
	}
	return Lag
}

// Lag is how long a late server is silent; longer than every Timeout used.
const Lag = int64(1500 * time.Millisecond)

var noFault = Plan{ReqCut: -1, RepCut: -1}

func NewWorld(addrs ...string) *World {
	w := &World{Stores: map[string]*fmc.Store{}, Down: map[string]bool{}, Hole: map[string]bool{}}
	for _, a := range addrs {
		w.Stores[a] = fmc.NewStore(a, nowSec)
	}
	vnet.DialHook = w.dial
	return w
}

func (w *World) dial(network, addr string) (net.Conn, error) {
	vsched.Point("dial")
	if w.Hole[addr] {
		return nil, vnet.ErrHole
	}
	w.Dials++
	if w.DialGap != nil {
		w.DialGap(addr)
	}
	st := w.Stores[addr]
	cu := w.Custom[addr]
	if st == nil && cu == nil || w.Down[addr] {
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
	l := &Link{N: len(w.Links), Addr: addr, C: vnet.NewConn(fmt.Sprintf("%s#%d", addr, len(w.Links))), Plan: noFault}
	w.Links = append(w.Links, l)
	if cu != nil {
		cu(l)
		return l.C, nil
	}
	l.Sess = fmc.NewSession(st)
	if w.NewLink != nil {
		w.NewLink(l)
	}
	l.C.OnWrite = func(p []byte) (int, error) { return w.write(l, p) }
	if w.Buf > 0 {
		l.C.OnWrite = func(p []byte) (int, error) { return w.queue(l, p) }
		l.C.Room = func() bool { w.pump(l); return len(l.queue) < w.Buf }
		l.C.Pull = func() { w.pump(l) }
	}
	return l.C, nil
}

// queue takes bytes as far as they fit in the buffers between client and server.
func (w *World) queue(l *Link, p []byte) (int, error) {
	n := w.Buf - len(l.queue)
	if n > len(p) {
		n = len(p)
	}
	l.queue = append(l.queue, p[:n]...)
	w.pump(l)
	if n < len(p) {
		return n, vnet.ErrStall
	}
	return n, nil
}

// pump lets the server go on. Like memcached it does not take requests while
// its replies do not fit in the buffers.
func (w *World) pump(l *Link) {
	for len(l.queue) > 0 && l.C.Pending() < w.Buf {
		n := len(l.queue)
		if n > 50 {
			n = 50
		}
		b := l.queue[:n]
		l.queue = l.queue[n:]
		_, _ = w.write(l, b)
	}
}

func (l *Link) kill(kind string) {
	l.dead, l.fired = true, true
	switch kind {
	case "eof":
		l.C.DeliverEOF(io.EOF)
	case "rst":
		l.C.DeliverEOF(syscall.ECONNRESET)
	}
}

func (w *World) write(l *Link, p []byte) (int, error) {
	if l.dead {
		if l.Plan.Kind == "wstall" {
			return 0, vnet.ErrStall
		}
		if l.Plan.Kind == "stall" || l.Plan.Kind == "eof" && l.Plan.ReqCut < 0 {
			return len(p), nil // the peer's kernel still takes bytes
		}
		return 0, syscall.EPIPE
	}
	if l.held != nil {
		l.held = append(l.held, p...)
		return len(p), nil
	}
	n := len(p)
	if l.Plan.ReqCut >= 0 && l.Sent+n >= l.Plan.ReqCut {
		n = l.Plan.ReqCut - l.Sent
	}
	l.Sent += n
	l.Req = append(l.Req, p[:n]...)
	out := l.Sess.Feed(p[:n])
	w.deliver(l, out)
	if l.Plan.ReqCut >= 0 && l.Sent >= l.Plan.ReqCut && !l.dead && l.Plan.Kind == "late" {
		lag := l.Plan.lag()
		l.Plan, l.fired = noFault, true
		l.held = append([]byte{}, p[n:]...)
		vsched.AddTimer(lag, func() {
			h := l.held
			l.held = nil
			l.Sent += len(h)
			l.Req = append(l.Req, h...)
			if !l.C.Closed() { // what was under way when the client closed is lost
				w.deliver(l, l.Sess.Feed(h))
			}
		})
		return len(p), nil
	}
	if l.Plan.ReqCut >= 0 && l.Sent >= l.Plan.ReqCut && !l.dead {
		l.kill(l.Plan.Kind)
		if l.Plan.Kind == "wstall" {
			return n, vnet.ErrStall
		}
		if l.Plan.Kind == "stall" || l.Plan.Kind == "eof" {
			return len(p), nil
		}
		return n, syscall.EPIPE
	}
	if l.Sess.Closed && !l.dead {
		l.kill("eof")
	}
	return len(p), nil
}

func (w *World) deliver(l *Link, out []byte) {
	if len(out) == 0 || l.dead {
		return
	}
	if l.Mangle != nil {
		out = l.Mangle(out)
	}
	cut := false
	if l.Plan.RepCut >= 0 && l.Recv+len(out) >= l.Plan.RepCut {
		k := l.Plan.RepCut - l.Recv
		if l.Plan.Kind == "garbage" {
			out = append(append([]byte(nil), out[:k]...), l.Plan.Junk...)
			l.Plan.RepCut = -1
			l.fired = true
		} else if l.Plan.Kind == "late" || l.Plan.Kind == "trickle" || l.Plan.Kind == "lagging" {
			rest := append([]byte(nil), out[k:]...)
			kind, lag := l.Plan.Kind, l.Plan.lag()
			switch kind {
			case "lagging":
				l.lagging = lag
			case "trickle":
				lag = l.Plan.every()
			}
			out = out[:k]
			l.Plan, l.fired = noFault, true
			l.slow = true
			defer func() { w.slowly(l, kind, lag, rest) }()
		} else {
			out = out[:k]
			cut = true
		}
	} else if l.slow {
		w.slowly(l, "", 0, out)
		return
	}
	if len(out) == 0 && !cut {
		return
	}
	l.Recv += len(out)
	l.Rep = append(l.Rep, out...)
	if w.Chunk != nil {
		for _, ch := range w.Chunk(l, out) {
			l.C.Deliver(ch)
		}
	} else {
		l.C.Deliver(out)
	}
	if cut {
		l.kill(l.Plan.Kind)
	}
}

// slowly delivers bytes after those already under way.
func (w *World) slowly(l *Link, kind string, lag int64, b []byte) {
	if l.slowAt < vsched.Now() {
		l.slowAt = vsched.Now()
	}
	put := func(p []byte) {
		vsched.AddTimer(l.slowAt-vsched.Now(), func() {
			if !l.C.Closed() {
				l.Recv += len(p)
				l.Rep = append(l.Rep, p...)
				l.C.Deliver(p)
			}
		})
	}
	switch kind {
	case "trickle":
		for i := range b {
			l.slowAt += lag
			put(b[i : i+1])
		}
	case "late", "lagging":
		l.slowAt += lag
		put(b)
	default:
		l.slowAt += l.lagging
		put(b)
	}
}

// Vanish makes the host of addr fall silent: nothing answers, not even to a dial.
func (w *World) Vanish(addr string) {
	for _, l := range w.Links {
		if l.Addr == addr && !l.dead && !l.C.Closed() {
			l.Plan.Kind = "stall"
			l.dead = true
		}
	}
	w.Hole[addr] = true
}

// Restart makes the server at addr lose every connection.
func (w *World) Restart(addr string) {
	for _, l := range w.Links {
		if l.Addr == addr && !l.dead {
			l.Plan.Kind = "eof"
			l.kill("eof")
		}
	}
}

// Bad returns the protocol violations all stores saw.
func (w *World) Bad() []string {
	var b []string
	for _, s := range w.Stores {
		for _, x := range s.Bad {
			b = append(b, s.Name+": "+x)
		}
	}
	return b
}

// Open counts connections the client has not closed.
func (w *World) Open() []string {
	var o []string
	for _, l := range w.Links {
		if !l.C.Closed() {
			o = append(o, l.C.Name)
		}
	}
	return o
}

func (w *World) Dump() string {
	var sb strings.Builder
	names := make([]string, 0)
	for n := range w.Stores {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "[%s] %s\n", n, w.Stores[n].Dump())
	}
	return sb.String()
}

var protos = []string{"text", "meta", "binary"}

// Connect opens a client.Server with the given protocol.
func Connect(proto, name, addr string, timeout time.Duration, opts ...client.ServerOpt) (client.Server, error) {
	return connectCtx(context.Background(), proto, name, addr, timeout, opts...)
}

func connectCtx(ctx context.Context, proto, name, addr string, timeout time.Duration, opts ...client.ServerOpt) (client.Server, error) {
	switch proto {
	case "text":
		s, err := client.NewServerWithTextProtocol(ctx, name, "tcp", addr, opts...)
		if err != nil {
			return nil, err
		}
		s.Timeout = timeout
		return s, nil
	case "meta":
		s, err := client.NewServerWithMetaProtocol(ctx, name, "tcp", addr, opts...)
		if err != nil {
			return nil, err
		}
		s.Timeout = timeout
		return s, nil
	}
	s, err := client.NewServerWithBinaryProtocol(ctx, name, "tcp", addr, opts...)
	if err != nil {
		return nil, err
	}
	s.Timeout = timeout
	return s, nil
}

func MustConnect(proto, name, addr string, timeout time.Duration, opts ...client.ServerOpt) client.Server {
	s, err := Connect(proto, name, addr, timeout, opts...)
	if err != nil {
		fail("connecting to a running server failed: %v", err)
	}
	return s
}
