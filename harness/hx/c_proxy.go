package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"gopkg.in/yaml.v3"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/fmc"
	"go.f110.dev/go-memcached/internal/zverif/routermain"
	"go.f110.dev/go-memcached/internal/zverif/vlog"
	"go.f110.dev/go-memcached/internal/zverif/vnet"
	"go.f110.dev/go-memcached/internal/zverif/vos"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
	"go.f110.dev/go-memcached/proxy"
	"go.f110.dev/go-memcached/server"
)

func init() {
	register("C19", c19, "one case = one sequence of operations of a text, meta or binary client (or of several clients of different protocols) through server, proxy and replica pool to reference servers; every result is compared with what the primary would answer, and both sides' stores with the model")
	register("C20", c20, "one case = one request through the proxy while one backend's connection fails at one byte of its exchange in one way, or answers with one error; then requests on other keys and connections; results and stores are judged")
	register("C21", c21, "one case = one configuration file (servers, listing order, formatting, defects) and set of reachable servers given to the router's main function; dials, listener and the placement of keys by the running router are compared with the configuration")
}

const proxyAddr = "proxy:8090"

// stack is clients - server - proxy - replica pool - reference servers.
type stack struct {
	*rep
	l   *vnet.Lis
	err error
	h   *vsched.Handle
}

func newStack(np, ns int, timeout time.Duration) *stack {
	s := &stack{rep: newRep(np, ns, timeout), l: vnet.NewListener()}
	s.serve(&server.Server{Addr: ":8090", Handler: proxy.NewReplicaProxy(s.pool)})
	return s
}

func (s *stack) serve(srv *server.Server) {
	s.h = vsched.GoNamed("serve", func() { s.err = srv.Serve(s.l) })
	s.hook()
}

// hook makes the proxy's address reachable.
func (s *stack) hook() {
	s.w.Custom = map[string]func(*Link){proxyAddr: func(l *Link) {
		far := vnet.NewConn(fmt.Sprintf("proxyconn#%d", l.N))
		tie(l.C, far)
		s.l.Push(far)
	}}
}

func tie(a, b *vnet.MConn) {
	half := func(from, to *vnet.MConn) {
		from.OnWrite = func(p []byte) (int, error) {
			if to.Closed() {
				return 0, syscall.EPIPE
			}
			to.Deliver(p)
			return len(p), nil
		}
		from.OnClose = func() { to.DeliverEOF(io.EOF) }
	}
	half(a, b)
	half(b, a)
}

// proxyWant is what the contract allows through the proxy: reads and sets as
// on the primary, everything else an error without effect.
func proxyWant(m *Model, op Op) Want {
	if supported(m.Proto, op) {
		return m.Do(op)
	}
	if _, seen := m.last[op.Key]; op.K == "rmw" && !seen || in([]string{"cas", "casold"}, op.K) && len(m.tok[op.Key]) == 0 {
		return Want{Err: "ok", Skip: true} // nothing was asked
	}
	return Want{Err: "error"}
}

// supported tells whether the proxy serves op to a client of the protocol:
// reads and sets; the server has no command of the text protocol for a set
// with a token, so that is refused.
func supported(proto string, op Op) bool {
	if proto == "text" && in([]string{"cas", "casold", "rmw"}, op.K) {
		return false
	}
	return in([]string{"get", "multi", "set", "cas", "casold", "rmw", "wait"}, op.K)
}

// xclient is one client of the proxy.
type xclient struct {
	proto string
	s     client.Server
	r     *Runner
	tok   map[string][]uint64
	last  map[string]ment
}

func (s *stack) client(proto string, timeout time.Duration) *xclient {
	c := MustConnect(proto, "px", proxyAddr, timeout)
	return &xclient{proto: proto, s: c, r: NewRunner(c), tok: map[string][]uint64{}, last: map[string]ment{}}
}

// use makes the model that of this client: its protocol, tokens and reads.
func (x *xclient) use(m *Model) {
	m.Proto = x.proto
	m.tok, m.last = x.tok, x.last
}

func (s *stack) step(x *xclient, op Op, keys []string, i int) {
	switch op.K {
	case "xset": // another router stores the item
		s.owner("p", op.Key).Put(op.Key, []byte(op.Val), flagsOf(op.Flags), int64(op.Exp))
		s.owner("s", op.Key).Put(op.Key, []byte(op.Val), flagsOf(op.Flags), int64(op.Exp))
		s.m.put(op.Key, op.Val, flagsOf(op.Flags), s.m.absExp(op.Exp))
		return
	case "xdel":
		delete(s.owner("p", op.Key).M, op.Key)
		delete(s.owner("s", op.Key).M, op.Key)
		delete(s.m.M, op.Key)
		return
	}
	x.use(s.m)
	want := proxyWant(s.m, op)
	got := x.r.Do(op)
	if d := Compare(x.proto, op, got, want); d != "" {
		fail("step %d (%s client): %s", i+1, x.proto, d)
	}
	if want.Err == "exists" && got.Err == "" || want.Err != "ok" && got.Err == "" {
		fail("step %d (%s client): %v succeeded", i+1, x.proto, op)
	}
	if d := s.bothDiff(s.m, keys); d != "" {
		fail("after step %d (%s client, %v -> %v): %s", i+1, x.proto, op, got, d)
	}
	if x.proto == "text" && in([]string{"cas", "casold", "rmw"}, op.K) || x.proto == "meta" && op.K == "touch" {
		// the server has no such request; the client may have to connect again
		if err := x.s.Reconnect(); err != nil {
			fail("Reconnect to the proxy: %v", err)
		}
	}
	cx.Trans(1)
	cx.State(s.w.Dump())
}

func (s *stack) settled(x *xclient) {
	for _, l := range s.w.Links {
		if n := l.C.Pending(); n > 0 && !l.C.Closed() {
			fail("%d bytes of a reply were never read (%s)", n, l.C.Name)
		}
	}
	if b := s.w.Bad(); len(b) > 0 {
		fail("a backend was sent a malformed request: %s", b[0])
	}
	_ = x
}

func c19(c *Ctx) {
	alpha := []Op{
		{K: "set", Key: "a", Val: "1", Flags: []byte{0, 0, 0, 3}, Exp: 40}, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"a", "none", "b"}}, {K: "cas", Key: "a", Val: "2\r\nEND\r\n", Flags: []byte{0x80, 0, 0, 0}},
		{K: "casold", Key: "a", Val: "3"}, {K: "rmw", Key: "a"}, {K: "set", Key: "b", Val: "", Exp: 5}, {K: "get", Key: "b"}, {K: "wait", Exp: 6},
		{K: "add", Key: "a", Val: "4"}, {K: "incr", Key: "a", Delta: 1}, {K: "delete", Key: "a"}, {K: "xset", Key: "a", Val: "other", Flags: []byte{0, 0, 7, 0}}, {K: "xdel", Key: "a"},
	}
	unsup := []Op{{K: "add", Key: "new", Val: "4"}, {K: "replace", Key: "a", Val: "4"}, {K: "delete", Key: "a"}, {K: "delete", Key: "none"}, {K: "incr", Key: "a", Delta: 1}, {K: "decr", Key: "none", Delta: 1}, {K: "touch", Key: "a", Exp: 9}, {K: "flush"}, {K: "version"}}
	keys := []string{"a", "b", "new"}
	for _, p := range protos {
		p := p
		for _, n := range []int{1, 2, 3} {
			n := n
			d := 3
			if n == 1 {
				d = c.Pick(3, 4)
			} else if n == 3 {
				d = 2
			}
			seqs(alpha, d, func(name string, ops []Op) {
				c.Plain(fmt.Sprintf("seq/%s/%d/%s", p, n, name), func() {
					s := newStack(n, n, time.Second)
					x := s.client(p, time.Second)
					for i, op := range ops {
						s.step(x, op, keys, i)
					}
					s.step(x, Op{K: "get", Key: "a"}, keys, len(ops))
					s.step(x, Op{K: "multi", Keys: []string{"b", "a"}}, keys, len(ops)+1)
					s.settled(x)
				})
			})
		}
		for ui, u := range unsup {
			u := u
			for _, prep := range [][]Op{nil, {{K: "set", Key: "a", Val: "5", Exp: 50, Flags: []byte{1, 0, 0, 1}}, {K: "get", Key: "a"}}} {
				prep := prep
				c.Plain(fmt.Sprintf("refused/%s/%d/%d", p, ui, len(prep)), func() {
					s := newStack(1, 1, time.Second)
					x := s.client(p, time.Second)
					for i, op := range prep {
						s.step(x, op, keys, i)
					}
					s.step(x, u, keys, len(prep))
					s.step(x, Op{K: "get", Key: "a"}, keys, 9) // the connection goes on
					s.step(x, Op{K: "set", Key: "b", Val: "b"}, keys, 9)
					s.step(x, Op{K: "multi", Keys: []string{"b", "a", "none"}}, keys, 9)
					x2 := s.client(p, time.Second)
					s.step(x2, Op{K: "set", Key: "b", Val: "bb"}, keys, 9)
					s.step(x2, Op{K: "get", Key: "b"}, keys, 9)
					s.step(x2, Op{K: "get", Key: "a"}, keys, 9)
				})
			}
		}
		for _, v := range valueShapes {
			for fi, f := range flagShapes {
				for _, exp := range []int{0, 1, 100, 60 * 60 * 24 * 30, 60*60*24*30 + 1, 1_800_000_500, 1_800_000_000 + 60*60*24*60, 1_800_000_000 + 60*60*24*400, 1<<31 - 1} {
					op := Op{K: "set", Key: "a", Val: v.val, Flags: f, Exp: exp}
					c.Plain(fmt.Sprintf("shape/%s/%s/f%d/%d", p, v.name, fi, exp), func() {
						s := newStack(2, 2, time.Second)
						x := s.client(p, time.Second)
						for i, o := range []Op{op, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"a"}}, {K: "set", Key: "b", Val: v.val + "!"}, {K: "multi", Keys: []string{"none", "b", "a"}}, {K: "cas", Key: "a", Val: v.val, Flags: f, Exp: exp}, {K: "get", Key: "a"}} {
							s.step(x, o, keys, i)
						}
						s.settled(x)
					})
				}
			}
		}
		for n := 4096 - c.Pick(70, 300); n <= 4096+c.Pick(40, 200); n++ {
			n := n
			c.Plain(fmt.Sprintf("size/%s/%d", p, n), func() {
				s := newStack(1, 1, time.Second)
				x := s.client(p, time.Second)
				for i, o := range []Op{{K: "set", Key: "a", Val: strings.Repeat("ab\r\nEND\r\n.", n/10+1)[:n]}, {K: "get", Key: "a"}, {K: "set", Key: "b", Val: "x"}, {K: "multi", Keys: []string{"b", "a"}}} {
					s.step(x, o, keys, i)
				}
				s.settled(x)
			})
		}
		// tokens over the whole range
		for bi, base := range []uint64{1<<31 - 2, 1<<32 - 2, 1<<62 - 2, 1<<63 - 2, 1<<64 - 6} {
			base := base
			c.Plain(fmt.Sprintf("token/%s/%d", p, bi), func() {
				s := newStack(1, 1, time.Second)
				s.w.Stores[s.pn[0]].SetCasCounter(base)
				x := s.client(p, time.Second)
				for i, o := range []Op{{K: "set", Key: "a", Val: "1"}, {K: "get", Key: "a"}, {K: "cas", Key: "a", Val: "2"}, {K: "cas", Key: "a", Val: "3"}, {K: "get", Key: "a"}, {K: "cas", Key: "a", Val: "4"}, {K: "multi", Keys: []string{"a"}}, {K: "rmw", Key: "a"}, {K: "casold", Key: "a", Val: "5"}} {
					s.step(x, o, keys, i)
				}
			})
		}
		// keys of every legal byte
		for b := 0x21; b <= 0xff; b++ {
			if b == 0x7f {
				continue
			}
			k := "k" + string([]byte{byte(b)}) + "k"
			c.Plain(fmt.Sprintf("key/%s/%02x", p, b), func() {
				s := newStack(1, 1, time.Second)
				x := s.client(p, time.Second)
				for i, o := range []Op{{K: "set", Key: k, Val: "1", Flags: []byte{0, 0, 1, 0}}, {K: "get", Key: k}, {K: "multi", Keys: []string{"none", k}}, {K: "cas", Key: k, Val: "2"}, {K: "get", Key: k}} {
					s.step(x, o, []string{k}, i)
				}
				s.settled(x)
			})
		}
	}
	rawCases(c)
	// wide requests
	for _, p := range protos {
		for _, n := range []int{50, 99, 100, 101, 150, 200, 255, 256, 257, 500, 999, 1000, 1001, 5000} {
			for every := 1; every <= 3; every++ {
				if n > 1001 && !c.Thorough() && every != 2 {
					continue
				}
				p, n, every := p, n, every
				c.Case(fmt.Sprintf("wide/%s/%d/%d", p, n, every), CaseOpt{Delay: true, MaxSteps: 2000000}, func() {
					s := newStack(2, 2, 10*time.Second)
					x := s.client(p, 10*time.Second)
					var list []string
					for i := 0; i < n; i++ {
						k := fmt.Sprintf("key-%d", i)
						list = append(list, k)
						if i%every == 0 {
							op := Op{K: "set", Key: k, Val: fmt.Sprintf("v%d", i), Flags: []byte{0, 0, byte(i >> 8), byte(i)}}
							w := s.m.Do(op)
							if d := Compare(p, op, x.r.Do(op), w); d != "" {
								fail("%s", d)
							}
						}
					}
					s.step(x, Op{K: "multi", Keys: list}, keys, 0)
					s.step(x, Op{K: "set", Key: "a", Val: "1"}, keys, 1)
					s.step(x, Op{K: "multi", Keys: append([]string{"a", "none"}, list[:n/2]...)}, keys, 2)
					s.settled(x)
				})
			}
		}
	}
	// two clients of different protocols in turn
	for i, p := range protos {
		for j, q := range protos {
			p, q := p, q
			if i > j {
				continue
			}
			small := []Op{{K: "set", Key: "a", Val: "1", Flags: []byte{0, 0, 0, 3}, Exp: 40}, {K: "get", Key: "a"}, {K: "cas", Key: "a", Val: "2"}, {K: "multi", Keys: []string{"b", "a"}}, {K: "set", Key: "b", Val: "x\r\n"}}
			var two []Op
			two = append(two, small...)
			for _, o := range small {
				o.Delta = -1 // the second client's
				two = append(two, o)
			}
			seqs(two, c.Pick(3, 4), func(name string, ops []Op) {
				c.Case(fmt.Sprintf("both/%s.%s/%s", p, q, name), CaseOpt{Delay: true, Bound: 2, MaxExecs: c.Pick(300, 4000)}, func() {
					s := newStack(2, 1, time.Second)
					x, y := s.client(p, time.Second), s.client(q, time.Second)
					for i, op := range ops {
						if op.Delta == -1 {
							op.Delta = 0
							s.step(y, op, keys, i)
						} else {
							s.step(x, op, keys, i)
						}
					}
					s.step(y, Op{K: "get", Key: "a"}, keys, len(ops))
					s.step(x, Op{K: "multi", Keys: []string{"a", "b"}}, keys, len(ops))
					s.settled(x)
				})
			})
			// one operation while another client does two
			for ti, t := range [][3]Op{
				{{K: "get", Key: "a"}, {K: "set", Key: "a", Val: "77"}, {K: "get", Key: "a"}},
				{{K: "get", Key: "a"}, {K: "set", Key: "a", Val: "77"}, {K: "multi", Keys: []string{"a", "b"}}},
				{{K: "multi", Keys: []string{"a", "b"}}, {K: "set", Key: "b", Val: "78", Flags: []byte{0, 0, 0, 1}}, {K: "get", Key: "b"}},
				{{K: "get", Key: "new"}, {K: "set", Key: "new", Val: "79"}, {K: "get", Key: "new"}},
				{{K: "get", Key: "a"}, {K: "cas", Key: "a", Val: "80"}, {K: "get", Key: "a"}},
				{{K: "set", Key: "a", Val: "81"}, {K: "get", Key: "a"}, {K: "get", Key: "a"}},
				{{K: "set", Key: "a", Val: "82"}, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"b", "a"}}},
				{{K: "set", Key: "a", Val: "83"}, {K: "get", Key: "none"}, {K: "multi", Keys: []string{"none", "a", "a2"}}},
			} {
				for _, sw := range []bool{false, true} {
					p, q, t := p, q, t
					if sw {
						if p == q {
							continue
						}
						p, q = q, p
					}
					if !supported(p, t[0]) || !supported(q, t[1]) || !supported(q, t[2]) {
						continue
					}
					c.Case(fmt.Sprintf("beside/%s.%s/%d", p, q, ti), CaseOpt{Delay: true, Preempt: true, Race: true, Bound: c.Pick(1, 2), MaxExecs: c.Pick(6000, 60000)}, func() { beside(p, q, t, keys) })
				}
			}
			// at the same time
			conc := []Op{{K: "get", Key: "a"}, {K: "set", Key: "a", Val: "77", Flags: []byte{0, 0, 9, 9}}, {K: "cas", Key: "a", Val: "8"}, {K: "multi", Keys: []string{"b", "a"}}, {K: "get", Key: "none"}}
			for ai, a := range conc {
				for bi, b := range conc {
					a, b := a, b
					if a.K != "get" && a.K != "multi" && b.K != "get" && b.K != "multi" {
						continue // concurrent writers of one key may leave the copies apart; see DESIGN
					}
					if !supported(p, a) || !supported(q, b) {
						continue
					}
					body := func() {
						s := newStack(1, 1, 0)
						x, y := s.client(p, 0), s.client(q, 0)
						for i, o := range []Op{{K: "set", Key: "a", Val: "5", Flags: []byte{0, 0, 0, 5}}, {K: "set", Key: "b", Val: "bb"}} {
							s.step(x, o, keys, i)
						}
						s.step(x, Op{K: "get", Key: "a"}, keys, 2)
						s.step(y, Op{K: "get", Key: "a"}, keys, 2)
						m0 := s.m.Clone()
						m0.tok, m0.last = x.tok, x.last
						calls := []*call{{op: a, who: 0}, {op: b, who: 1}}
						clock := 0
						run := func(x *xclient, c *call) *vsched.Handle {
							return vsched.GoNamed("client", func() {
								clock++
								c.from = clock
								c.out = x.r.Do(c.op)
								clock++
								c.to = clock
							})
						}
						h1, h2 := run(x, calls[0]), run(y, calls[1])
						h1.Join()
						h2.Join()
						for _, c := range calls {
							if c.op.K == "cas" && c.out.Err == "error" {
								fail("%v failed: %v", c.op, c.out)
							}
						}
						m0.Proto = "text"
						if d := linearizable(m0, calls, map[int]*perThread{0: {x.tok, x.last}, 1: {y.tok, y.last}}, func(m *Model) string { return s.bothDiff(m, keys) }); d != "" {
							fail("%s", d)
						}
						vsched.Observe("%v %v", calls[0].out, calls[1].out)
					}
					c.Case(fmt.Sprintf("conc/%s.%s/%d.%d", p, q, ai, bi), CaseOpt{Delay: true, Preempt: true, Race: true, Bound: c.Pick(1, 2), MaxExecs: c.Pick(2000, 20000)}, body)
					if c.Thorough() {
						c.Case(fmt.Sprintf("stmt/%s.%s/%d.%d", p, q, ai, bi), CaseOpt{Delay: true, Preempt: true, Stmts: true, Bound: 1, MaxExecs: 20000}, body)
					}
				}
			}
		}
	}
}

// beside: while one client does t[0], another does t[1] and then t[2].
func beside(p, q string, t [3]Op, keys []string) {
	s := newStack(1, 1, 0)
	x, y := s.client(p, 0), s.client(q, 0)
	for i, o := range []Op{{K: "set", Key: "a", Val: "5", Flags: []byte{0, 0, 0, 5}}, {K: "set", Key: "b", Val: "bb"}} {
		s.step(x, o, keys, i)
	}
	s.step(x, Op{K: "get", Key: "a"}, keys, 2)
	s.step(y, Op{K: "get", Key: "a"}, keys, 2)
	m0 := s.m.Clone()
	m0.tok, m0.last = x.tok, x.last
	calls := []*call{{op: t[0], who: 0}, {op: t[1], who: 1}, {op: t[2], who: 1}}
	clock := 0
	run := func(x *xclient, cs ...*call) *vsched.Handle {
		return vsched.GoNamed("client", func() {
			for _, c := range cs {
				clock++
				c.from = clock
				c.out = x.r.Do(c.op)
				clock++
				c.to = clock
			}
		})
	}
	h1, h2 := run(x, calls[0]), run(y, calls[1:]...)
	h1.Join()
	h2.Join()
	m0.Proto = "text"
	if d := linearizable(m0, calls, map[int]*perThread{0: {x.tok, x.last}, 1: {y.tok, y.last}}, func(m *Model) string { return s.bothDiff(m, keys) }); d != "" {
		fail("%s", d)
	}
	vsched.Observe("%v %v %v", calls[0].out, calls[1].out, calls[2].out)
}

// binNorm leaves out what the proxy cannot know (the token a set gave the item)
// and what is free (the text of an error).
func binNorm(b []byte) string {
	fs, bad := frames(b)
	for i := range fs {
		if fs[i].op == 1 {
			fs[i].cas = 0
		}
		if fs[i].status != 0 {
			fs[i].val = ""
		}
	}
	return fmt.Sprintf("%+v%s", fs, bad)
}

func getsNorm(s string) string {
	var items []string
	rest := s
	for strings.HasPrefix(rest, "VALUE ") {
		var k string
		var f, n int
		eol := strings.Index(rest, "\r\n")
		if eol < 0 {
			return s
		}
		if _, err := fmt.Sscanf(rest[:eol], "VALUE %s %d %d", &k, &f, &n); err != nil || len(rest) < eol+4+n {
			return s
		}
		items = append(items, rest[:eol+4+n])
		rest = rest[eol+4+n:]
	}
	sort.Strings(items)
	return strings.Join(items, "") + rest
}

// rawCases: a client that speaks the protocol itself gets through the proxy,
// byte for byte, what it would get from the owning primary.
func rawCases(c *Ctx) {
	perm := func(set string, f func(toks []string)) {
		var rec func(cur []string, used int)
		rec = func(cur []string, used int) {
			f(cur)
			for i := range set {
				if used>>i&1 == 0 && (len(cur) < c.Pick(3, 5)) {
					rec(append(append([]string(nil), cur...), set[i:i+1]), used|1<<i)
				}
			}
		}
		rec(nil, 0)
	}
	const waitMark = "\x00wait"
	run := func(id string, reqs ...string) {
		c.Plain("raw/"+id, func() {
			s := newStack(1, 1, time.Second)
			direct := fmc.NewSession(fmc.NewStore("direct", nowSec))
			far := vnet.NewConn("rawclient")
			var got []byte
			far.OnWrite = func(p []byte) (int, error) { got = append(got, p...); return len(p), nil }
			s.l.Push(far)
			for i, q := range reqs {
				if q == waitMark {
					vsched.Sleep(int64(3 * time.Second))
					continue
				}
				got = nil
				want := string(direct.Feed([]byte(q)))
				far.Deliver([]byte(q))
				vsched.Idle()
				if strings.HasPrefix(q, "get") { // in any order
					got, want = []byte(getsNorm(string(got))), getsNorm(want)
				}
				if q[0] == 0x80 {
					got, want = []byte(binNorm(got)), binNorm([]byte(want))
				}
				if string(got) != want {
					fail("step %d: %q is answered %q through the proxy, %q by a primary", i+1, short(q), short(string(got)), short(want))
				}
				cx.Trans(1)
				cx.State(q + s.w.Dump())
			}
			if far.Closed() {
				fail("the proxy closed the connection")
			}
			s.settled(nil)
		})
	}
	flagCases(c)
	sets := []string{"set a 5 0 3\r\nabc\r\n", "set a 4294967295 100 5\r\nEND\r\n\r\n", "ms a 2\r\nxy\r\n", "ms a 0 T50 F7\r\n\r\n", "ms a 3 F4294967295 k O12\r\nk\r\n\r\n", "ms a 1 T2592000\r\nv\r\n", "ms a 1 T-1\r\nv\r\n", "set a 0 1800000500 1\r\nv\r\n",
		string(binReq(1, "a", append(be32(9), be32(60)...), []byte("binary\r\n"), 0x01020304, 0)), string(binReq(1, "a", append(be32(0), be32(0)...), nil, 0, 0))}
	isBin := func(s string) bool { return s[0] == 0x80 }
	for si, set := range sets {
		for _, wait := range []bool{false, true} {
			pre := []string{}
			if isBin(set) { // the protocol of a connection is that of its first byte
				pre = []string{set}
				if wait {
					pre = append(pre, waitMark)
				}
				bins := []string{string(binReq(0, "a", nil, nil, 7, 0)), string(binReq(0, "zz", nil, nil, 8, 0)), string(binReq(0x0d, "a", nil, nil, 1<<31, 0)), string(binReq(0x0d, "zz", nil, nil, 9, 0)), string(binReq(0x0a, "", nil, nil, 10, 0)), set}
				for i := range bins {
					for j := range bins {
						for k := range bins {
							run(fmt.Sprintf("bin/%d/%v/%d.%d.%d", si, wait, i, j, k), append(append([]string{}, pre...), bins[i], bins[j], bins[k])...)
						}
					}
				}
				continue
			}
			pre = []string{set}
			if wait {
				pre = append(pre, waitMark)
			}
			perm("vfcstk", func(toks []string) {
				if len(toks) == 0 {
					return
				}
				t := strings.Join(toks, " ")
				run(fmt.Sprintf("mg/%d/%v/%s", si, wait, strings.Join(toks, "")), append(append([]string{}, pre...), "mg a "+t+"\r\n", "mg none "+t+"\r\n", "mg a "+t+" O77 q\r\nmg none q "+t+"\r\nmn\r\n")...)
			})
			texts := []string{"get a\r\n", "get none\r\n", "gets a\r\n", "gets a none b\r\n", "get none b a\r\n", "mg a O5 k\r\n", "mg none O5 k v\r\n", "mn\r\n", "ms b 1 O99 k\r\nb\r\n", "ms b 1 k q\r\nc\r\n", "ms a 1 C999999 k O1\r\nz\r\n", "set b 1 2 3\r\n   \r\n", waitMark}
			for i := range texts {
				for j := range texts {
					for k := range texts {
						if !c.Thorough() && k > 5 && (i+j+k)%3 != 0 {
							continue
						}
						run(fmt.Sprintf("text/%d/%v/%d.%d.%d", si, wait, i, j, k), append(append([]string{}, pre...), texts[i], texts[j], texts[k])...)
					}
				}
			}
		}
	}
}

// flagCases: a meta request with flags that are not among those the proxy
// serves is answered as by the primary, or it is refused and changes nothing.
func flagCases(c *Ctx) {
	var toks []string
	for b := byte('A'); b <= 'z'; b++ {
		if b > 'Z' && b < 'a' || b == 'o' { // no server knows 'o'; see DESIGN
			continue
		}
		toks = append(toks, string([]byte{b}))
	}
	toks = append(toks, "E77", "N30", "R30", "T60", "C5", "I", "F9", "b k", "ME", "MA", "MP", "J1", "D1", "0", "{")
	heads := []struct{ id, req, body string }{
		{"mg", "mg a", ""}, {"mgn", "mg none", ""}, {"mgb", "mg YQ==", ""}, {"mgv", "mg a v f", ""},
		{"ms", "ms a 2", "zz\r\n"}, {"msn", "ms new 2", "zz\r\n"}, {"msb", "ms YQ== 2", "zz\r\n"}, {"msf", "ms a 0 F5 T50", "\r\n"},
	}
	for _, h := range heads {
		for _, t := range toks {
			for _, more := range []string{"", " q", " k O9", " c", " v"} {
				h, req := h, h.req+" "+t+more
				seen, twice := map[byte]bool{}, false
				for _, w := range strings.Fields(req)[2:] {
					twice = twice || seen[w[0]]
					seen[w[0]] = true
				}
				if twice {
					continue // malformed
				}
				c.Plain("flags/"+h.id+"/"+t+more, func() {
					s := newStack(1, 1, time.Second)
					direct := fmc.NewStore("direct", nowSec)
					primary := fmc.NewSession(direct)
					feed := func(q string) (string, bool) {
						far := vnet.NewConn("rawclient")
						var got []byte
						far.OnWrite = func(p []byte) (int, error) { got = append(got, p...); return len(p), nil }
						s.l.Push(far)
						far.Deliver([]byte(q))
						vsched.Idle()
						return string(got), far.Closed()
					}
					pre := "set a 7 90 3\r\nabc\r\nset YQ== 8 0 2\r\nde\r\nget a\r\n"
					want := string(primary.Feed([]byte(pre)))
					if got, closed := feed(pre); got != want || closed {
						fail("%q is answered %q, not %q", pre, got, want)
					}
					before := direct.Dump()
					want = string(primary.Feed([]byte(req + "\r\n" + h.body)))
					got, closed := feed(req + "\r\n" + h.body)
					after := before
					refused := strings.HasPrefix(got, "ERROR") || strings.HasPrefix(got, "CLIENT_ERROR ") || strings.HasPrefix(got, "SERVER_ERROR ") || closed && got == ""
					if !refused {
						if strings.Contains(want, "_ERROR ") && !strings.HasPrefix(req, "ms") {
							// A flag no server knows. Anything that changes nothing will do.
						} else if after = direct.Dump(); got != want {
							fail("%q is answered %q through the proxy, %q by a primary", req, got, want)
						}
					}
					for _, st := range s.w.Stores {
						if d := st.Dump(); d != after {
							fail("%q is answered %q; %s then holds %s, not %s", req, got, st.Name, d, after)
						}
					}
					cx.Trans(1)
					cx.State(req + s.w.Dump())
				})
			}
		}
	}
}

func c20(c *Ctx) {
	ops := []Op{{K: "get", Key: "a"}, {K: "get", Key: "none"}, {K: "set", Key: "a", Val: "six", Flags: []byte{0, 0, 1, 6}}, {K: "cas", Key: "a", Val: "seven"}, {K: "multi", Keys: []string{"a", "none", "b"}}, {K: "casold", Key: "a", Val: "old"}}
	prep := []Op{{K: "set", Key: "a", Val: "4"}, {K: "get", Key: "a"}, {K: "set", Key: "a", Val: "5", Flags: []byte{0, 0, 0, 5}}, {K: "get", Key: "a"}, {K: "set", Key: "b", Val: "bb"}}
	keys := []string{"a", "b", "c"}
	p1, s1 := "p1:11211", "s1:11211"
	for _, p := range protos {
		p := p
		for oi, op := range ops {
			op := op
			for _, side := range []string{p1, s1} {
				side := side
				if side == s1 && isRead(op) {
					continue
				}
				var req, rep int
				c.Measure(func() {
					s := newStack(1, 1, time.Second)
					x := s.client(p, 0)
					for _, o := range prep {
						x.r.Do(o)
					}
					l := s.link(side)
					a, b := l.Sent, l.Recv
					x.r.Do(op)
					req, rep = l.Sent-a, l.Recv-b
				})
				for _, kind := range []string{"eof", "rst", "stall", "late"} {
					kind := kind
					for at := -req; at <= rep; at++ {
						if at == 0 && rep == 0 || at == rep && kind == "late" || at == -req && kind == "late" && false {
							continue
						}
						at := at
						c.Plain(fmt.Sprintf("cut/%s/%d/%s/%s/%d", p, oi, side[:2], kind, at), func() {
							proxyFault(p, prep, op, side, keys, func(l *Link) {
								l.Plan = Plan{ReqCut: -1, RepCut: -1, Kind: kind}
								if at < 0 {
									l.Plan.ReqCut = l.Sent + req + at // req bytes before the end
									if l.Plan.ReqCut == l.Sent {
										l.Plan.ReqCut++
									}
								} else {
									l.Plan.RepCut = l.Recv + at
								}
							}, rep)
						})
					}
				}
				// every error reply of the backend
				for ei := range errReplies {
					e := errReplies[ei]
					c.Plain(fmt.Sprintf("refuse/%s/%d/%s/%s", p, oi, side[:2], e.name), func() {
						s := newStack(1, 1, time.Second)
						x := s.client(p, 0)
						for i, o := range prep {
							s.step(x, o, keys, i)
						}
						hit := false
						s.w.Stores[side].Hook = func(r *fmc.Req) ([]byte, bool) {
							if r.Cmd == "mn" || hit {
								return nil, false
							}
							hit = true
							return e.bytes(r), true
						}
						x.use(s.m)
						out := x.r.Do(op)
						if !hit {
							return
						}
						if out.Err == "" || out.Err == "notfound" || out.Err == "exists" {
							fail("%v: backend %s answered %q, the client was told %v", op, side, e.ascii, out)
						}
						if side == p1 {
							if d := s.bothDiff(s.m, keys); d != "" {
								fail("%s", d)
							}
						}
						y := s.client(p, 0)
						s.onlyPrimary(y, side == s1, Op{K: "get", Key: "b"})
						s.onlyPrimary(y, side == s1, Op{K: "set", Key: "c", Val: "cc"})
						s.onlyPrimary(y, side == s1, Op{K: "get", Key: "c"})
					})
				}
			}
			// other keys: one of two primaries or secondaries is gone
			for _, dead := range []string{"p1:11211", "p2:11211", "s1:11211", "s2:11211"} {
				for _, kind := range []string{"eof", "rst", "stall", "closed"} {
					dead, kind := dead, kind
					c.Plain(fmt.Sprintf("other/%s/%d/%s/%s", p, oi, dead[:2], kind), func() {
						s := newStack(2, 2, time.Second)
						x := s.client(p, 0)
						for i, o := range prep {
							s.step(x, o, keys, i)
						}
						l := s.link(dead)
						if kind == "closed" {
							s.conns[dead].Close()
						} else {
							l.Plan.Kind = kind
							l.kill(kind)
						}
						asks := []string{op.Key}
						if op.K == "multi" {
							asks = op.Keys
						}
						hit := false
						for _, k := range asks {
							hit = hit || ownerOfKey(s.pn, k) == dead || !isRead(op) && ownerOfKey(s.sn, k) == dead && op.K != "casold"
						}
						x.use(s.m)
						if hit {
							out := x.r.Do(op)
							if out.Err != "error" {
								fail("%v returned %v although %s is gone", op, out, dead)
							}
						} else {
							s.step(x, op, keys, 0)
						}
						// the rest works, on a new connection
						y := s.client(p, 0)
						for i := 0; i < 12; i++ {
							k := fmt.Sprintf("key%d", i)
							if ownerOfKey(s.pn, k) == dead || ownerOfKey(s.sn, k) == dead {
								continue
							}
							s.step(y, Op{K: "set", Key: k, Val: "v"}, []string{k}, i)
							s.step(y, Op{K: "get", Key: k}, []string{k}, i)
						}
					})
				}
			}
		}
	}
}

// onlyPrimary runs op and compares with the model, on the primary alone when
// the secondary missed something.
func (s *stack) onlyPrimary(x *xclient, skipSec bool, op Op) {
	x.use(s.m)
	want := s.m.Do(op)
	if d := Compare(x.proto, op, x.r.Do(op), want); d != "" {
		fail("%s", d)
	}
	if !skipSec {
		if d := s.bothDiff(s.m, []string{op.Key}); d != "" {
			fail("%s", d)
		}
	}
}

func proxyFault(p string, prep []Op, op Op, side string, keys []string, plan func(*Link), rep int) {
	s := newStack(1, 1, time.Second)
	x := s.client(p, 0)
	for i, o := range prep {
		s.step(x, o, keys, i)
	}
	expSlack = 3
	l := s.link(side)
	plan(l)
	r0 := l.Recv
	x.use(s.m)
	m1 := s.m.Clone()
	want := m1.Do(op)
	t0 := vsched.Now()
	out := x.r.Do(op)
	if d := vsched.Now() - t0; d > int64(3*time.Second) {
		fail("%v took %v through the proxy", op, time.Duration(d))
	}
	if out.Err != "error" {
		if l.Recv-r0 < rep-2 {
			fail("%v returned %v after %d of the %d reply bytes of %s", op, out, l.Recv-r0, rep, side)
		}
		if d := Compare(p, op, out, want); d != "" {
			fail("%s", d)
		}
		if out.Err == "" {
			if d := s.bothDiff(m1, keys); d != "" {
				fail("%v succeeded: %s", op, d)
			}
		}
	} else if isRead(op) || side == "p1:11211" {
		if d, e := s.bothDiff(s.m, keys), s.sideDiff("p", m1, keys); d != "" && e != "" {
			fail("after the failed %v: %s / %s", op, d, e)
		}
	}
	vsched.Sleep(int64(2 * time.Second))
	// the proxy goes on serving: new connections, and after the backend is
	// connected again everything
	y := s.client(p, 0)
	if o := y.r.Do(Op{K: "get", Key: "b"}); side != "p1:11211" && (o.Err != "" || o.Items[0].Val != "bb") {
		fail("a read failed because of the secondary: %v", o)
	} else if o.Err == "" && o.Items[0].Val != "bb" || o.Err == "notfound" {
		fail("asked for b after the failure, got %v", o)
	}
	if o := y.r.Do(Op{K: "get", Key: "a"}); o.Err == "notfound" || o.Err == "" && o.Items[0].Val != "5" && o.Items[0].Val != op.Val {
		fail("asked for a after the failure, got %v", o)
	}
	if err := s.conns[side].Reconnect(); err != nil {
		fail("Reconnect: %v", err)
	}
	z := s.client(p, 0)
	m := s.m
	if s.sideDiff("p", m, keys) != "" {
		m = m1
	}
	z.use(m)
	for _, o := range []Op{{K: "get", Key: "a"}, {K: "set", Key: "a", Val: "again"}, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"b", "none", "a"}}} {
		w := m.Do(o)
		if d := Compare(p, o, z.r.Do(o), w); d != "" {
			fail("after the recovery: %s", d)
		}
	}
	if d := s.bothDiff(m, []string{"a", "b"}); d != "" {
		fail("after the recovery: %s", d)
	}
	if s.h.Done() {
		fail("the proxy stopped serving: %v", s.err)
	}
	cx.Trans(6)
	cx.State(s.w.Dump())
}

// --- the router program ---

type routerRun struct {
	w       *World
	listen  []string
	l       *vnet.Lis
	h       *vsched.Handle
	ended   string
	dialled []string
}

// startRouter runs the router's main function with the given configuration.
func startRouter(conf string, args func(path string) []string, up []string) *routerRun {
	return startRouterWith(conf, args, up, nil)
}

func startRouterWith(conf string, args func(path string) []string, up []string, listen func(n, a string) (net.Listener, error)) *routerRun {
	dir, err := os.MkdirTemp("", "verif-router")
	if err != nil {
		fail("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "conf.yaml")
	if err := os.WriteFile(path, []byte(conf), 0o644); err != nil {
		fail("harness: %v", err)
	}
	r := &routerRun{w: NewWorld(up...), l: vnet.NewListener()}
	r.w.DialGap = func(a string) { r.dialled = append(r.dialled, a) }
	vnet.ListenHook = func(n, a string) (net.Listener, error) {
		r.listen = append(r.listen, n+" "+a)
		if listen != nil {
			return listen(n, a)
		}
		return r.l, nil
	}
	s := &stack{rep: &rep{w: r.w}, l: r.l}
	s.hook()
	resetFlags()
	os.Args = append([]string{"router"}, args(path)...)
	r.h = vsched.GoNamed("router", func() {
		defer func() {
			x := recover()
			if vsched.Killing() {
				return
			}
			switch x := x.(type) {
			case nil:
				r.ended = "main returned"
			case vlog.FatalExit:
				r.ended = "fatal: " + x.Msg
			case vos.Exited:
				r.ended = fmt.Sprintf("exit %d", x.Code)
			default:
				r.ended = fmt.Sprintf("panic: %v", x)
			}
		}()
		routermain.Main()
	})
	vsched.Idle()
	return r
}

// pristine flags: the program's flags are defined by its main function.
var flag0 *flag.FlagSet

func resetFlags() {
	if flag0 == nil {
		flag0 = flag.CommandLine
	}
	fs := flag.NewFlagSet("router", flag.PanicOnError)
	fs.SetOutput(io.Discard)
	flag0.VisitAll(func(f *flag.Flag) {
		_ = f.Value.Set(f.DefValue)
		fs.Var(f.Value, f.Name, f.Usage)
	})
	flag.CommandLine = fs
}

func confArgs(path string) []string { return []string{"-conf", path} }

type rserver struct {
	name, host string
	port       int
}

func (s rserver) addr() string {
	return net.JoinHostPort(strings.Trim(s.host, "[]"), fmt.Sprint(s.port))
}

func yamlOf(style int, pri, sec []rserver) string {
	var sb strings.Builder
	list := func(l []rserver) {
		for _, s := range l {
			switch style {
			case 0:
				fmt.Fprintf(&sb, "  - name: %s\n    host: %s\n    port: %d\n", s.name, s.host, s.port)
			case 1:
				fmt.Fprintf(&sb, "- {port: %d, name: \"%s\", host: '%s'}\n", s.port, s.name, s.host)
			case 2:
				fmt.Fprintf(&sb, "  # a server\n  - host: \"%s\"\n    port: %d\n    name: %s\n    comment: ignored\n", s.host, s.port, s.name)
			}
		}
	}
	if style == 2 {
		sb.WriteString("secondary:\n")
		list(sec)
		sb.WriteString("primary:\n")
		list(pri)
		return sb.String()
	}
	sb.WriteString("primary:\n")
	list(pri)
	sb.WriteString("secondary:\n")
	list(sec)
	return sb.String()
}

// routerPlaces stores and reads keys through the router, which must place
// them by the names of the servers.
func routerPlaces(r *routerRun, pri, sec []rserver) {
	names := func(l []rserver) []string {
		var n []string
		for _, s := range l {
			n = append(n, s.name)
		}
		return n
	}
	cl := MustConnect("text", "px", proxyAddr, 0)
	for i := 0; i < 40; i++ {
		k := fmt.Sprintf("key-%d", i)
		if err := cl.Set(&client.Item{Key: k, Value: []byte("v"), Flags: []byte{0, 0, 0, 1}}); err != nil {
			fail("Set through the router: %v", err)
		}
		for _, side := range [][]rserver{pri, sec} {
			own := ownerOfKey(names(side), k)
			for _, s := range side {
				if has := r.w.Stores[s.addr()].Get(k) != nil; has != (s.name == own) {
					fail("key %q belongs to %q; %s holds it: %v", k, own, s.name, has)
				}
			}
		}
		it, err := cl.Get(k)
		if err != nil || string(it.Value) != "v" {
			fail("Get through the router: %v %v", it, err)
		}
		cx.Trans(1)
	}
}

// changedConf starts the router with a configuration that may make sense.
func changedConf(conf string, up []string) {
	type srv struct {
		Name string `yaml:"name"`
		Host string `yaml:"host"`
		Port int    `yaml:"port"`
	}
	var want struct {
		Primary   []srv `yaml:"primary"`
		Secondary []srv `yaml:"secondary"`
	}
	err := yaml.Unmarshal([]byte(conf), &want)
	var pri, sec, all []rserver
	for _, s := range want.Primary {
		pri = append(pri, rserver{s.Name, s.Host, s.Port})
	}
	for _, s := range want.Secondary {
		sec = append(sec, rserver{s.Name, s.Host, s.Port})
	}
	all = append(append(all, pri...), sec...)
	starts, places := err == nil && len(pri) > 0 && len(sec) > 0, true
	seen := map[string]bool{}
	for i, s := range all {
		if strings.ContainsAny(s.host, "[]") {
			return // how much of it is the address is not specified
		}
		starts = starts && in(up, s.addr())
		side := "p"
		if i >= len(pri) {
			side = "s"
		}
		if seen[s.addr()] || seen[side+" "+s.name] {
			places = false
		}
		seen[s.addr()], seen[side+" "+s.name] = true, true
	}
	r := startRouter(conf, confArgs, up)
	started := len(r.listen) > 0
	cx.Trans(1)
	if !starts {
		if started || !r.h.Done() || r.ended == "main returned" || r.ended == "exit 0" {
			fail("the router started with %q (%v, primary %v, secondary %v): listens on %q, ended %q", conf, err, pri, sec, r.listen, r.ended)
		}
		return
	}
	if !started || r.h.Done() {
		fail("the router did not start with %q (primary %v, secondary %v): listens on %q, ended %q", conf, pri, sec, r.listen, r.ended)
	}
	cx.State(fmt.Sprint(pri, sec))
	if places {
		routerPlaces(r, pri, sec)
	}
}

func c21(c *Ctx) {
	pool := []rserver{{"Primary-1", "127.0.0.1", 11212}, {"alpha", "10.1.2.3", 11211}, {"mc.example.com", "mc.example.com", 65535}}
	spool := []rserver{{"alpha", "127.0.0.1", 11213}, {"BETA", "10.9.2.3", 1}, {"Primary-1", "mc2.example.com", 11211}}
	// names that are different, if only just
	for i, l := range [][2]string{{"a", "A"}, {" x", "x"}, {"x ", "x"}, {"x/1", "x"}, {"", "y"}, {"a-b", "a_b"}, {"ü", "u"}, {"10.0.0.1:11211", "10.0.0.1"}, {"1", "01"}, {"1e1", "10"}, {"true", "yes"}, {"s", strings.Repeat("s", 300)}} {
		for swap := 0; swap < 2; swap++ {
			l := [2]string{l[swap], l[1-swap]}
			c.Plain(fmt.Sprintf("names/%d/%d", i, swap), func() {
				pri := []rserver{{l[0], "127.0.0.1", 11212}, {l[1], "127.0.0.1", 11213}}
				sec := []rserver{{l[0], "127.0.0.2", 11213}, {l[1], "127.0.0.2", 11212}}
				var all []string
				for _, s := range append(append([]rserver(nil), pri...), sec...) {
					all = append(all, s.addr())
				}
				r := startRouter(yamlOf(1, pri, sec), confArgs, all)
				if r.h.Done() {
					fail("the router ended: %s", r.ended)
				}
				routerPlaces(r, pri, sec)
			})
		}
	}
	// hosts
	for i, h := range []string{"localhost", "::1", "[::1]", "2001:db8::1:2", "[fe80::1%eth0]", "mc-1.example.com.", "xn--mc-zja.example", "0.0.0.0", "MC.Example.Com"} {
		for style := 1; style <= 2; style++ {
			pri := []rserver{{"a", h, 11211}, {"b", h, 11212}}
			sec := []rserver{{"a", "127.0.0.1", 11213}, {"b", h, 11214}}
			conf := yamlOf(style, pri, sec)
			all := []string{pri[0].addr(), pri[1].addr(), sec[0].addr(), sec[1].addr()}
			c.Plain(fmt.Sprintf("hosts/%d/%d", i, style), func() {
				r := startRouter(conf, confArgs, all)
				if r.h.Done() {
					fail("the router ended: %s", r.ended)
				}
				routerPlaces(r, pri, sec)
			})
		}
	}
	// many servers, and much else in the file
	for _, n := range []int{4, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 300} {
		for style := 0; style < 3; style++ {
			n, style := n, style
			c.Case(fmt.Sprintf("many/%d/%d", n, style), CaseOpt{Delay: true, MaxSteps: 4000000}, func() {
				var pri, sec []rserver
				var all []string
				for i := 0; i < n; i++ {
					pri = append(pri, rserver{fmt.Sprintf("server-%d", i*7919%n), fmt.Sprintf("10.0.%d.%d", i/256, i%256), 11000 + i})
					if i < (n+1)/2 {
						sec = append(sec, rserver{fmt.Sprintf("server-%d", i), fmt.Sprintf("10.1.%d.%d", i/256, i%256), 12000 + i})
					}
				}
				for _, s := range append(append([]rserver(nil), pri...), sec...) {
					all = append(all, s.addr())
				}
				r := startRouter(yamlOf(style, pri, sec), confArgs, all)
				if r.h.Done() {
					fail("the router ended: %s", r.ended)
				}
				got, want := append([]string(nil), r.dialled...), append([]string(nil), all...)
				sortStrings(got)
				sortStrings(want)
				if strings.Join(got, " ") != strings.Join(want, " ") {
					fail("the router dialled %d servers, configured are %d", len(got), len(want))
				}
				routerPlaces(r, pri, sec)
			})
		}
	}
	for _, size := range []int{1000, 4000, 4096, 5000, 8192, 20000, 65536, 70000, 200000, 1 << 20} {
		for where := 0; where < 3; where++ {
			size, where := size, where
			c.Plain(fmt.Sprintf("padded/%d/%d", size, where), func() {
				pri, sec := pool[:2], spool[:2]
				parts := strings.SplitAfterN(yamlOf(0, pri, sec), "secondary:\n", 2)
				pad := strings.Repeat("# "+strings.Repeat("x", 61)+"\n", size/64)
				conf := pad + parts[0] + parts[1]
				switch where {
				case 1:
					conf = parts[0] + pad + parts[1]
				case 2:
					conf = parts[0] + parts[1] + pad
				}
				var all []string
				for _, s := range append(append([]rserver(nil), pri...), sec...) {
					all = append(all, s.addr())
				}
				r := startRouter(conf, confArgs, all)
				if r.h.Done() {
					fail("the router ended: %s", r.ended)
				}
				routerPlaces(r, pri, sec)
			})
		}
	}
	// nothing to route to
	for i, conf := range []string{"", "{}\n", "primary: []\nsecondary: []\n", "# nothing\n", "---\n", "other: 1\n", yamlOf(0, pool[:1], nil), yamlOf(0, nil, spool[:1]), strings.SplitAfter(yamlOf(0, pool[:1], spool[:1]), "secondary:")[0] + " []\n", strings.Split(yamlOf(0, pool[:1], spool[:1]), "secondary:")[0]} {
		conf := conf
		c.Plain(fmt.Sprintf("nothing/%d", i), func() {
			r := startRouter(conf, confArgs, []string{pool[0].addr(), spool[0].addr()})
			if len(r.listen) > 0 || !r.h.Done() || r.ended == "main returned" || r.ended == "exit 0" {
				fail("the router started with %q, in which servers are missing: listens on %q, ended %q", conf, r.listen, r.ended)
			}
			cx.Trans(1)
		})
	}
	maxN := c.Pick(2, 3)
	for np := 1; np <= maxN; np++ {
		for ns := 1; ns <= maxN; ns++ {
			for pi, pp := range perms(np) {
				for si, sp := range perms(ns) {
					for style := 0; style < 3; style++ {
						var pri, sec []rserver
						for _, i := range pp {
							pri = append(pri, pool[i])
						}
						for _, i := range sp {
							sec = append(sec, spool[i])
						}
						conf := yamlOf(style, pri, sec)
						var all []string
						for _, s := range append(append([]rserver(nil), pri...), sec...) {
							all = append(all, s.addr())
						}
						c.Plain(fmt.Sprintf("config/%d.%d/%d.%d/%d", np, ns, pi, si, style), func() {
							r := startRouter(conf, confArgs, all)
							if r.h.Done() {
								fail("the router ended: %s", r.ended)
							}
							if len(r.listen) != 1 || r.listen[0] != "tcp :8090" {
								fail("the router listens on %q", r.listen)
							}
							got, want := append([]string(nil), r.dialled...), append([]string(nil), all...)
							sortStrings(got)
							sortStrings(want)
							if strings.Join(got, " ") != strings.Join(want, " ") {
								fail("the router dialled %q, configured are %q", got, want)
							}
							routerPlaces(r, pri, sec)
							cx.State(conf)
							// a second client and the end of the listener
							cl2 := MustConnect("binary", "px", proxyAddr, 0)
							if it, err := cl2.Get("key-1"); err != nil || string(it.Value) != "v" {
								fail("Get through the router: %v %v", it, err)
							}
							r.l.Fail(errors.New("gone"))
							vsched.Idle()
							if !r.h.Done() || r.ended == "main returned" || r.ended == "exit 0" {
								fail("the router did not end with an error when its listener failed: %q", r.ended)
							}
						})
						if style > 0 {
							continue
						}
						for mask := 1; mask < 1<<len(all); mask++ {
							var up []string
							for i, a := range all {
								if mask>>i&1 == 0 {
									up = append(up, a)
								}
							}
							c.Plain(fmt.Sprintf("unreachable/%d.%d/%d.%d/%b", np, ns, pi, si, mask), func() {
								r := startRouter(conf, confArgs, up)
								if len(r.listen) > 0 {
									fail("the router listens although servers are unreachable (up: %q)", up)
								}
								if !r.h.Done() || r.ended == "main returned" || r.ended == "exit 0" {
									fail("the router did not end with an error although servers are unreachable: %q", r.ended)
								}
								cx.Trans(1)
							})
						}
					}
				}
			}
		}
	}
	bad := []string{"primary: [", "primary:\n  - name: a\n    host: 127.0.0.1\n    port: notanumber\nsecondary: []\n", "\x00\x01\x02", "primary: just a string\n", "- a\n- b\n", "primary:\n\t- name: a\n", "primary:\n  - name: a\n    host: [1]\n    port: 1\n", "primary: {a: 1}\n"}
	for i, b := range bad {
		b := b
		c.Plain(fmt.Sprintf("malformed/%d", i), func() {
			r := startRouter(b, confArgs, nil)
			if len(r.listen) > 0 || !r.h.Done() || r.ended == "main returned" || r.ended == "exit 0" {
				fail("the router started with the malformed configuration %q: listens on %q, ended %q", b, r.listen, r.ended)
			}
			cx.Trans(1)
			cx.State(b)
		})
	}
	// changed in one place, with every server up
	for style := 0; style < 3; style++ {
		pri, sec := pool[:2], spool[:2]
		var up []string
		for _, s := range append(append([]rserver(nil), pri...), sec...) {
			up = append(up, s.addr())
		}
		base := yamlOf(style, pri, sec)
		subst := []string{"", "[", "]", "{", "}", "\"", "'", "\t", ":", "-", "x", "\x00", "&", "*", "!", "#", "\n", " ", ",", "\xff", "%", "|", "1"}
		for at := 0; at <= len(base); at++ {
			for si, x := range subst {
				if at < len(base) {
					conf := base[:at] + x + base[at+1:]
					c.Plain(fmt.Sprintf("changed/%d/%d/%d", style, at, si), func() { changedConf(conf, up) })
				}
				if c.Thorough() || at%7 == style {
					conf := base[:at] + x + base[at:]
					c.Plain(fmt.Sprintf("inserted/%d/%d/%d", style, at, si), func() { changedConf(conf, up) })
				}
			}
			conf := base[:at]
			c.Plain(fmt.Sprintf("cut/%d/%d", style, at), func() { changedConf(conf, up) })
			conf2 := base[at:]
			c.Plain(fmt.Sprintf("cutfront/%d/%d", style, at), func() { changedConf(conf2, up) })
		}
		for i, old := range []string{"Primary-1", "alpha", "BETA", "127.0.0.1", "10.1.2.3", "11212", "11213", "11211", "primary:", "secondary:", "name:", "host:", "port:"} {
			for j, x := range []string{"[a]", "{a: b}", "1.5", "abc", "", "~", "null", "true", "!!binary AAAA", "!!int 5", "-1", "0", "65536", "1e3", "0x2bcc", "99999999999999999999", "*a", "&a b", "<<:", "? a", "|", "Port:", "NAME:"} {
				for n := 1; n <= 2; n++ {
					parts := strings.SplitAfterN(base, old, n+1)
					if len(parts) <= n {
						continue
					}
					conf := strings.TrimSuffix(strings.Join(parts[:n], ""), old) + x + parts[n]
					c.Plain(fmt.Sprintf("field/%d/%d/%d/%d", style, i, j, n), func() { changedConf(conf, up) })
				}
			}
		}
	}
	for i, a := range []func(string) []string{
		func(string) []string { return nil },
		func(p string) []string { return []string{"-conf", p + ".missing"} },
		func(p string) []string { return []string{"-conf", filepath.Dir(p)} },
		func(p string) []string { return []string{"-conf="} },
	} {
		a := a
		c.Plain(fmt.Sprintf("nofile/%d", i), func() {
			r := startRouter(yamlOf(0, pool[:1], spool[:1]), a, []string{pool[0].addr(), spool[0].addr()})
			if len(r.listen) > 0 || !r.h.Done() || r.ended == "main returned" || r.ended == "exit 0" {
				fail("the router started without a configuration: listens on %q, ended %q", r.listen, r.ended)
			}
			cx.Trans(1)
		})
	}
	c.Plain("inuse/0", func() {
		up := []string{pool[0].addr(), spool[0].addr()}
		conf := yamlOf(0, pool[:1], spool[:1])
		vnetListenErr = errors.New("address already in use")
		defer func() { vnetListenErr = nil }()
		r := startRouterBusy(conf, up)
		if !r.h.Done() || r.ended == "main returned" || r.ended == "exit 0" {
			fail("the router did not end with an error although its port is taken: %q", r.ended)
		}
	})
}

var vnetListenErr error

func startRouterBusy(conf string, up []string) *routerRun {
	return startRouterWith(conf, confArgs, up, func(n, a string) (net.Listener, error) { return nil, vnetListenErr })
}
