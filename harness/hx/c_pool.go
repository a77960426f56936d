package main

import (
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"os"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/internal/zverif/fmc"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func init() {
	register("C11", c11, "one case = one set of server names in one order; keys are constructed for every ring point's hash, the one before and the one after, and the pool's choice is compared with an oracle written from the rule; adding and removing each server is checked as well")
	register("C12", c12, "one case = one operation on a SinglePool of 1-4 servers with a key of each owner, or one key list of a multi-get, with every set of failing servers and every order of map iteration")
	register("C13", c13, "one case = one sequence of operations on a ReplicaPool of 1-3 primaries and 1-3 secondaries; every store is compared with the model after every step")
	register("C14", c14, "one case = one write or read on a ReplicaPool whose primary or secondary connection fails at one byte of its exchange in one way, then further operations, Reconnect and further writes; results and both stores are judged")
}

// stub is a client.Server that records what it is asked.
type stub struct {
	name  string
	calls []string
	err   map[string]error
	n     int64
}

func (s *stub) call(op string, a ...interface{}) error {
	s.calls = append(s.calls, op+fmt.Sprint(a...))
	return s.err[op]
}
func (s *stub) Name() string     { return s.name }
func (s *stub) Close() error     { return s.call("close") }
func (s *stub) Flush() error     { return s.call("flush") }
func (s *stub) Reconnect() error { return s.call("reconnect") }
func (s *stub) Get(key string) (*client.Item, error) {
	if err := s.call("get", key); err != nil {
		return nil, err
	}
	return &client.Item{Key: key, Value: []byte(s.name + ":" + key), Flags: []byte{1, 2, 3, 4}, Cas: 77, Server: s.name}, nil
}
func (s *stub) GetMulti(keys ...string) ([]*client.Item, error) {
	for _, k := range keys {
		s.calls = append(s.calls, "multi"+k)
	}
	if err := s.err["multi"]; err != nil {
		return nil, err
	}
	var out []*client.Item
	for _, k := range keys {
		if !strings.HasPrefix(k, "miss") {
			out = append(out, &client.Item{Key: k, Value: []byte(s.name + ":" + k), Flags: []byte{1, 2, 3, 4}, Cas: 77})
		}
	}
	return out, nil
}
func (s *stub) item(op string, it *client.Item) error {
	return s.call(op, it.Key, "=", string(it.Value), " ", it.Flags, " ", it.Expiration, " ", it.Cas)
}
func (s *stub) Set(it *client.Item) error     { return s.item("set", it) }
func (s *stub) Add(it *client.Item) error     { return s.item("add", it) }
func (s *stub) Replace(it *client.Item) error { return s.item("replace", it) }
func (s *stub) Delete(key string) error       { return s.call("delete", key) }
func (s *stub) Increment(key string, d, e int) (int64, error) {
	err := s.call("incr", key, " ", d, " ", e)
	return s.n, err
}
func (s *stub) Decrement(key string, d, e int) (int64, error) {
	err := s.call("decr", key, " ", d, " ", e)
	return s.n, err
}
func (s *stub) Touch(key string, e int) error { return s.call("touch", key, " ", e) }
func (s *stub) Version() (string, error) {
	return "v-" + s.name, s.call("version")
}

var _ client.Server = &stub{}

func stubs(names []string) ([]*stub, []client.Server) {
	var ss []*stub
	var cs []client.Server
	for _, n := range names {
		s := &stub{name: n, err: map[string]error{}, n: 1<<40 + 7}
		ss = append(ss, s)
		cs = append(cs, s)
	}
	return ss, cs
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var ringNames = [][]string{
	{"a"}, {"server1", "server2"}, {"server1", "server2", "server3"}, {"10.0.0.1:11211", "10.0.0.2:11211"}, {"mc-0.mc.svc", "mc-1.mc.svc", "mc-2.mc.svc", "mc-3.mc.svc"},
	{"", "x"}, {"a", "a/1", "a/1/1"}, {"primary-1", "primary-2", "primary-3", "primary-4", "primary-5"}, {"日本", "ü", " "}, {"1", "2", "3", "4"}, {"S", "s"}, {"server-1", "server-10", "server-100"},
	// servers that have a point in common
	{"node-86", "node-93"}, {"server331", "server6"}, {"cache412", "other", "cache615"}, {"x", "10.0.140.1:11211", "10.0.842.1:11211", "y"}, {"mc-181:11211", "mc-121:11211", "mc-704:11211", "mc-926:11211"},
}

func c11(c *Ctx) {
	sets := ringNames
	if c.Thorough() {
		for n := 6; n <= 12; n++ {
			var s []string
			for i := 0; i < n; i++ {
				s = append(s, fmt.Sprintf("node%d.example:11211", i))
			}
			sets = append(sets, s)
		}
		for i := 0; i < 60; i++ {
			sets = append(sets, []string{fmt.Sprintf("x%d", i), fmt.Sprintf("y%d", i*i), fmt.Sprintf("z%d", 3*i)})
		}
	}
	for si, names := range sets {
		names := names
		orders := orders(len(names))
		for oi, ord := range orders {
			ord := ord
			c.Case(fmt.Sprintf("ring/%d/%d", si, oi), CaseOpt{MapOrder: len(names) <= 3, MaxExecs: 30}, func() {
				var list []string
				for _, i := range ord {
					list = append(list, names[i])
				}
				_, cs := stubs(list)
				ring := client.NewRing(cs...)
				checkRing(names, func(key string) string { return ring.Pick(key).Name() }, oi == 0 || c.Thorough())
				_, cs0 := stubs(names)
				ring0 := client.NewRing(cs0...)
				for _, p := range ringPoints(names) {
					for d := -1; d <= 1; d++ {
						k := keyWithHash(p.h+uint32(d), "")
						if a, b := ring0.Pick(k).Name(), ring.Pick(k).Name(); a != b {
							fail("key %q is placed on %q when the servers are given as %q and on %q when as %q", k, a, names, b, list)
						}
					}
				}
				for _, n := range names {
					if s := ring.Find(n); s == nil || s.Name() != n {
						fail("Find(%q) returned another server", n)
					}
				}
				cx.State(fmt.Sprint(list))
			})
			if oi == 0 {
				// keys of every shape: each pair of bytes at the front, at the end and alone, and each length
				c.Plain(fmt.Sprintf("keys/%d", si), func() {
					_, cs := stubs(names)
					ring := client.NewRing(cs...)
					ps := ringPoints(names)
					check := func(key string) {
						got := ring.Pick(key).Name()
						if own := ownersOf(ps, crc32.ChecksumIEEE([]byte(key))); !in(own, got) {
							fail("key %q is placed on %q and belongs to %v", short(key), got, own)
						}
						cx.Trans(1)
					}
					for x := 0x21; x < 256; x++ {
						check(string([]byte{byte(x)}))
						for y := 0x21; y < 256; y++ {
							p := string([]byte{byte(x), byte(y)})
							check(p)
							check(p + "user:42")
							check("user:42" + p)
							check("{tag}" + p)
							check(p + "{tag}:" + p)
						}
					}
					for n := 1; n <= 250; n++ {
						for _, k := range []string{"k", "0", ".", "a:", "{a}", "日本"} {
							k = strings.Repeat(k, n)[:n]
							check(k)
							check(k[:n-1] + "!")
							check("!" + k[1:])
						}
					}
					cx.State(fmt.Sprint("keys", names))
				})
			}
			// through the pools
			c.Case(fmt.Sprintf("pool/%d/%d", si, oi), CaseOpt{}, func() {
				var list []string
				for _, i := range ord {
					list = append(list, names[i])
				}
				ss, cs := stubs(list)
				pool, err := client.NewSinglePool(cs...)
				if err != nil {
					fail("NewSinglePool: %v", err)
				}
				checkRing(names, func(key string) string {
					for _, s := range ss {
						s.calls = nil
					}
					if err := pool.Delete(key); err != nil {
						fail("Delete: %v", err)
					}
					who := ""
					for _, s := range ss {
						if len(s.calls) > 0 {
							who += s.name
						}
					}
					return who
				}, false)
			})
		}
		// removing a server moves only its keys; adding one moves only to it
		for ri := range names {
			if len(names) == 1 {
				continue
			}
			ri := ri
			c.Plain(fmt.Sprintf("change/%d/%d", si, ri), func() {
				var rest []string
				for i, n := range names {
					if i != ri {
						rest = append(rest, n)
					}
				}
				_, all := stubs(names)
				_, less := stubs(rest)
				r1, r2 := client.NewRing(all...), client.NewRing(less...)
				for _, p := range ringPoints(names) {
					for d := -1; d <= 1; d++ {
						k := keyWithHash(p.h+uint32(d), "")
						a, b := r1.Pick(k).Name(), r2.Pick(k).Name()
						if a != b && a != names[ri] {
							fail("removing %q moved a key from %q to %q", names[ri], a, b)
						}
						cx.Trans(1)
					}
				}
			})
		}
	}
	// many servers, and names of every length
	for _, n := range []int{7, 8, 10, 16, 17, 21, 31, 32, 33, 64, 65, 100, 128, 129, 163, 164, 200, 256, 257, 300, 327, 328, 400} {
		for kind := 0; kind < 3; kind++ {
			n, kind := n, kind
			if kind == 2 && n > 128 && !c.Thorough() {
				continue
			}
			var names []string
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					names = append(names, fmt.Sprintf("10.%d.%d.7:11211", i/16, i*5%256))
				case 1:
					names = append(names, fmt.Sprintf("mc-%d.memcached.default.svc.cluster.local", i))
				case 2:
					names = append(names, strings.Repeat("n", i)+fmt.Sprint(i%7))
				}
			}
			c.Plain(fmt.Sprintf("big/%d/%d", n, kind), func() {
				_, cs := stubs(names)
				ring := client.NewRing(cs...)
				checkRing(names, func(key string) string { return ring.Pick(key).Name() }, false)
				for i, name := range names {
					if s := ring.Find(name); s != cs[i] {
						fail("Find(%q) returned another server", name)
					}
				}
				back := make([]client.Server, n)
				for i := range cs {
					back[n-1-i] = cs[i]
				}
				ring2 := client.NewRing(back...)
				for i := 0; i < 20000; i++ {
					k := fmt.Sprintf("user:%d", i)
					if a, b := ring.Pick(k).Name(), ring2.Pick(k).Name(); a != b {
						fail("key %q is placed on %q or %q, by the order of the servers", k, a, b)
					}
				}
				each := map[string]int{}
				if err := ring.Each(func(s client.Server) error { each[s.Name()]++; return nil }); err != nil || len(each) != n {
					fail("Each visited %d of %d servers: %v", len(each), n, err)
				}
				cx.State(fmt.Sprint(names))
			})
		}
	}
	// replica pools place by the names of each side
	for np := 1; np <= c.Pick(2, 3); np++ {
		for ns := 1; ns <= c.Pick(2, 3); ns++ {
			np, ns := np, ns
			c.Plain(fmt.Sprintf("replica/%d/%d", np, ns), func() {
				r := newRep(np, ns, 0)
				for i, side := range [][]string{r.pn, r.sn} {
					for j, p := range ringPoints(side) {
						if j%c.Pick(4, 1) != 0 {
							continue
						}
						for d := -1; d <= 1; d++ {
							k := keyWithHash(p.h+uint32(d), "r")
							if err := r.pool.Set(&client.Item{Key: k, Value: []byte("v")}); err != nil {
								fail("Set: %v", err)
							}
							for _, n := range side {
								has := r.w.Stores[n].Get(k) != nil
								if own := ownersOf(ringPoints(side), p.h+uint32(d)); has != in(own, n) && len(own) == 1 {
									fail("side %d: key %q belongs to %v, %s holds it: %v", i, k, own, n, has)
								}
								delete(r.w.Stores[n].M, k)
							}
							for _, st := range r.w.Stores {
								delete(st.M, k)
							}
							cx.Trans(1)
						}
					}
				}
			})
		}
	}
}

func checkRing(names []string, pick func(string) string, full bool) {
	ps := ringPoints(names)
	probe := func(h uint32) {
		k := keyWithHash(h, "")
		got := pick(k)
		if o := ownersOf(ps, h); !in(o, got) {
			fail("servers %q: key %q (hash %#08x) went to %q, owner is %q", names, k, h, got, o[0])
		}
		cx.Trans(1)
	}
	for i, p := range ps {
		probe(p.h)
		probe(p.h - 1)
		probe(p.h + 1)
		if full && i+1 < len(ps) {
			probe(p.h + (ps[i+1].h-p.h)/2)
		}
	}
	for _, h := range []uint32{0, 1, 1 << 31, 1<<31 - 1, ^uint32(0), ^uint32(0) - 1} {
		probe(h)
	}
	for _, k := range []string{"a", "foo", "bar", "user:1", strings.Repeat("k", 250), "日本語"} {
		if o, got := ownersOf(ps, crc32.ChecksumIEEE([]byte(k))), pick(k); !in(o, got) {
			fail("servers %q: key %q went to %q, owner is %q", names, k, got, o[0])
		}
	}
}

func c12(c *Ctx) {
	c12shared(c)
	boom := errors.New("boom")
	// what a connection may fail with
	failures := []error{boom, io.EOF, net.ErrClosed, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF, &net.OpError{Op: "read", Err: net.ErrClosed}}
	type sop struct {
		name, want string // want is what the owner must be asked
		do         func(p *client.SinglePool, key string) (string, error)
		ret        string // what a success returns
	}
	it := func(k string) *client.Item {
		return &client.Item{Key: k, Value: []byte("val"), Flags: []byte{9, 8, 7, 6}, Expiration: 50, Cas: 1<<60 + 1}
	}
	istr := " [9 8 7 6] 50 1152921504606846977"
	ops := []sop{
		{"get", "get%K", func(p *client.SinglePool, k string) (string, error) {
			i, err := p.Get(k)
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("%s=%s %x %d", i.Key, i.Value, i.Flags, i.Cas), nil
		}, "%K=%S:%K 01020304 77"},
		{"set", "set%K=val" + istr, func(p *client.SinglePool, k string) (string, error) { return "", p.Set(it(k)) }, ""},
		{"add", "add%K=val" + istr, func(p *client.SinglePool, k string) (string, error) { return "", p.Add(it(k)) }, ""},
		{"replace", "replace%K=val" + istr, func(p *client.SinglePool, k string) (string, error) { return "", p.Replace(it(k)) }, ""},
		{"delete", "delete%K", func(p *client.SinglePool, k string) (string, error) { return "", p.Delete(k) }, ""},
		{"incr", "incr%K 12345678901 60", func(p *client.SinglePool, k string) (string, error) {
			n, err := p.Increment(k, 12345678901, 60)
			return fmt.Sprint(n), err
		}, fmt.Sprint(1<<40 + 7)},
		{"decr", "decr%K 3 70", func(p *client.SinglePool, k string) (string, error) {
			n, err := p.Decrement(k, 3, 70)
			return fmt.Sprint(n), err
		}, fmt.Sprint(1<<40 + 7)},
		{"touch", "touch%K 99", func(p *client.SinglePool, k string) (string, error) { return "", p.Touch(k, 99) }, ""},
	}
	sets := [][]string{{"s1"}, {"s1", "s2"}, {"s1", "s2", "s3"}, {"w", "x", "y", "z"}, {"primary-1", "primary-2", "primary-3", "primary-4", "primary-5"}}
	for ni, names := range sets {
		names := names
		for _, op := range ops {
			op := op
			for _, owner := range names {
				owner := owner
				for fi, e := range append([]error{nil, merrors.ItemNotFound, merrors.ItemExists}, failures...) {
					e := e
					c.Case(fmt.Sprintf("route/%d/%s/%s/%d", ni, op.name, owner, fi), CaseOpt{MapOrder: true, MaxExecs: 200}, func() {
						ss, cs := stubs(names)
						pool, err := client.NewSinglePool(cs...)
						if err != nil {
							fail("NewSinglePool: %v", err)
						}
						for _, k := range keysFor(names, owner, 3) {
							for _, s := range ss {
								s.calls = nil
								if s.name == owner {
									s.err[op.name] = e
								}
							}
							got, err := op.do(pool, k)
							rep := strings.NewReplacer("%K", k, "%S", owner)
							if err != e {
								fail("%s %s: error %v, the owner returned %v", op.name, k, err, e)
							}
							if e == nil && got != rep.Replace(op.ret) {
								fail("%s %s: returned %q, the owner %q", op.name, k, got, rep.Replace(op.ret))
							}
							for _, s := range ss {
								want := ""
								if s.name == owner {
									want = rep.Replace(op.want)
								}
								if g := strings.Join(s.calls, ";"); g != want {
									fail("%s %s (owner %s): server %s was asked %q, want %q", op.name, k, owner, s.name, g, want)
								}
							}
							cx.Trans(1)
							cx.State(op.name + k + fmt.Sprint(names))
						}
					})
				}
			}
		}
		// several servers at once
		for bad := 0; bad < 1<<len(names); bad++ {
			for _, what := range []string{"flush", "version", "close"} {
				for fi := range failures {
					if fi > 0 && bad == 0 {
						break
					}
					bad, what, fi := bad, what, fi
					c.Case(fmt.Sprintf("each/%d/%b/%s/%d", ni, bad, what, fi), CaseOpt{MapOrder: true, MaxExecs: 4000}, func() {
						ss, cs := stubs(names)
						pool, _ := client.NewSinglePool(cs...)
						for i, s := range ss {
							if bad>>i&1 == 1 {
								for _, o := range []string{"flush", "version", "close"} {
									s.err[o] = failures[fi]
								}
							}
						}
						seen := func(op string) {
							for _, s := range ss {
								n := 0
								for _, x := range s.calls {
									if x == op {
										n++
									}
								}
								if n > 1 || n == 0 && (bad == 0 || op == "close") {
									fail("%s reached server %s %d times", op, s.name, n)
								}
								s.calls = nil
							}
						}
						switch what {
						case "flush":
							if err := pool.Flush(); (err != nil) != (bad != 0) {
								fail("Flush returned %v with failing servers %b", err, bad)
							}
						case "version":
							v, err := pool.Version()
							if (err != nil) != (bad != 0) {
								fail("Version returned %v with failing servers %b", err, bad)
							}
							for _, n := range names {
								if bad == 0 && v[n] != "v-"+n {
									fail("Version of %s is %q", n, v[n])
								}
							}
							if bad == 0 && len(v) != len(names) {
								fail("Version returned %v", v)
							}
						case "close":
							if err := pool.Close(); (err != nil) != (bad != 0) {
								fail("Close returned %v with failing servers %b", err, bad)
							}
						}
						seen(what)
						vsched.Observe("%d %b", len(names), bad)
					})
				}
			}
		}
	}
	// multi-gets
	for ni, names := range sets[:3] {
		names := names
		var keys []string
		for _, n := range names {
			keys = append(keys, keysFor(names, n, 2)...)
		}
		for i := 0; ; i++ {
			if k := fmt.Sprintf("miss%d", i); ownerOfKey(names, k) == names[len(names)-1] {
				keys = append(keys, k)
				break
			}
		}
		for n := 0; n <= c.Pick(4, 5); n++ {
			idx := make([]int, n)
			for {
				var list []string
				name := ""
				for _, k := range idx {
					list = append(list, keys[k])
					name += fmt.Sprint(k)
				}
				for bad := 0; bad < 1<<len(names); bad++ {
					bad := bad
					if bad != 0 && n > 3 {
						continue
					}
					for fi := range failures {
						if fi > 0 && (bad == 0 || n > 2) {
							break
						}
						fi := fi
						c.Case(fmt.Sprintf("multi/%d/%s/%b/%d", ni, name, bad, fi), CaseOpt{MapOrder: true, MaxExecs: 500}, func() {
							ss, cs := stubs(names)
							pool, _ := client.NewSinglePool(cs...)
							hit := false
							wantAsk := map[string]map[string]bool{}
							for _, k := range list {
								o := ownerOfKey(names, k)
								if wantAsk[o] == nil {
									wantAsk[o] = map[string]bool{}
								}
								wantAsk[o]["multi"+k] = true
							}
							for i, s := range ss {
								if bad>>i&1 == 1 {
									s.err["multi"] = failures[fi]
									hit = hit || wantAsk[s.name] != nil
								}
							}
							its, err := pool.GetMulti(list...)
							if (err != nil) != hit {
								fail("GetMulti(%q) returned error %v with failing servers %b", list, err, bad)
							}
							for _, s := range ss {
								for _, x := range s.calls {
									if !wantAsk[s.name][x] {
										fail("server %s was asked for %s", s.name, x)
									}
								}
								if err == nil && len(s.calls) == 0 && wantAsk[s.name] != nil {
									fail("server %s was not asked", s.name)
								}
							}
							if err != nil {
								return
							}
							want := map[string]int{}
							for _, k := range list {
								if !strings.HasPrefix(k, "miss") {
									want[k]++
								}
							}
							for _, it := range its {
								if it == nil {
									fail("GetMulti returned a nil item")
								}
								if string(it.Value) != ownerOfKey(names, it.Key)+":"+it.Key {
									fail("GetMulti returned %q=%q", it.Key, it.Value)
								}
								want[it.Key]--
							}
							for k, n := range want {
								if n != 0 {
									fail("GetMulti(%q): %d items too few for %q", list, n, k)
								}
							}
							vsched.Observe("%d", len(its))
						})
					}
				}
				i := n - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < len(keys) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}
	c12long(c, failures)
	// real servers with mixed protocols
	alpha := func(names []string) []Op {
		a, b := keysFor(names, names[0], 1)[0], keysFor(names, names[1], 1)[0]
		return []Op{{K: "set", Key: a, Val: "10", Flags: []byte{1, 0, 0, 2}, Exp: 50}, {K: "set", Key: b, Val: "20"}, {K: "get", Key: a}, {K: "multi", Keys: []string{b, "none", a}}, {K: "cas", Key: a, Val: "30"}, {K: "add", Key: b, Val: "4"},
			{K: "replace", Key: a, Val: "5"}, {K: "delete", Key: b}, {K: "incr", Key: a, Delta: 3}, {K: "decr", Key: b, Delta: 1}, {K: "touch", Key: a, Exp: 77}, {K: "flush"}}
	}
	for _, p := range protos {
		p := p
		names := []string{addr1, addr2}
		seqs(alpha(names), c.Pick(3, 4), func(name string, ops []Op) {
			c.Case(fmt.Sprintf("real/%s/%s", p, name), CaseOpt{MapOrder: true, MaxExecs: 64}, func() {
				w := NewWorld(names...)
				pool, err := client.NewSinglePool(MustConnect(p, addr1, addr1, time.Second), MustConnect(p, addr2, addr2, time.Second))
				if err != nil {
					fail("NewSinglePool: %v", err)
				}
				m := NewModel(p)
				r := NewRunner(pool)
				keys := []string{ops[0].Key, "none"}
				for _, k := range alpha(names)[:2] {
					keys = append(keys, k.Key)
				}
				for _, op := range ops {
					want := m.Do(op)
					if d := Compare(p, op, r.Do(op), want); d != "" {
						fail("%s", d)
					}
					if d := unionDiff(w, m, keys[1:], names...); d != "" {
						fail("after %v: %s", op, d)
					}
					for _, k := range keys[2:] {
						for _, n := range names {
							if n != ownerOfKey(names, k) && w.Stores[n].Get(k) != nil {
								fail("%s holds %q which belongs to %s", n, k, ownerOfKey(names, k))
							}
						}
					}
					cx.Trans(1)
					cx.State(p + w.Dump())
				}
				if b := w.Bad(); len(b) > 0 {
					fail("a server was sent a malformed request: %s", b[0])
				}
			})
		})
	}
}

// c12long: many servers, long key lists, and a pool that has been used, or has
// failed, many times.
func c12long(c *Ctx, failures []error) {
	var crowd []string
	for i := 0; i < 40; i++ {
		crowd = append(crowd, fmt.Sprintf("mc-%d.example:11211", i))
	}
	sets := [][]string{{"s1"}, {"s1", "s2"}, {"s1", "s2", "s3"}, crowd[:9], crowd}
	ask := func(names []string, ss []*stub, pool *client.SinglePool, list []string, bad map[string]bool) {
		for _, s := range ss {
			s.calls, s.err["multi"] = nil, nil
			if bad[s.name] {
				s.err["multi"] = failures[0]
			}
		}
		want, owner, hit := map[string]int{}, map[string]string{}, false
		for _, k := range list {
			owner[k] = ownerOfKey(names, k)
			hit = hit || bad[owner[k]]
			if !strings.HasPrefix(k, "miss") {
				want[k]++
			}
		}
		its, err := pool.GetMulti(list...)
		if (err != nil) != hit {
			fail("GetMulti of %d keys on %d servers returned error %v with failing servers %v", len(list), len(names), err, bad)
		}
		if err != nil {
			return
		}
		for _, it := range its {
			if it == nil {
				fail("GetMulti returned a nil item")
			}
			if string(it.Value) != owner[it.Key]+":"+it.Key {
				fail("GetMulti returned %q=%q", it.Key, it.Value)
			}
			want[it.Key]--
		}
		for k, n := range want {
			if n != 0 {
				fail("GetMulti of %d keys on %d servers: %d items too few for %q", len(list), len(names), n, k)
			}
		}
		cx.Trans(1)
	}
	for ni, names := range sets {
		names := names
		for _, n := range []int{1, 9, 10, 16, 17, 64, 65, 100, 101, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 4095, 4097, 5000, 10001, 65537} {
			if n > 2000 && len(names) > 3 && !c.Thorough() {
				continue
			}
			for shape := 0; shape < 3; shape++ {
				n, shape := n, shape
				c.Case(fmt.Sprintf("long/%d/%d/%d", ni, n, shape), CaseOpt{MapOrder: len(names) < 3, MaxExecs: 20}, func() {
					ss, cs := stubs(names)
					pool, _ := client.NewSinglePool(cs...)
					var list []string
					for i := 0; i < n; i++ {
						switch {
						case shape == 1 && i%3 == 2:
							list = append(list, fmt.Sprintf("miss-%d", i))
						case shape == 2 && i%2 == 1:
							list = append(list, list[i/2]) // asked for twice
						default:
							list = append(list, fmt.Sprintf("key-%d", i))
						}
					}
					ask(names, ss, pool, list, nil)
					ask(names, ss, pool, list, map[string]bool{ownerOfKey(names, list[n-1]): true})
					ask(names, ss, pool, list, nil)
					cx.State(fmt.Sprint(ni, n, shape))
				})
			}
		}
		// again and again, with every result in between
		for _, fails := range []bool{false, true} {
			fails := fails
			for _, what := range []string{"multi", "get", "set", "incr", "flush", "version", "touch"} {
				what := what
				c.Plain(fmt.Sprintf("again/%d/%v/%s", ni, fails, what), func() {
					ss, cs := stubs(names)
					pool, _ := client.NewSinglePool(cs...)
					var list []string
					for i := 0; i < 6; i++ {
						list = append(list, fmt.Sprintf("key-%d", i))
					}
					own := ownerOfKey(names, list[0])
					set := func(e error) {
						for _, s := range ss {
							s.calls = nil
							if s.err[what] = nil; s.name == own || what == "flush" || what == "version" {
								s.err[what] = e
							}
						}
					}
					do := func() error {
						switch what {
						case "multi":
							_, err := pool.GetMulti(list...)
							return err
						case "get":
							_, err := pool.Get(list[0])
							return err
						case "set":
							return pool.Set(&client.Item{Key: list[0], Value: []byte("v")})
						case "incr":
							_, err := pool.Increment(list[0], 1, 0)
							return err
						case "touch":
							return pool.Touch(list[0], 5)
						case "flush":
							return pool.Flush()
						}
						_, err := pool.Version()
						return err
					}
					for i := 0; i < c.Pick(1100, 70000); i++ {
						e := error(nil)
						if fails {
							e = failures[i%len(failures)]
						}
						set(e)
						if err := do(); (err != nil) != fails {
							fail("call %d of %s returned %v, the server %v", i+1, what, err, e)
						}
						cx.Trans(1)
					}
					set(nil)
					if err := do(); err != nil {
						fail("%s returned %v after the server works again", what, err)
					}
					ask(names, ss, pool, list, nil)
					cx.State(fmt.Sprint(ni, fails, what))
				})
			}
		}
		// each operation that is for all servers, with each server failing
		for _, what := range []string{"flush", "version", "close"} {
			for bad := -1; bad < len(names); bad++ {
				what, bad := what, bad
				c.Plain(fmt.Sprintf("all/%d/%s/%d", ni, what, bad), func() {
					ss, cs := stubs(names)
					pool, _ := client.NewSinglePool(cs...)
					if bad >= 0 {
						ss[bad].err[what] = failures[0]
					}
					var err error
					switch what {
					case "flush":
						err = pool.Flush()
					case "version":
						var v map[string]string
						v, err = pool.Version()
						for _, n := range names {
							if bad < 0 && v[n] != "v-"+n || bad < 0 && len(v) != len(names) {
								fail("Version of %d servers returned %v", len(names), v)
							}
						}
					case "close":
						err = pool.Close()
					}
					if (err != nil) != (bad >= 0) {
						fail("%s of %d servers returned %v, failing server %d", what, len(names), err, bad)
					}
					for _, s := range ss {
						if len(s.calls) != 1 && (bad < 0 || what == "close") {
							fail("%s reached server %s %d times", what, s.name, len(s.calls))
						}
					}
					cx.Trans(1)
					cx.State(fmt.Sprint(ni, what, bad))
				})
			}
		}
	}
}

// rep is a ReplicaPool over reference servers at p1.. and s1..; the names of
// the servers are their addresses unless newRepNamed says otherwise.
type rep struct {
	w      *World
	pool   *cluster.ReplicaPool
	pn, sn []string // names
	conns  map[string]*client.ServerWithMetaProtocol
	m      *Model
	r      *Runner
}

func newRep(np, ns int, timeout time.Duration) *rep {
	names := func(side string, n int) (l []string) {
		for i := 1; i <= n; i++ {
			l = append(l, fmt.Sprintf("%s%d:11211", side, i))
		}
		return l
	}
	return newRepNamed(names("p", np), names("s", ns), timeout)
}

func newRepNamed(pn, sn []string, timeout time.Duration) *rep {
	r := &rep{conns: map[string]*client.ServerWithMetaProtocol{}, pn: pn, sn: sn}
	expSlack = 0
	var addrs []string
	for _, n := range pn {
		addrs = append(addrs, r.at("p", n))
	}
	for _, n := range sn {
		addrs = append(addrs, r.at("s", n))
	}
	r.w = NewWorld(addrs...)
	r.connect(timeout)
	r.m = NewModel("meta")
	r.r = NewRunner(r.pool)
	return r
}

func (r *rep) names(side string) []string {
	if side == "p" {
		return r.pn
	}
	return r.sn
}

// at returns the address of the server of that side and name.
func (r *rep) at(side, name string) string {
	for i, n := range r.names(side) {
		if n == name {
			return fmt.Sprintf("%s%d:11211", side, i+1)
		}
	}
	panic("no server " + name)
}

func (r *rep) store(side, name string) *fmc.Store { return r.w.Stores[r.at(side, name)] }

func (r *rep) owner(side, key string) *fmc.Store {
	return r.store(side, ownerOfKey(r.names(side), key))
}

func (r *rep) connect(timeout time.Duration) {
	conns := func(side string) []*client.ServerWithMetaProtocol {
		var l []*client.ServerWithMetaProtocol
		for _, n := range r.names(side) {
			a := r.at(side, n)
			s := MustConnect("meta", n, a, timeout).(*client.ServerWithMetaProtocol)
			r.conns[a] = s
			l = append(l, s)
		}
		return l
	}
	r.pool = cluster.NewReplicaPool(conns("p"), conns("s"))
}

// sideDiff checks that exactly the owners of one side hold what m says.
func (r *rep) sideDiff(side string, m *Model, keys []string) string {
	for _, k := range keys {
		own := ownerOfKey(r.names(side), k)
		for _, n := range r.names(side) {
			if n == own {
				if d := storeDiff(r.store(side, n), m, []string{k}); d != "" {
					return n + ": " + d
				}
			} else if r.store(side, n).Get(k) != nil {
				return fmt.Sprintf("%s holds %q which belongs to %s", n, k, own)
			}
		}
	}
	return ""
}

func (r *rep) bothDiff(m *Model, keys []string) string {
	if d := r.sideDiff("p", m, keys); d != "" {
		return "primary " + d
	}
	if d := r.sideDiff("s", m, keys); d != "" {
		return "secondary " + d
	}
	return ""
}

func c13(c *Ctx) {
	c13shared(c)
	run := func(group string, np, ns, depth int, alpha []Op, opt CaseOpt) {
		seqs(alpha, depth, func(name string, ops []Op) {
			c.Case(fmt.Sprintf("%s/%d.%d/%s", group, np, ns, name), opt, func() {
				r := newRep(np, ns, time.Second)
				keys := []string{"a", "b", "n"}
				r.history(ops, keys)
			})
		})
	}
	one := []Op{
		{K: "set", Key: "a", Val: "1", Flags: []byte{0, 0, 0, 3}, Exp: 40}, {K: "get", Key: "a"}, {K: "cas", Key: "a", Val: "2", Flags: []byte{0x80, 0, 0, 0}}, {K: "casold", Key: "a", Val: "3"},
		{K: "add", Key: "a", Val: "4", Exp: 5, Flags: []byte{0, 0, 4, 0}}, {K: "replace", Key: "a", Val: "5", Exp: 7}, {K: "delete", Key: "a"}, {K: "incr", Key: "a", Delta: 1}, {K: "decr", Key: "a", Delta: 2}, {K: "wait", Exp: 6}, {K: "xset", Key: "a", Val: "44"}, {K: "xdel", Key: "a"},
	}
	run("one", 1, 1, c.Pick(4, 5), one, CaseOpt{})
	two := []Op{
		{K: "set", Key: "a", Val: "1", Exp: 40}, {K: "set", Key: "b", Val: "x\r\nEN\r\n", Flags: []byte{1, 2, 3, 4}}, {K: "multi", Keys: []string{"b", "none", "a"}}, {K: "rmw", Key: "a"}, {K: "rmw", Key: "b"},
		{K: "add", Key: "b", Val: "4"}, {K: "replace", Key: "a", Val: "5"}, {K: "delete", Key: "b"}, {K: "incr", Key: "a", Delta: 1 << 40}, {K: "decr", Key: "b", Delta: 2}, {K: "set", Key: "n", Val: "7"},
		{K: "s-del", Key: "a"}, {K: "s-set", Key: "b", Val: "diverged"}, {K: "get", Key: "b"}, {K: "xset", Key: "b", Val: "xx"}, {K: "xdel", Key: "a"},
	}
	for np := 1; np <= 3; np++ {
		for ns := 1; ns <= 3; ns++ {
			d := 3
			if c.Thorough() && np+ns <= 4 {
				d = 4
			}
			run("two", np, ns, d, two, CaseOpt{MapOrder: np > 1, MaxExecs: 24})
		}
	}
	// servers of the two sides that have the same name
	sides := [][2][]string{
		{{"a"}, {"a"}}, {{"x", "y"}, {"x", "y"}}, {{"x", "y"}, {"y", "x"}}, {{"x", "y"}, {"y", "z"}}, {{"x", "y", "z"}, {"z", "x"}}, {{"x"}, {"y", "x"}},
	}
	for i, s := range sides {
		s := s
		seqs(two, c.Pick(2, 3), func(name string, ops []Op) {
			c.Case(fmt.Sprintf("names/%d/%s", i, name), CaseOpt{MapOrder: true, MaxExecs: 24}, func() {
				r := newRepNamed(s[0], s[1], time.Second)
				r.history(append(append([]Op(nil), two[0], two[1], two[10], Op{K: "s-set", Key: "n", Val: "0"}), ops...), []string{"a", "b", "n"})
			})
		})
	}
	// values and flags of every shape arrive on both sides
	for _, v := range valueShapes {
		for fi, f := range flagShapes {
			for _, exp := range []int{0, 100, 60*60*24*30 + 1, 1_800_000_500} {
				for _, mode := range storeModes {
					op := Op{Key: "a", Val: v.val, Flags: f, Exp: exp}
					ops := append(storeHistory(mode, op), Op{K: "get", Key: "a"}, Op{K: "incr", Key: "a", Delta: 1}, Op{K: "decr", Key: "a", Delta: 3}, Op{K: "multi", Keys: []string{"a"}})
					c.Plain(fmt.Sprintf("shape/%s/f%d/%d/%s", v.name, fi, exp, mode), func() {
						r := newRep(2, 2, time.Second)
						r.history(ops, []string{"a"})
					})
				}
			}
		}
	}
	// a server that takes its time
	for oi, op := range append(append([]Op(nil), repOps...), Op{K: "rmw", Key: "a"}, Op{K: "casold", Key: "a", Val: "x"}, Op{K: "set", Key: "a", Val: "t", Exp: 1_900_000_000}, Op{K: "replace", Key: "b", Val: "t", Exp: 1_900_000_000}, Op{K: "delete", Key: "none"}) {
		op := op
		for _, side := range []string{"p1:11211", "s1:11211"} {
			for _, timeout := range []time.Duration{0, 10 * time.Minute} {
				for _, lag := range []time.Duration{10 * time.Millisecond, 999 * time.Millisecond, 1500 * time.Millisecond, 5500 * time.Millisecond, 29 * time.Second, 100 * time.Second, 4 * time.Minute} {
					for where, plan := range []Plan{{RepCut: -1, ReqCut: 0}, {RepCut: -1, ReqCut: 7}, {RepCut: 0, ReqCut: -1}, {RepCut: 3, ReqCut: -1}} {
						side, timeout, lag, plan := side, timeout, lag, plan
						c.Plain(fmt.Sprintf("late/%d%s/%s/%s/%s/%d", oi, op.K, side[:1], timeout, lag, where), func() {
							r := newRep(1, 1, timeout)
							r.history([]Op{{K: "set", Key: "a", Val: "5", Flags: []byte{0, 0, 0, 5}}, repPrep[1], repPrep[2], repPrep[3]}, repKeys)
							l := r.link(side)
							plan := plan
							plan.Kind, plan.Lag = "late", lag
							if plan.ReqCut >= 0 {
								plan.ReqCut += l.Sent
							} else {
								plan.RepCut += l.Recv
							}
							l.Plan = plan
							r.history([]Op{op}, repKeys)
							r.history([]Op{{K: "get", Key: "a"}, {K: "set", Key: "a", Val: "later"}, {K: "incr", Key: "n", Delta: 1}, {K: "delete", Key: "b"}, {K: "get", Key: "a"}}, repKeys)
						})
					}
				}
			}
		}
	}
	// counters over the range, with expirations
	for _, start := range []string{"0", "9", "99", "100", "9223372036854775800", "x", ""} {
		for _, k := range []string{"incr", "decr"} {
			for _, d := range []int{0, 1, 10, 1 << 32} {
				for _, exp := range []int{0, 50, 60*60*24*30 + 1000, 1_800_000_900 + 60*60*24*40} {
					if start == "9223372036854775800" && d > 7 && k == "incr" {
						continue
					}
					ops := []Op{{K: "set", Key: "n", Val: start, Exp: exp, Flags: []byte{0, 0, 0, 1}}, {K: "wait", Exp: 3}, {K: k, Key: "n", Delta: d}, {K: "get", Key: "n"}, {K: k, Key: "n", Delta: d}}
					c.Plain(fmt.Sprintf("count/%s/%s/%d/%d", start, k, d, exp), func() { newRep(1, 1, time.Second).history(ops, []string{"n"}) })
				}
			}
		}
	}
}

// history runs ops on a pool; keys named in ops may have diverged by s-del and
// s-set (changes of the secondary alone) until the next successful write.
func (r *rep) history(ops []Op, keys []string) {
	diverged := map[string]bool{}
	sec := map[string]string{}
	for i, op := range ops {
		switch op.K {
		case "xset":
			r.owner("p", op.Key).Put(op.Key, []byte(op.Val), 0, 0)
			r.m.put(op.Key, op.Val, 0, 0)
			diverged[op.Key] = true
		case "xdel":
			delete(r.owner("p", op.Key).M, op.Key)
			delete(r.m.M, op.Key)
			diverged[op.Key] = true
		case "s-del":
			delete(r.owner("s", op.Key).M, op.Key)
			diverged[op.Key] = true
		case "s-set":
			r.owner("s", op.Key).Put(op.Key, []byte(op.Val), 5, 0)
			diverged[op.Key] = true
		default:
			for _, k := range keys {
				sec[k] = r.secDump(k)
			}
			secReqs := r.secBytes()
			want := r.m.Do(op)
			got := r.r.Do(op)
			if d := Compare("meta", op, got, want); d != "" {
				fail("step %d: %s", i+1, d)
			}
			wrote := got.Err == "" && in([]string{"set", "cas", "add", "replace", "delete", "incr", "decr", "casold", "rmw"}, op.K) && !want.Skip
			for _, k := range keys {
				if k == op.Key && wrote {
					diverged[k] = false
					continue
				}
				if d := r.secDump(k); d != sec[k] && op.K != "wait" {
					fail("step %d: %v (%v) changed %q on the secondary from %s to %s", i+1, op, got, k, sec[k], d)
				}
			}
			if (op.K == "get" || op.K == "multi") && r.secBytes() != secReqs {
				fail("step %d: %v was sent to a secondary", i+1, op)
			}
		}
		if d := r.sideDiff("p", r.m, keys); d != "" {
			fail("after step %d (%v): primary %s", i+1, op, d)
		}
		for _, k := range keys {
			if !diverged[k] {
				if d := r.sideDiff("s", r.m, []string{k}); d != "" {
					fail("after step %d (%v): secondary %s", i+1, op, d)
				}
			}
		}
		cx.Trans(1)
		cx.State(r.w.Dump())
	}
	if b := r.w.Bad(); len(b) > 0 {
		fail("a server was sent a malformed request: %s", b[0])
	}
	for _, l := range r.w.Links {
		if n := l.C.Pending(); n > 0 {
			fail("%d bytes of a reply were never read", n)
		}
	}
}

func (r *rep) secDump(k string) string {
	s := ""
	for _, n := range r.sn {
		if e := r.store("s", n).Get(k); e != nil {
			s += fmt.Sprintf("%s: %q %d %d %v;", n, e.Val, e.Flags, e.Exp, e.Stale)
		}
	}
	return s
}

func (r *rep) secBytes() int {
	n := 0
	for _, l := range r.w.Links {
		if l.Addr[0] == 's' {
			n += l.Sent
		}
	}
	return n
}

func (r *rep) link(addr string) *Link {
	var last *Link
	for _, l := range r.w.Links {
		if l.Addr == addr {
			last = l
		}
	}
	return last
}

var repPrep = []Op{{K: "set", Key: "a", Val: "5", Flags: []byte{0, 0, 0, 5}, Exp: 500}, {K: "set", Key: "b", Val: "bb"}, {K: "set", Key: "n", Val: "41"}, {K: "get", Key: "a"}}

var repOps = []Op{
	{K: "set", Key: "a", Val: "six", Flags: []byte{0, 0, 1, 6}}, {K: "cas", Key: "a", Val: "seven"}, {K: "add", Key: "new", Val: "8"}, {K: "add", Key: "a", Val: "9"}, {K: "replace", Key: "a", Val: "10"},
	{K: "delete", Key: "a"}, {K: "incr", Key: "n", Delta: 1}, {K: "decr", Key: "n", Delta: 40}, {K: "incr", Key: "b", Delta: 1}, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"a", "none", "b"}}, {K: "get", Key: "none"},
}

var repKeys = []string{"a", "b", "n", "new"}

func isRead(op Op) bool { return op.K == "get" || op.K == "multi" }

func c14(c *Ctx) {
	kinds := []string{"eof", "rst", "stall", "late"}
	for oi, op := range repOps {
		op := op
		for _, side := range []string{"p1:11211", "s1:11211"} {
			side := side
			var req, rep int
			c.Measure(func() {
				r := newRep(1, 1, time.Second)
				for _, x := range repPrep {
					r.r.Do(x)
				}
				l := r.link(side)
				s, v := l.Sent, l.Recv
				r.r.Do(op)
				req, rep = l.Sent-s, l.Recv-v
			})
			for _, kind := range kinds {
				kind := kind
				try := func(dir string, at int) {
					for ri, op2 := range []Op{{K: "set", Key: "*", Val: "again", Exp: 70}, {K: "incr", Key: "*", Delta: 5}, {K: "delete", Key: "*"}, {K: "replace", Key: "*", Val: "77"}, {K: "add", Key: "*", Val: "78"}} {
						if !c.Thorough() && ri != (at+oi)%5 {
							continue
						}
						op2 := op2
						c.Plain(fmt.Sprintf("cut/%d/%s/%s/%s%d/%d", oi, side[:2], kind, dir, at, ri), func() { replicaFault(op, side, kind, dir, at, rep, op2) })
					}
				}
				for at := 1; at <= req; at++ {
					if kind == "late" && at == req {
						continue
					}
					try("req", at)
				}
				for at := 0; at <= rep && rep > 0; at++ {
					if kind == "late" && at == rep {
						continue
					}
					try("rep", at)
				}
			}
			// a server that is gone before the call
			for _, op2 := range []Op{{K: "set", Key: "*", Val: "again"}, {K: "delete", Key: "*"}} {
				op2 := op2
				c.Plain(fmt.Sprintf("gone/%d/%s/%s", oi, side[:2], op2.K), func() { replicaFault(op, side, "eof", "now", 0, rep, op2) })
				c.Plain(fmt.Sprintf("closed/%d/%s/%s", oi, side[:2], op2.K), func() { replicaFault(op, side, "eof", "closed", 0, rep, op2) })
				for ei := range errReplies {
					ei := ei
					c.Plain(fmt.Sprintf("refused/%d/%s/%s/%d", oi, side[:2], op2.K, ei), func() { replicaFault(op, side, "eof", "refused", ei, rep, op2) })
				}
			}
		}
	}
	// a failed server takes only its own keys with it
	own := []string{"p1:11211", "p2:11211"}
	sec := []string{"s1:11211", "s2:11211"}
	for oi, op := range append([]Op{{K: "multi", Keys: []string{"a"}}, {K: "multi", Keys: []string{"n", "new", "n"}}}, repOps...) {
		for ni, names := range [][2][]string{{own, sec}, {{"x", "y"}, {"y", "x"}}, {{"x", "y"}, {"x", "y"}}} {
			op, names := op, names
			for _, dead := range []string{"p1:11211", "p2:11211", "s1:11211", "s2:11211"} {
				for _, kind := range []string{"eof", "rst", "stall", "closed"} {
					dead, kind := dead, kind
					c.Plain(fmt.Sprintf("other/%d.%d/%s/%s", oi, ni, dead[:2], kind), func() {
						r := newRepNamed(names[0], names[1], time.Second)
						for _, x := range repPrep {
							if d := Compare("meta", x, r.r.Do(x), r.m.Do(x)); d != "" {
								fail("%s", d)
							}
						}
						l := r.link(dead)
						if kind == "closed" {
							r.conns[dead].Close()
						} else {
							l.Plan.Kind = kind
							l.kill(kind)
						}
						out := r.r.Do(op)
						pHit, sHit := false, false
						for _, k := range append([]string{op.Key}, op.Keys...) {
							if k != "" {
								pHit = pHit || dead == r.at("p", ownerOfKey(r.pn, k))
								sHit = sHit || dead == r.at("s", ownerOfKey(r.sn, k))
							}
						}
						m1 := r.m.Clone()
						want := m1.Do(op)
						switch {
						case pHit:
							if out.Err != "error" {
								fail("%v returned %v although its primary is gone", op, out)
							}
							if d := r.bothDiff(r.m, repKeys); d != "" {
								fail("%v changed a server although its primary is gone: %s", op, d)
							}
						case sHit && !isRead(op) && want.Err == "ok":
							if out.Err != "error" {
								fail("%v returned %v although its secondary is gone", op, out)
							}
							if d := r.sideDiff("p", m1, repKeys); d != "" {
								fail("the primary does not hold the write: %s", d)
							}
						default:
							if d := Compare("meta", op, out, want); d != "" {
								fail("with %s gone: %s", dead, d)
							}
							if d := r.bothDiff(m1, repKeys); d != "" {
								fail("with %s gone: %s", dead, d)
							}
						}
						cx.Trans(1)
						cx.State(r.w.Dump())
					})
				}
			}
		}
	}
}

// replicaFault lets side fail during op, then recover, and then runs op2.
func replicaFault(op Op, side, kind, dir string, at, rep int, op2 Op) {
	r := newRep(1, 1, time.Second)
	expSlack = 3
	for _, x := range repPrep {
		if d := Compare("meta", x, r.r.Do(x), r.m.Do(x)); d != "" {
			fail("%s", d)
		}
	}
	l := r.link(side)
	l.Plan = Plan{ReqCut: -1, RepCut: -1, Kind: kind}
	hit := false
	switch dir {
	case "req":
		l.Plan.ReqCut = l.Sent + at
	case "rep":
		l.Plan.RepCut = l.Recv + at
	case "now":
		r.w.Restart(side)
	case "closed":
		r.conns[side].Close()
	case "refused":
		st := r.w.Stores[side]
		st.Hook = func(q *fmc.Req) ([]byte, bool) {
			if q.Key == "" {
				return nil, false
			}
			hit = true
			return errReplies[at].bytes(q), true
		}
	}
	r0 := l.Recv
	m0, m1 := r.m, r.m.Clone()
	want := m1.Do(op)
	t0 := vsched.Now()
	out := r.r.Do(op)
	if d := vsched.Now() - t0; d > int64(3*time.Second) {
		fail("%v took %v", op, time.Duration(d))
	}
	r.w.Stores[side].Hook = nil
	if hit && out.Err != "error" {
		fail("%v returned %v although %s answered %q", op, out, side, errReplies[at].ascii)
	}
	answered := l.Recv-r0 >= rep-2 && rep > 0
	primary := side[0] == 'p'
	definite := out.Err != "error"
	if definite || want.Err == "error" {
		if d := Compare("meta", op, out, want); d != "" {
			fail("with %s failing: %s", side, d)
		}
	}
	if definite && !answered && rep > 0 {
		fail("%v returned %v after %d of the %d reply bytes of %s", op, out, l.Recv-r0, rep, side)
	}
	if isRead(op) && !primary && !definite {
		fail("%v failed because of the secondary: %v", op, out)
	}
	if !primary && want.Err != "ok" && !isRead(op) {
		if d := Compare("meta", op, out, want); d != "" {
			fail("a write the primary refused: %s", d)
		}
	}
	judge := func() (pri, sec bool) { // who holds the state after op
		key := []string{op.Key}
		if op.Key == "" {
			return false, false
		}
		same := m0.dump() == m1.dump()
		pd0, pd1 := r.sideDiff("p", m0, key), r.sideDiff("p", m1, key)
		sd0, sd1 := r.sideDiff("s", m0, key), r.sideDiff("s", m1, key)
		if pd0 != "" && pd1 != "" {
			fail("after %v (%v): primary is neither as before nor as after: %s", op, out, pd1)
		}
		if sd0 != "" && sd1 != "" {
			fail("after %v (%v): secondary is neither as before nor as after: %s", op, out, sd1)
		}
		if same {
			return true, true
		}
		return pd1 == "", sd1 == ""
	}
	p, s := judge()
	if !isRead(op) {
		if s && !p && kind != "late" {
			fail("after %v (%v) the secondary has the write and the primary has not", op, out)
		}
		if want.Err == "ok" && out.Err == "" && !(p && s) {
			fail("%v succeeded but primary has it: %v, secondary has it: %v", op, p, s)
		}
		if want.Err == "ok" && !primary && !p {
			fail("%v failed at the secondary and the primary lost the write", op)
		}
	}
	rest := []string{}
	for _, k := range repKeys {
		if k != op.Key {
			rest = append(rest, k)
		}
	}
	if d := r.bothDiff(m0, rest); d != "" {
		fail("after %v (%v): %s", op, out, d)
	}
	// reads need only the primary
	if !primary {
		if o := r.r.Do(Op{K: "get", Key: "b"}); o.Err != "" || o.Items[0].Val != "bb" {
			fail("a read failed because of the secondary: %v", o)
		}
	}
	vsched.Sleep(int64(3 * time.Second))
	p, s = judge()
	if dir == "closed" {
		cx.Trans(1)
		return
	}
	if err := r.conns[side].Reconnect(); err != nil {
		fail("Reconnect failed: %v", err)
	}
	other := "s1:11211"
	if !primary {
		other = "p1:11211"
	}
	if o := r.link(other); o.dead {
		fail("harness: the other connection died")
	}
	// the next successful write brings both together
	m := m0
	if p {
		m = m1
	}
	if op.Key != "" {
		op2.Key = op.Key
	} else {
		op2.Key = "a"
	}
	m = m.Clone()
	w2 := m.Do(op2)
	o2 := r.r.Do(op2)
	if d := Compare("meta", op2, o2, w2); d != "" {
		fail("after the recovery: %s", d)
	}
	if o2.Err == "" {
		if d := r.bothDiff(m, []string{op2.Key}); d != "" {
			fail("after the recovery and %v: %s", op2, d)
		}
	}
	if d := r.bothDiff(m, rest); d != "" {
		fail("after the recovery and %v: %s", op2, d)
	}
	if b := r.w.Bad(); len(b) > 0 {
		fail("a server was sent a malformed request: %s", b[0])
	}
	cx.Trans(2)
	cx.State(fmt.Sprint(op, side, kind, at) + r.w.Dump())
}
