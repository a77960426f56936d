package main

import (
	"fmt"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/server"
)

func init() {
	register("C23", c23, "one case = one store of an item whose slices lie inside larger arrays, with every later operation sequence of the stated depth; or one sequence of reads whose results are retained, compared after every step, overwritten over their whole capacity and compared again; or one pipeline of requests which the handler retains and overwrites")
}

// arena is memory with a slice in its middle.
type arena struct {
	mem  []byte
	want []byte
	b    []byte
}

func newArena(v []byte, spare int) *arena {
	if v == nil {
		return &arena{}
	}
	a := &arena{mem: make([]byte, 8+len(v)+spare)}
	for i := range a.mem {
		a.mem[i] = byte(0xc0 + i%13)
	}
	copy(a.mem[8:], v)
	a.b = a.mem[8 : 8+len(v)] // its capacity reaches over the spare bytes
	a.want = append([]byte(nil), a.mem...)
	return a
}

func (a *arena) check(what string) {
	for i := range a.mem {
		if a.mem[i] != a.want[i] {
			where := "in"
			if i < 8 {
				where = "in front of"
			} else if i >= 8+len(a.b) {
				where = "behind"
			}
			fail("%s: byte %d %s the slice was changed from %#x to %#x", what, i-8, where, a.want[i], a.mem[i])
		}
	}
}

// argument is an item given to a call, and what it was.
type argument struct {
	it   *client.Item
	was  client.Item
	v, f *arena
}

func newArgument(op Op, cas uint64, spare int) *argument {
	a := &argument{v: newArena([]byte(op.Val), spare), f: newArena(op.Flags, spare)}
	a.it = &client.Item{Key: op.Key, Value: a.v.b, Flags: a.f.b, Expiration: op.Exp, Cas: cas, Server: "mine"}
	a.was = *a.it
	return a
}

func (a *argument) check(what string) {
	i, w := a.it, &a.was
	if i.Key != w.Key || i.Expiration != w.Expiration || i.Cas != w.Cas || i.Server != w.Server {
		fail("%s: the caller's item was changed from %+v to %+v", what, w, i)
	}
	if len(i.Value) != len(w.Value) || cap(i.Value) != cap(w.Value) || len(i.Flags) != len(w.Flags) || cap(i.Flags) != cap(w.Flags) || (i.Flags == nil) != (w.Flags == nil) {
		fail("%s: the caller's item has other slices", what)
	}
	if len(i.Value) > 0 && &i.Value[0] != &w.Value[0] || len(i.Flags) > 0 && &i.Flags[0] != &w.Flags[0] {
		fail("%s: the caller's item has other slices", what)
	}
	a.v.check(what + ", value")
	a.f.check(what + ", flags")
}

// scribble overwrites what the caller owns.
func (a *argument) scribble() {
	for _, x := range []*arena{a.v, a.f} {
		for i := range x.mem {
			x.mem[i] ^= 0xff
			x.want[i] ^= 0xff
		}
	}
}

// result is an item returned by the library, and what it was.
type result struct {
	it  *client.Item
	was client.Item
	v   string
	f   string
}

func newResult(it *client.Item) *result {
	return &result{it: it, was: *it, v: string(it.Value), f: string(it.Flags)}
}

func (r *result) check(what string) {
	i, w := r.it, &r.was
	if i.Key != w.Key || i.Expiration != w.Expiration || i.Cas != w.Cas || i.Server != w.Server || string(i.Value) != r.v || string(i.Flags) != r.f {
		fail("%s changed an item returned before: {%s %q %x %d %d} became {%s %q %x %d %d}", what, w.Key, short(r.v), r.f, w.Expiration, w.Cas, i.Key, short(string(i.Value)), i.Flags, i.Expiration, i.Cas)
	}
}

func (r *result) scribble() {
	for _, b := range [][]byte{r.it.Value, r.it.Flags} {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xa5
		}
	}
	r.it.Key, r.it.Cas, r.it.Expiration = "scribbled", 12345, 7
	*r = *newResult(r.it)
}

func (r *Runner) store(op Op, it *client.Item) error {
	switch op.K {
	case "add":
		return r.KV.Add(it)
	case "replace":
		return r.KV.Replace(it)
	}
	return r.KV.Set(it)
}

// path is a way to reach reference servers: a connection or a pool.
type apath struct {
	name string
	open func() (KV, *Model, func(keys []string) string)
}

func paths() []apath {
	var ps []apath
	for _, p := range protos {
		p := p
		ps = append(ps, apath{p, func() (KV, *Model, func([]string) string) {
			o := newOne(p, time.Second)
			return o.s, o.m, func(keys []string) string { return storeDiff(o.st, o.m, keys) }
		}})
	}
	ps = append(ps, apath{"single", func() (KV, *Model, func([]string) string) {
		w := NewWorld("n1:11211", "n2:11211")
		expSlack = 0
		pool, err := client.NewSinglePool(MustConnect("meta", "n1", "n1:11211", time.Second), MustConnect("meta", "n2", "n2:11211", time.Second))
		if err != nil {
			fail("NewSinglePool: %v", err)
		}
		m := NewModel("meta")
		return pool, m, func(keys []string) string {
			for _, k := range keys {
				if d := storeDiff(w.Stores[ownerOfKey([]string{"n1", "n2"}, k)+":11211"], m, []string{k}); d != "" {
					return d
				}
			}
			return ""
		}
	}})
	ps = append(ps, apath{"replica", func() (KV, *Model, func([]string) string) {
		r := newRep(2, 2, time.Second)
		return r.pool, r.m, func(keys []string) string { return r.bothDiff(r.m, keys) }
	}})
	return ps
}

func c23(c *Ctx) {
	c23shared(c)
	keys := []string{"a", "b", "n"}
	after := []Op{
		{K: "get", Key: "a"}, {K: "multi", Keys: []string{"b", "a", "none"}}, {K: "set", Key: "b", Val: "zz\r\nzz", Flags: []byte{9, 9, 9, 9}, Exp: 77}, {K: "set", Key: "a", Val: strings.Repeat("Q", 40), Flags: []byte{8, 8, 8, 8}},
		{K: "add", Key: "n", Val: "5"}, {K: "replace", Key: "a", Val: "R"}, {K: "delete", Key: "a"}, {K: "incr", Key: "n", Delta: 3}, {K: "get", Key: "none"}, {K: "cas", Key: "b", Val: "C"},
	}
	type step struct {
		op    Op
		spare int
	}
	// arguments
	for _, ap := range paths() {
		ap := ap
		for _, k := range []string{"set", "add", "replace", "cas", "fail"} {
			for _, v := range []string{"", "x", "six", "12345678", strings.Repeat("v", 100), "\r\n", strings.Repeat("0123456789abcdef", 300)} {
				for fi, f := range [][]byte{nil, {0, 0, 0, 0}, {1, 2, 3, 4}} {
					for _, spare := range []int{0, 1, 2, 3, 64} {
						st := step{Op{K: k, Key: "a", Val: v, Flags: f, Exp: 60}, spare}
						depth := 1
						if spare == 2 && fi == 2 {
							depth = c.Pick(2, 3)
						}
						seqs(after, depth, func(name string, ops []Op) {
							c.Plain(fmt.Sprintf("arg/%s/%s/%d/%d/%d/%s", ap.name, k, len(v), fi, spare, name), func() {
								kv, m, diff := ap.open()
								r := NewRunner(kv)
								do := func(o Op) {
									want := m.Do(o)
									if d := Compare(m.Proto, o, r.Do(o), want); d != "" {
										fail("%s", d)
									}
								}
								do(Op{K: "set", Key: "b", Val: "bb"})
								op := st.op
								switch k {
								case "replace", "cas":
									do(Op{K: "set", Key: "a", Val: "before"})
								case "fail":
									op.K = "replace" // of a missing item
								}
								cas := uint64(0)
								if k == "cas" {
									do(Op{K: "get", Key: "a"})
									t := r.tok["a"]
									cas = t[len(t)-1]
								}
								a := newArgument(op, cas, spare)
								want := m.Do(op)
								err := r.store(op, a.it)
								a.check(op.K)
								if d := Compare(m.Proto, op, errOut(err), want); d != "" {
									fail("%s", d)
								}
								for i, o := range ops {
									if i > 0 {
										a.scribble() // the memory is the caller's
									}
									do(o)
									a.check(fmt.Sprintf("%v after %v", o, op.K))
									if d := diff(keys); d != "" {
										fail("after %v: %s", o, d)
									}
									cx.Trans(1)
								}
								a.scribble()
								do(Op{K: "get", Key: "a"})
								do(Op{K: "multi", Keys: []string{"a", "b"}})
								a.check("Get")
								cx.State(ap.name + fmt.Sprint(r.tok) + op.String())
							})
						})
					}
				}
			}
		}
		// the key list of a multi-get
		for n := 0; n <= 4; n++ {
			for spare := 0; spare <= 3; spare++ {
				n, spare := n, spare
				c.Plain(fmt.Sprintf("keys/%s/%d/%d", ap.name, n, spare), func() {
					kv, m, _ := ap.open()
					r := NewRunner(kv)
					for _, k := range []string{"a", "b", "n"} {
						o := Op{K: "set", Key: k, Val: k + k}
						m.Do(o)
						r.Do(o)
					}
					mem := []string{"front", "n", "none", "a", "b", "behind1", "behind2", "behind3"}
					was := append([]string(nil), mem...)
					its, err := kv.GetMulti(mem[1 : 1+n : 1+n+spare]...)
					if err != nil {
						fail("GetMulti: %v", err)
					}
					for i := range mem {
						if mem[i] != was[i] {
							fail("GetMulti changed the caller's keys at %d from %q to %q", i-1, was[i], mem[i])
						}
					}
					for _, it := range its {
						newResult(it).scribble()
					}
					for i := range mem {
						mem[i] = "overwritten"
					}
					for _, o := range []Op{{K: "get", Key: "a"}, {K: "multi", Keys: []string{"a", "b"}}} {
						want := m.Do(o)
						if d := Compare(m.Proto, o, r.Do(o), want); d != "" {
							fail("%s", d)
						}
					}
					cx.Trans(1)
				})
			}
		}
		// results
		reads := append([]Op{}, after...)
		reads = append(reads, Op{K: "multi", Keys: []string{"a", "b", "n"}}, Op{K: "rmw", Key: "a"})
		for _, sh := range []int{0, 1, 2, 3} {
			sh := sh
			vals := [][3]string{{"first value", "second one", "3"}, {"", "x", "10"}, {strings.Repeat("0123456789abcdef", 300), strings.Repeat("END\r\n", 20), "7"}, {strings.Repeat("0123456789abcdef", 180), strings.Repeat("x", 700), "8"}}[sh]
			depth := 3
			if sh > 0 {
				depth = 2
			}
			if c.Thorough() && len(protos) > 0 && sh == 0 {
				depth = 4
			}
			seqs(reads, depth, func(name string, ops []Op) {
				for scr := 0; scr <= len(ops); scr++ {
					scr := scr
					if depth == 4 && scr < 3 {
						continue
					}
					c.Plain(fmt.Sprintf("result/%s/%d/%s/%d", ap.name, sh, name, scr), func() {
						kv, m, diff := ap.open()
						r := NewRunner(kv)
						var kept []*result
						do := func(o Op) {
							want := m.Do(o)
							var its []*client.Item
							out := r.DoKeep(o, &its)
							if d := Compare(m.Proto, o, out, want); d != "" {
								fail("%s", d)
							}
							for _, k := range kept {
								k.check(o.String())
							}
							for _, it := range its {
								kept = append(kept, newResult(it))
							}
							if d := diff(keys); d != "" {
								fail("after %v: %s", o, d)
							}
							cx.Trans(1)
						}
						for i, k := range keys {
							do(Op{K: "set", Key: k, Val: vals[i], Flags: []byte{byte(i), 1, 2, 3}, Exp: 50 * i})
						}
						do(Op{K: "multi", Keys: keys})
						for i, o := range ops {
							do(o)
							if i == scr {
								// the caller does what it likes with all it was given
								for j, k := range kept {
									k.scribble()
									for l, x := range kept {
										if l != j {
											x.check("writing to another item")
										}
									}
									_ = append(k.it.Value, "appended"...)
									_ = append(k.it.Flags, "appended"...)
									for l, x := range kept {
										if l != j {
											x.check("appending to another item")
										}
									}
								}
								r.items = map[string]*client.Item{}
								m.last = map[string]ment{}
							}
						}
						do(Op{K: "get", Key: "b"})
						do(Op{K: "multi", Keys: keys})
						cx.State(ap.name + m.Proto + name)
					})
				}
			})
		}
	}
	serverAlias(c)
}

// reqWas is a deep copy of a request.
type reqWas struct {
	r, w *server.Request
	v, f string
	keys []string
	g    server.GetOpt
	s    server.SetOpt
	d    server.DelOpt
}

func snap(r *server.Request) *reqWas {
	cp := *r
	x := &reqWas{r: r, w: &cp, v: string(r.Value), f: string(r.Flags), keys: append([]string(nil), r.Keys...)}
	if r.GetOpt != nil {
		x.g = *r.GetOpt
	}
	if r.SetOpt != nil {
		x.s = *r.SetOpt
	}
	if r.DelOpt != nil {
		x.d = *r.DelOpt
	}
	return x
}

func (x *reqWas) check(what string) {
	r, w := x.r, x.w
	ok := r.Opcode == w.Opcode && r.Key == w.Key && r.Delta == w.Delta && string(r.Value) == x.v && string(r.Flags) == x.f && r.GetOpt == w.GetOpt && r.SetOpt == w.SetOpt && r.DelOpt == w.DelOpt && fmt.Sprint(r.Keys) == fmt.Sprint(x.keys)
	ok = ok && (r.GetOpt == nil || *r.GetOpt == x.g) && (r.SetOpt == nil || *r.SetOpt == x.s) && (r.DelOpt == nil || *r.DelOpt == x.d)
	if !ok {
		fail("%s changed a request the handler keeps: %v %q value %q flags %x became %v %q value %q flags %x", what, w.Opcode, w.Key, short(x.v), x.f, r.Opcode, r.Key, short(string(r.Value)), r.Flags)
	}
}

func serverAlias(c *Ctx) {
	type shape struct {
		name string
		reps []wire
	}
	for _, sh := range []shape{{"text", textReps()}, {"bin", binReps()}} {
		sh := sh
		n := len(sh.reps)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for k := 0; k < n; k++ {
					if !c.Thorough() && k != 0 && k != (i+j)%n && k != i {
						continue
					}
					for _, two := range []bool{false, true} {
						for _, scribble := range []bool{false, true} {
							i, j, k, two, scribble := i, j, k, two, scribble
							c.Plain(fmt.Sprintf("server/%s/%d.%d.%d/%v/%v", sh.name, i, j, k, two, scribble), func() {
								ws := []wire{sh.reps[i], sh.reps[j], sh.reps[k]}
								s := newSrv()
								var kept []*reqWas
								var mem []*arena
								s.Ans = func(r *server.Request) ([]*server.Response, error) {
									for _, x := range kept {
										x.check("a later request")
									}
									for _, a := range mem {
										a.check("a later request: the handler's response")
									}
									if d := reqDiff(r, &ws[len(kept)]); d != "" {
										fail("request %d: %s", len(kept)+1, d)
									}
									res := okAnswer(r)
									for _, x := range res {
										v, f := newArena(x.Value, 5), newArena(x.Flags, 5)
										x.Value, x.Flags = v.b, f.b
										mem = append(mem, v, f)
									}
									kept = append(kept, snap(r))
									return res, nil
								}
								c1 := s.Open()
								c2 := c1
								if two {
									c2 = s.Open()
								}
								var want [2]string
								for n, w := range ws {
									x := c1
									if n%2 == 1 {
										x = c2
									}
									_ = want
									x.Send(w.bytes[:len(w.bytes)/2], w.bytes[len(w.bytes)/2:])
									if len(kept) != n+1 {
										fail("request %d (%s) did not reach the handler", n+1, w.name)
									}
									for _, q := range kept {
										q.check("writing the response")
									}
									for _, a := range mem {
										a.check("writing the response: the handler's response")
									}
									if scribble {
										q := kept[n].r
										for _, b := range [][]byte{q.Value, q.Flags} {
											b = b[:cap(b)]
											for i := range b {
												b[i] ^= 0x5a
											}
										}
										kept[n] = snap(q)
										for m, o := range kept {
											if m != n {
												o.check("writing to another request")
											}
										}
									}
								}
								checkNothingElse(s, len(ws))
								cx.Trans(len(ws))
								cx.State(sh.name + ws[0].name + ws[1].name + ws[2].name)
							})
						}
					}
				}
			}
		}
	}
}

func checkNothingElse(s *Srv, n int) {
	if len(s.Reqs) != n {
		fail("the handler saw %d requests, %d were sent", len(s.Reqs), n)
	}
	if s.Ended {
		fail("Serve ended: %v", s.EndErr)
	}
}
