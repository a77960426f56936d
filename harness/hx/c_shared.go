package main

import (
	"fmt"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

// Several goroutines use one pool. Each works on keys of its own, so each must
// see exactly what it would see alone; the race build judges the same cases.

// apart runs every list of operations in a goroutine of its own and returns
// the model of each.
func apart(kv KV, m *Model, prep []Op, threads [][]Op) []*Model {
	r0 := NewRunner(kv)
	for _, op := range prep {
		w := m.Do(op)
		if d := Compare(m.Proto, op, r0.Do(op), w); d != "" {
			fail("%s", d)
		}
	}
	var ms []*Model
	var hs []*vsched.Handle
	for i, ops := range threads {
		i, ops, mi, r := i, ops, m.Clone(), NewRunner(kv)
		for k, t := range r0.tok {
			r.tok[k] = append([]uint64(nil), t...)
		}
		for k, it := range r0.items {
			cp := *it
			r.items[k] = &cp
		}
		ms = append(ms, mi)
		hs = append(hs, vsched.GoNamed(fmt.Sprintf("caller%d", i), func() {
			for _, op := range ops {
				w := mi.Do(op)
				if d := Compare(mi.Proto, op, r.Do(op), w); d != "" {
					fail("while other goroutines use other keys: %s", d)
				}
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	return ms
}

// ownKeys gives thread t two keys, on different servers where there are two.
func ownKeys(names []string, t int) []string {
	if len(names) == 1 {
		return []string{fmt.Sprintf("own%da", t), fmt.Sprintf("own%db", t)}
	}
	return []string{keysFor(names, names[0], t+1)[t], keysFor(names, names[1], t+1)[t]}
}

func sharedOps(ks []string) [][]Op {
	a, b := ks[0], ks[1]
	return [][]Op{
		{{K: "get", Key: a}, {K: "get", Key: b}}, {{K: "multi", Keys: []string{b, "none", a}}}, {{K: "set", Key: a, Val: "new\r\nEND", Flags: []byte{0, 1, 2, 3}, Exp: 70}, {K: "get", Key: a}},
		{{K: "cas", Key: b, Val: "c"}, {K: "delete", Key: a}}, {{K: "incr", Key: a, Delta: 7}, {K: "decr", Key: a, Delta: 2}}, {{K: "replace", Key: b, Val: "r"}, {K: "add", Key: b, Val: "x"}}, {{K: "add", Key: a + "new", Val: "n"}, {K: "touch", Key: a, Exp: 90}},
	}
}

func sharedPrep(ks []string, t int) []Op {
	return []Op{{K: "set", Key: ks[0], Val: fmt.Sprint(50 + t), Flags: []byte{0, 0, 0, byte(t)}}, {K: "get", Key: ks[0]}, {K: "set", Key: ks[1], Val: fmt.Sprintf("val%d", t)}, {K: "get", Key: ks[1]}}
}

func c12shared(c *Ctx) {
	names := []string{addr1, addr2}
	k0, k1, k2 := ownKeys(names, 0), ownKeys(names, 1), ownKeys(names, 2)
	p0, p1, p2 := sharedOps(k0), sharedOps(k1), sharedOps(k2)
	for _, p := range protos {
		p := p
		one := func(id string, opt CaseOpt, threads ...[]Op) {
			c.Case(fmt.Sprintf("shared/%s/%s", p, id), opt, func() {
				w := NewWorld(names...)
				expSlack = 0
				pool, err := client.NewSinglePool(MustConnect(p, addr1, addr1, time.Second), MustConnect(p, addr2, addr2, time.Second))
				if err != nil {
					fail("NewSinglePool: %v", err)
				}
				var prep []Op
				for i, k := range [][]string{k0, k1, k2} {
					prep = append(prep, sharedPrep(k, i)...)
				}
				ms := apart(pool, NewModel(p), prep, threads)
				for i, k := range [][]string{k0, k1, k2} {
					if i < len(ms) {
						if d := unionDiff(w, ms[i], append([]string{k[0] + "new"}, k...), names...); d != "" {
							fail("%s", d)
						}
					}
				}
				if b := w.Bad(); len(b) > 0 {
					fail("a server was sent a malformed request: %s", b[0])
				}
				cx.Trans(1)
				cx.State(p + w.Dump())
			})
		}
		for i := range p0 {
			for j := range p1 {
				one(fmt.Sprintf("%d.%d", i, j), CaseOpt{Preempt: true, Delay: true, MapOrder: true, Race: true, Bound: c.Pick(1, 2), MaxExecs: c.Pick(2000, 40000)}, p0[i], p1[j])
			}
			one(fmt.Sprintf("3/%d", i), CaseOpt{Preempt: true, Delay: true, Race: true, Bound: 1, MaxExecs: c.Pick(2000, 40000)}, p0[i], p1[(i+1)%len(p1)], p2[(i+3)%len(p2)])
		}
	}
}

func c13shared(c *Ctx) {
	for _, n := range [][2]int{{1, 1}, {2, 2}, {2, 1}} {
		np, ns := n[0], n[1]
		pn := newNames("p", np)
		k0, k1 := ownKeys(pn, 0), ownKeys(pn, 1)
		p0, p1 := sharedOps(k0), sharedOps(k1)
		for i := range p0 {
			for j := range p1 {
				if hasOp(p0[i], "touch") || hasOp(p1[j], "touch") {
					continue // not an operation of a ReplicaPool
				}
				i, j := i, j
				c.Case(fmt.Sprintf("shared/%d.%d/%d.%d", np, ns, i, j), CaseOpt{Preempt: true, Delay: true, Race: true, Bound: c.Pick(1, 2), MaxExecs: c.Pick(2000, 40000)}, func() {
					r := newRep(np, ns, time.Second)
					ms := apart(r.pool, r.m, append(sharedPrep(k0, 0), sharedPrep(k1, 1)...), [][]Op{p0[i], p1[j]})
					for t, k := range [][]string{k0, k1} {
						if d := r.bothDiff(ms[t], k); d != "" {
							fail("after goroutines wrote different keys: %s", d)
						}
					}
					if b := r.w.Bad(); len(b) > 0 {
						fail("a server was sent a malformed request: %s", b[0])
					}
					cx.Trans(1)
					cx.State(r.w.Dump())
				})
			}
		}
	}
}

func newNames(side string, n int) (l []string) {
	for i := 1; i <= n; i++ {
		l = append(l, fmt.Sprintf("%s%d:11211", side, i))
	}
	return l
}

func hasOp(ops []Op, k string) bool {
	for _, o := range ops {
		if o.K == k {
			return true
		}
	}
	return false
}

// c23shared: goroutines give the same item, or the same list of keys, to
// several calls at once.
func c23shared(c *Ctx) {
	type call struct {
		name string
		do   func(kv KV, it *client.Item, keys []string) error
	}
	calls := []call{
		{"set", func(kv KV, it *client.Item, keys []string) error { return kv.Set(it) }},
		{"add", func(kv KV, it *client.Item, keys []string) error { return kv.Add(it) }},
		{"replace", func(kv KV, it *client.Item, keys []string) error { return kv.Replace(it) }},
		{"multi", func(kv KV, it *client.Item, keys []string) error { _, err := kv.GetMulti(keys...); return err }},
	}
	for _, ap := range paths() {
		ap := ap
		for i := range calls {
			for j := i; j < len(calls); j++ {
				for _, cas := range []uint64{0, 77} {
					a, b, cas := calls[i], calls[j], cas
					c.Case(fmt.Sprintf("shared/%s/%s.%s/%d", ap.name, a.name, b.name, cas), CaseOpt{Preempt: true, Delay: true, Race: true, Stmts: true, Bound: 1, HoldBound: c.Pick(1, 2), MaxExecs: c.Pick(6000, 40000)}, func() {
						kv, _, _ := ap.open()
						arg := newArgument(Op{Key: "a", Val: "value of six words or more", Flags: []byte{1, 2, 3, 4}, Exp: 60}, cas, 16)
						keys := []string{"z", "a", "none", "b"}
						was := append([]string(nil), keys...)
						look := func(when string) {
							arg.check(when)
							for i := range was {
								if keys[i] != was[i] {
									fail("%s: the caller's key list was changed from %q to %q", when, was, keys)
								}
							}
						}
						var hs []*vsched.Handle
						for _, x := range []call{a, b} {
							x := x
							hs = append(hs, vsched.GoNamed(x.name, func() {
								_ = x.do(kv, arg.it, keys)
								look("after " + x.name)
							}))
						}
						// any moment of the calls
						hs = append(hs, vsched.GoNamed("onlooker", func() { look("during " + a.name + " and " + b.name) }))
						for _, h := range hs {
							h.Join()
						}
						look("after both calls")
					})
				}
			}
		}
	}
}
