package main

import (
	"fmt"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/fmc"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func init() {
	register("C08", c08, "one case = protocol (or pool) x the operations of 2-3 goroutines sharing one client; every schedule within the preemption bound is executed and its results, returned items and final contents are checked against every sequential order that respects real time")
}

// call is one operation of one goroutine with its interval.
type call struct {
	op       Op
	who      int
	out      Out
	from, to int
	items    []*client.Item
}

// tokens of each goroutine start as those of the preparation.
type perThread struct {
	tok  map[string][]uint64
	last map[string]ment
}

// linearizable searches for a sequential order of the calls that respects
// their intervals, allows every result and ends in the server's contents.
func linearizable(m *Model, calls []*call, ths map[int]*perThread, final func(*Model) string) string {
	why := ""
	best := -1
	var rec func(m *Model, left []*call, ths map[int]*perThread) bool
	rec = func(m *Model, left []*call, ths map[int]*perThread) bool {
		if len(left) == 0 {
			if d := final(m); d != "" {
				if best < len(calls) {
					best, why = len(calls), d
				}
				return false
			}
			return true
		}
		for i, c := range left {
			ok := true
			for j, d := range left {
				if j != i && d.to < c.from {
					ok = false
				}
			}
			if !ok {
				continue
			}
			m1 := m.Clone()
			t := ths[c.who]
			m1.tok, m1.last = map[string][]uint64{}, map[string]ment{}
			for k, v := range t.tok {
				m1.tok[k] = append([]uint64(nil), v...)
			}
			for k, v := range t.last {
				m1.last[k] = v
			}
			w := m1.Do(c.op)
			if d := Compare(m.Proto, c.op, c.out, w); d != "" {
				if n := len(calls) - len(left); n > best {
					best, why = n, d
				}
				continue
			}
			ths1 := map[int]*perThread{}
			for k, v := range ths {
				ths1[k] = v
			}
			ths1[c.who] = &perThread{m1.tok, m1.last}
			rest := make([]*call, 0, len(left)-1)
			rest = append(append(rest, left[:i]...), left[i+1:]...)
			if rec(m1, rest, ths1) {
				return true
			}
		}
		return false
	}
	if rec(m, calls, ths) {
		return ""
	}
	var sb strings.Builder
	for _, c := range calls {
		fmt.Fprintf(&sb, "\n  goroutine %d [%d,%d] %v -> %v", c.who, c.from, c.to, c.op, c.out)
	}
	return "no sequential order explains the results (closest: " + why + "):" + sb.String()
}

// concurrent runs one goroutine per list of operations and judges them.
func concurrent(kv KV, m *Model, prep []Op, threads [][]Op, final func(*Model) string) {
	r0 := NewRunner(kv)
	for _, op := range prep {
		w := m.Do(op)
		if d := Compare(m.Proto, op, r0.Do(op), w); d != "" {
			fail("%s", d)
		}
	}
	clock := 0
	var calls []*call
	ths := map[int]*perThread{}
	var hs []*vsched.Handle
	for i, ops := range threads {
		i, ops := i, ops
		mc := m.Clone()
		ths[i] = &perThread{mc.tok, mc.last}
		r := NewRunner(kv)
		for k, t := range r0.tok {
			r.tok[k] = append([]uint64(nil), t...)
		}
		for k, it := range r0.items {
			cp := *it
			r.items[k] = &cp
		}
		hs = append(hs, vsched.GoNamed(fmt.Sprintf("caller%d", i), func() {
			for _, op := range ops {
				clock++
				c := &call{op: op, who: i, from: clock}
				c.out = r.DoKeep(op, &c.items)
				clock++
				c.to = clock
				calls = append(calls, c)
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	// items handed out earlier must not have changed since
	for _, c := range calls {
		for j, it := range c.items {
			if j < len(c.out.Items) && got(it) != c.out.Items[j] {
				fail("an item returned by %v changed afterwards: was %v, is %v", c.op, c.out.Items[j], got(it))
			}
		}
	}
	if d := linearizable(m, calls, ths, final); d != "" {
		fail("%s", d)
	}
	obs := make([]string, len(calls))
	for i, c := range calls {
		obs[i] = fmt.Sprintf("%d:%v=%v", c.who, c.op, c.out)
	}
	vsched.Observe("%s", strings.Join(obs, "|"))
}

var concPrep = []Op{
	{K: "set", Key: "a", Val: "5", Flags: []byte{0, 0, 0, 5}}, {K: "set", Key: "b", Val: "b\r\nEND\r\nb", Flags: []byte{9, 0, 0, 1}}, {K: "get", Key: "a"},
}

var concOps = []Op{
	{K: "get", Key: "a"}, {K: "get", Key: "none"}, {K: "multi", Keys: []string{"b", "none", "a"}}, {K: "set", Key: "a", Val: "66", Flags: []byte{0, 0, 1, 6}},
	{K: "cas", Key: "a", Val: "777"}, {K: "add", Key: "new", Val: "8"}, {K: "replace", Key: "a", Val: "10"}, {K: "delete", Key: "a"},
	{K: "incr", Key: "a", Delta: 1}, {K: "decr", Key: "a", Delta: 2}, {K: "touch", Key: "b", Exp: 50}, {K: "flush"}, {K: "version"}, {K: "get", Key: "b"}, {K: "incr", Key: "cnt", Delta: 2},
}

var concKeys = []string{"a", "b", "new", "cnt", "none", "big"}

func conc1(p string, threads [][]Op) {
	o := newOne(p, 0)
	concurrent(o.s, o.m, concPrep, threads, func(m *Model) string { return storeDiff(o.st, m, concKeys) })
	o.m = NewModel(p)
	for _, l := range o.w.Links {
		if n := l.C.Pending(); n > 0 {
			fail("%d bytes of replies were never read", n)
		}
	}
	if b := o.w.Bad(); len(b) > 0 {
		fail("the server was sent a malformed request: %s", b[0])
	}
	o.probe()
}

func c08(c *Ctx) {
	opt := CaseOpt{Preempt: true, Bound: c.Pick(2, 3), PoolNew: true, Race: true, MaxExecs: c.Pick(4000, 400000)}
	for _, p := range protos {
		p := p
		for i := range concOps {
			for j := i; j < len(concOps); j++ {
				a, b := concOps[i], concOps[j]
				c.Case(fmt.Sprintf("pair/%s/%d.%d", p, i, j), opt, func() { conc1(p, [][]Op{{a}, {b}}) })
			}
		}
		// any statement as the point of a switch
		o2 := opt
		o2.Stmts, o2.Bound, o2.PoolNew, o2.Race = true, c.Pick(1, 2), false, false
		for i := range concOps {
			for j := i; j < len(concOps); j++ {
				a, b := concOps[i], concOps[j]
				c.Case(fmt.Sprintf("stmt/%s/%d.%d", p, i, j), o2, func() { conc1(p, [][]Op{{a}, {b}}) })
			}
		}
		big := Op{K: "set", Key: "big", Val: strings.Repeat("0123456789abcde\n", 520)}
		o1 := opt
		o1.Bound = c.Pick(1, 2)
		for i := range concOps {
			a := concOps[i]
			// two operations against one, so that state left behind by a call shows
			for j := range concOps {
				if !c.Thorough() && (i+j)%3 != 0 {
					continue
				}
				b, d := concOps[j], concOps[(i+2*j+1)%len(concOps)]
				c.Case(fmt.Sprintf("seq/%s/%d.%d", p, i, j), o1, func() { conc1(p, [][]Op{{a, d}, {b, a}}) })
			}
			for j := i; j < len(concOps); j++ {
				b, d := concOps[j], concOps[(i+j)%len(concOps)]
				if !c.Thorough() && (i+j)%4 != 0 {
					continue
				}
				c.Case(fmt.Sprintf("three/%s/%d.%d", p, i, j), o1, func() { conc1(p, [][]Op{{a}, {b}, {d}}) })
			}
			c.Case(fmt.Sprintf("big/%s/%d", p, i), opt, func() { conc1(p, [][]Op{{big}, {a, {K: "get", Key: "big"}}}) })
		}
	}
	// pools: goroutines on keys of different and of the same servers
	for _, p := range protos {
		p := p
		for i := range concOps {
			for j := i; j < len(concOps); j++ {
				a, b := concOps[i], concOps[j]
				if a.K == "version" || b.K == "version" || a.K == "flush" || b.K == "flush" || a.K == "multi" || b.K == "multi" {
					continue // not atomic over several servers
				}
				if !c.Thorough() && (i+j)%2 != 0 {
					continue
				}
				c.Case(fmt.Sprintf("pool/%s/%d.%d", p, i, j), o1of(opt, c.Pick(1, 2)), func() {
					w := NewWorld(addr1, addr2)
					pool, err := client.NewSinglePool(MustConnect(p, "s1", addr1, 0), MustConnect(p, "s2", addr2, 0))
					if err != nil {
						fail("NewSinglePool: %v", err)
					}
					m := NewModel(p)
					concurrent(pool, m, concPrep, [][]Op{{a}, {b}}, func(m *Model) string { return unionDiff(w, m, concKeys, addr1, addr2) })
				})
			}
		}
	}
}

func o1of(o CaseOpt, bound int) CaseOpt { o.Bound = bound; return o }

const addr2 = "mc2:11211"

// unionDiff compares what several servers hold together with the model.
func unionDiff(w *World, m *Model, keys []string, addrs ...string) string {
	for _, k := range keys {
		var holder *fmc.Store
		for _, a := range addrs {
			if w.Stores[a].Get(k) != nil {
				if holder != nil {
					return fmt.Sprintf("both %s and %s hold %q", holder.Name, a, k)
				}
				holder = w.Stores[a]
			}
		}
		if holder == nil {
			holder = w.Stores[addrs[0]]
		}
		if d := storeDiff(holder, m, []string{k}); d != "" {
			return d
		}
	}
	return ""
}

var _ = time.Second
