package main

import (
	"fmt"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/fmc"
)

const addr1 = "mc1:11211"

// one is a world with one reference server and one client connection.
type one struct {
	w  *World
	st *fmc.Store
	s  client.Server
	r  *Runner
	m  *Model

	hb, lost bool
}

const probeKey = "zz-probe"

func newOne(proto string, timeout time.Duration) *one { return newOneBuf(proto, timeout, 0) }

func newOneBuf(proto string, timeout time.Duration, buf int) *one {
	o := &one{w: NewWorld(addr1)}
	o.w.Buf = buf
	o.st = o.w.Stores[addr1]
	expSlack = 0
	o.s = MustConnect(proto, "s1", addr1, timeout)
	o.r = NewRunner(o.s)
	o.m = NewModel(proto)
	return o
}

// step applies one operation to the code and to the model and compares them.
func (o *one) step(op Op) {
	if op.K == "xset" { // another client stores the item
		o.st.Put(op.Key, []byte(op.Val), flagsOf(op.Flags), int64(op.Exp))
		o.m.put(op.Key, op.Val, flagsOf(op.Flags), o.m.absExp(op.Exp))
		return
	}
	if op.K == "xdel" {
		delete(o.st.M, op.Key)
		delete(o.m.M, op.Key)
		return
	}
	want := o.m.Do(op)
	got := o.r.Do(op)
	if d := Compare(o.m.Proto, op, got, want); d != "" {
		fail("%s", d)
	}
}

// settle compares the server's contents with the model and makes sure the
// connection is in step: nothing undelivered, and a probe reads its own item.
func (o *one) settle(keys []string) {
	if d := storeDiff(o.st, o.m, keys); d != "" {
		fail("%s", d)
	}
	if b := o.w.Bad(); len(b) > 0 {
		fail("the server was sent a malformed request: %s", b[0])
	}
	o.inStep(o.w.Links)
}

// settleLast is settle for a client that replaced its connection.
func (o *one) settleLast(keys []string) {
	if d := storeDiff(o.st, o.m, keys); d != "" {
		fail("%s", d)
	}
	if b := o.w.Bad(); len(b) > 0 {
		fail("the server was sent a malformed request: %s", b[0])
	}
	o.inStep(o.w.Links[len(o.w.Links)-1:])
}

func (o *one) inStep(links []*Link) {
	for _, l := range links {
		if n := l.C.Pending(); n > 0 && !l.C.Closed() {
			fail("%d bytes of replies were never read", n)
		}
		if l.Sess != nil && l.Sess.Buffered() > 0 {
			fail("the server still waits for the rest of a request: %q", l.Sess.Rest())
		}
	}
	o.probe()
}

func (o *one) probe() {
	o.st.Put(probeKey, []byte("probe-value"), 77, 0)
	it, err := o.s.Get(probeKey)
	if err != nil {
		fail("the connection is out of step: reading a present item failed: %v", err)
	}
	if it.Key != probeKey || string(it.Value) != "probe-value" {
		fail("the connection is out of step: asked for %q, got %q=%q", probeKey, it.Key, it.Value)
	}
	delete(o.st.M, probeKey)
}

// history runs ops and checks every step, the contents and the connection.
func history(proto string, timeout time.Duration, ops []Op, keys []string) {
	o := newOne(proto, timeout)
	o.run(ops, keys)
}

// tokens says which of the CAS tokens the caller holds are current.
func (o *one) tokens() string {
	s := ""
	for _, k := range []string{"a", "b", "n"} {
		e := o.m.M[k]
		for _, t := range o.m.tok[k] {
			if e != nil && e.ver == t {
				s += k + "="
			} else {
				s += k + "~"
			}
		}
	}
	return s
}

// cx is the context of the running check.
var cx *Ctx

// seqs enumerates every sequence over alphabet of exactly depth steps.
func seqs(alphabet []Op, depth int, f func(name string, ops []Op)) {
	idx := make([]int, depth)
	for {
		ops := make([]Op, depth)
		name := ""
		for i, k := range idx {
			ops[i] = alphabet[k]
			name += fmt.Sprintf("%02d.", k)
		}
		f(name, ops)
		i := depth - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(alphabet) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func opNames(ops []Op) string {
	s := ""
	for i, o := range ops {
		if i > 0 {
			s += "; "
		}
		s += o.String()
	}
	return s
}
