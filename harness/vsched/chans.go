package vsched

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channel operations of the code under test. Inside a controlled execution a
// channel's contents live in a shadow object; outside it the real channel is
// used.

type waiter struct {
	cases []Case
	done  bool
	idx   int
}

type vchan struct {
	cap    int
	buf    []interface{}
	closed bool
	wait   []*waiter
	keep   interface{}
}

type chanEntry struct {
	p    unsafe.Pointer
	v    *vchan
	next *chanEntry
}

func chanHash(p unsafe.Pointer, n int) uintptr {
	return (uintptr(p)>>5 ^ uintptr(p)>>12) % uintptr(n)
}

// shadow finds the contents of the channel at p. (No Go map and no append:
// their operations would show up in the race build.)
func shadow(p unsafe.Pointer, capacity int, keep interface{}) *vchan {
	x := cur
	if len(x.chans) == 0 {
		x.chans = make([]*chanEntry, 16)
	}
	for e := x.chans[chanHash(p, len(x.chans))]; e != nil; e = e.next {
		if e.p == p {
			return e.v
		}
	}
	if x.nchans++; x.nchans > 4*len(x.chans) {
		t := make([]*chanEntry, 4*len(x.chans))
		for _, e := range x.chans {
			for e != nil {
				next := e.next
				h := chanHash(e.p, len(t))
				e.next, t[h] = t[h], e
				e = next
			}
		}
		x.chans = t
	}
	v := &vchan{cap: capacity, keep: keep}
	h := chanHash(p, len(x.chans))
	x.chans[h] = &chanEntry{p, v, x.chans[h]}
	return v
}

// Case is one communication of a select statement.
type Case interface {
	ch() *vchan // nil for a nil channel
	isSend() bool
	value() interface{}
	got(v interface{}, ok bool)
	pull(c *vchan)
	reflectCase() reflect.SelectCase
	gotReflect(v reflect.Value, ok bool)
}

type RCase[T any] struct {
	c  <-chan T
	V  T
	Ok bool
}

//go:norace
func RC[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }

//go:norace
func (r *RCase[T]) ch() *vchan {
	if r.c == nil {
		return nil
	}
	return shadow(*(*unsafe.Pointer)(unsafe.Pointer(&r.c)), cap(r.c), r.c)
}

//go:norace
func (r *RCase[T]) isSend() bool { return false }

//go:norace
func (r *RCase[T]) value() interface{} { return nil }

//go:norace
func (r *RCase[T]) got(v interface{}, ok bool) {
	r.Ok = ok
	if ok {
		r.V, _ = v.(T)
	} else {
		var z T
		r.V = z
	}
}

// pull moves what the standard library put into the real channel (a cancelled
// context, for instance) into the shadow.
//
//go:norace
func (r *RCase[T]) pull(c *vchan) {
	if c.closed {
		return
	}
	for {
		select {
		case v, ok := <-r.c:
			if !ok {
				c.closed = true
				return
			}
			c.buf = append(c.buf, v)
		default:
			return
		}
	}
}

//go:norace
func (r *RCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}

//go:norace
func (r *RCase[T]) gotReflect(v reflect.Value, ok bool) {
	r.Ok = ok
	if ok {
		r.V, _ = v.Interface().(T)
	}
}

type SCase[T any] struct {
	c chan<- T
	v T
}

//go:norace
func SC[T any](c chan<- T, v T) *SCase[T] { return &SCase[T]{c: c, v: v} }

//go:norace
func (s *SCase[T]) ch() *vchan {
	if s.c == nil {
		return nil
	}
	return shadow(*(*unsafe.Pointer)(unsafe.Pointer(&s.c)), cap(s.c), s.c)
}

//go:norace
func (s *SCase[T]) isSend() bool { return true }

//go:norace
func (s *SCase[T]) value() interface{} { return s.v }

//go:norace
func (s *SCase[T]) got(v interface{}, ok bool) {}

//go:norace
func (s *SCase[T]) pull(c *vchan) {}

//go:norace
func (s *SCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}

//go:norace
func (s *SCase[T]) gotReflect(v reflect.Value, ok bool) {}

func (c *vchan) counterpart(self *waiter, wantSend bool) (*waiter, int) {
	for _, w := range c.wait {
		if w == self || w.done {
			continue
		}
		for i, cs := range w.cases {
			if cs.isSend() == wantSend && cs.ch() == c {
				return w, i
			}
		}
	}
	return nil, 0
}

func ready(cs Case, self *waiter) bool {
	c := cs.ch()
	if c == nil {
		return false
	}
	cs.pull(c)
	if cs.isSend() {
		if c.closed || len(c.buf) < c.cap {
			return true
		}
		w, _ := c.counterpart(self, false)
		return w != nil
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	w, _ := c.counterpart(self, true)
	return w != nil
}

func execute(cs Case, self *waiter) {
	c := cs.ch()
	if cs.isSend() {
		if c.closed {
			panic("send on closed channel")
		}
		if len(c.buf) == 0 {
			if w, i := c.counterpart(self, false); w != nil {
				w.cases[i].got(cs.value(), true)
				w.idx, w.done = i, true
				return
			}
		}
		c.buf = append(c.buf, cs.value())
		return
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]interface{}(nil), c.buf[1:]...)
		if w, i := c.counterpart(self, true); w != nil {
			c.buf = append(c.buf, w.cases[i].value())
			w.idx, w.done = i, true
		}
		cs.got(v, true)
		return
	}
	if w, i := c.counterpart(self, true); w != nil {
		cs.got(w.cases[i].value(), true)
		w.idx, w.done = i, true
		return
	}
	cs.got(nil, false)
}

// Select performs one of the cases and returns its index, or -1 for default.
func Select(def bool, cases ...Case) int {
	if cur == nil {
		rc := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rc = append(rc, c.reflectCase())
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if def && i == len(cases) {
			return -1
		}
		cases[i].gotReflect(v, ok)
		return i
	}
	if cur.killing {
		Block(nil, "killed")
	}
	Point("select")
	for {
		var rd []int
		for i, c := range cases {
			if ready(c, nil) {
				rd = append(rd, i)
			}
		}
		if len(rd) > 0 {
			k := rd[Choose(len(rd), 0, "select")]
			execute(cases[k], nil)
			edge(cases[k])
			return k
		}
		if def {
			return -1
		}
		if RaceOn {
			// a peer may complete one of these while this thread is parked
			for _, c := range cases {
				if v := c.ch(); v != nil && (c.isSend() || v.cap == 0) {
					Release(unsafe.Pointer(v))
				}
			}
		}
		w := &waiter{cases: cases}
		for _, c := range cases {
			if v := c.ch(); v != nil {
				v.wait = append(v.wait, w)
			}
		}
		Block(func() bool {
			if w.done {
				return true
			}
			for _, c := range cases {
				if ready(c, w) {
					return true
				}
			}
			return false
		}, "channel operation")
		for _, c := range cases {
			if v := c.ch(); v != nil {
				out := v.wait[:0]
				for _, o := range v.wait {
					if o != w {
						out = append(out, o)
					}
				}
				v.wait = out
			}
		}
		if w.done {
			edge(cases[w.idx])
			return w.idx
		}
	}
}

// edge orders this thread after what it met on the channel and before what
// comes.
func edge(c Case) {
	if RaceOn {
		v := c.ch()
		Acquire(unsafe.Pointer(v))
		Release(unsafe.Pointer(v))
	}
}

// ReleaseChan orders what the caller did before later receives from c.
//
//go:norace
func ReleaseChan[T any](c chan<- T) {
	if RaceOn && cur != nil {
		Release(unsafe.Pointer(SC(c, *new(T)).ch()))
	}
}

//go:norace
func Recv[T any](c <-chan T) T {
	if cur == nil {
		return <-c
	}
	r := RC(c)
	Select(false, r)
	return r.V
}

//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-c
		return v, ok
	}
	r := RC(c)
	Select(false, r)
	return r.V, r.Ok
}

//go:norace
func Send[T any](c chan<- T, v T) {
	if cur == nil {
		c <- v
		return
	}
	Select(false, SC(c, v))
}

// TrySend is used by timers: it runs in scheduler context and never blocks.
//
//go:norace
func TrySend[T any](c chan<- T, v T) {
	s := SC(c, v)
	if ready(s, nil) {
		execute(s, nil)
	}
}

//go:norace
func Close[T any](c chan<- T) {
	if cur == nil {
		close(c)
		return
	}
	if cur.killing {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	v := SC(c, *new(T)).ch()
	if v.closed {
		panic("close of closed channel")
	}
	v.closed = true
	Release(unsafe.Pointer(v))
	Point("close")
}

//go:norace
func Len[T any](c <-chan T) int {
	if cur == nil || c == nil {
		return len(c)
	}
	return len(RC(c).ch().buf)
}

// Keys returns the keys of m in a fixed order, or (with Opts.MapOrder) in
// every order, one per execution.
//
//go:norace
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	if !MapOrderOn() || len(ks) < 2 {
		return ks
	}
	out := make([]K, 0, len(ks))
	for len(ks) > 0 {
		i := Choose(len(ks), 0, "map order")
		out = append(out, ks[i])
		ks = append(append([]K(nil), ks[:i]...), ks[i+1:]...)
	}
	return out
}

// Next receives the next element for a range loop.
//
//go:norace
func (r *RCase[T]) Next() bool {
	if cur == nil {
		r.V, r.Ok = <-r.c
		return r.Ok
	}
	Select(false, r)
	return r.Ok
}

// Entry is one element of a map iteration.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live reports whether the entry has not been deleted since the range began.
//
//go:norace
func (e Entry[K, V]) Live() bool {
	_, ok := e.m[e.K]
	return ok || e.K != e.K
}

//go:norace
func (e Entry[K, V]) Val() V { return e.m[e.K] }

//go:norace
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	ks := Keys(m)
	out := make([]Entry[K, V], len(ks))
	for i, k := range ks {
		out[i] = Entry[K, V]{k, m}
	}
	return out
}
