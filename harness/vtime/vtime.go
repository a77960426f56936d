// Package vtime stands in for time in the code under test: inside a controlled
// execution the clock is virtual.
package vtime

import (
	"time"
	"unsafe"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func Now() time.Time {
	if !vsched.Active() {
		return time.Now()
	}
	return time.Unix(vsched.Epoch, 0).Add(time.Duration(vsched.Now()))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !vsched.Active() {
		time.Sleep(d)
		return
	}
	vsched.Sleep(int64(d))
}

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	real *time.Timer
	stop func() bool
}

func (t *Timer) arm(d time.Duration) {
	vsched.Release(unsafe.Pointer(t))
	if t.c != nil {
		vsched.ReleaseChan(t.c)
	}
	t.stop = vsched.AddTimer(int64(d), func() {
		if t.f != nil {
			vsched.Spawn(func() {
				vsched.Acquire(unsafe.Pointer(t))
				t.f()
			})
			return
		}
		vsched.TrySend(t.c, Now())
	})
}

func NewTimer(d time.Duration) *Timer {
	if !vsched.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !vsched.Active() {
		r := time.AfterFunc(d, f)
		return &Timer{real: r}
	}
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	return t.stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.stop()
	t.arm(d)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	real *time.Ticker
	stop func() bool
}

func (t *Ticker) arm() {
	t.stop = vsched.AddTimer(int64(t.d), func() {
		vsched.TrySend(t.c, Now())
		t.arm()
	})
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vsched.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	vsched.ReleaseChan(c)
	t.arm()
	return t
}

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.stop()
}

func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.stop()
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
