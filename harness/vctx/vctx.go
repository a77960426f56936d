// Package vctx stands in for context in the code under test: cancellation and
// deadlines go through the virtual channels and clock.
package vctx

import (
	"context"
	"errors"
	"time"
	"unsafe"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
	"go.f110.dev/go-memcached/internal/zverif/vtime"
)

type node struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	timer    *vtime.Timer
	children map[*node]bool
	order    []*node
	after    func()
}

type nodeKey struct{}

func (n *node) Deadline() (time.Time, bool) {
	if !n.deadline.IsZero() {
		return n.deadline, true
	}
	return n.parent.Deadline()
}
func (n *node) Done() <-chan struct{} { return n.done }
func (n *node) Err() error {
	vsched.Point("ctx")
	vsched.Acquire(unsafe.Pointer(n))
	return n.err
}
func (n *node) Value(k any) any {
	if _, ok := k.(nodeKey); ok {
		return n
	}
	return n.parent.Value(k)
}

func newNode(parent context.Context) *node {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	n := &node{parent: parent, done: make(chan struct{}), children: map[*node]bool{}}
	if p, ok := parent.Value(nodeKey{}).(*node); ok {
		if p.err != nil {
			n.cancel(p.err, p.cause)
		} else {
			p.children[n] = true
			p.order = append(p.order, n)
		}
	}
	return n
}

func (n *node) cancel(err, cause error) {
	if n.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	n.err, n.cause = err, cause
	vsched.Release(unsafe.Pointer(n))
	if n.timer != nil {
		n.timer.Stop()
	}
	if p, ok := n.parent.Value(nodeKey{}).(*node); ok {
		delete(p.children, n)
	}
	if n.after != nil {
		vsched.Go(n.after)
	}
	for _, c := range n.order {
		if n.children[c] {
			c.cancel(err, cause)
		}
	}
	vsched.Close(n.done)
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if !vsched.Active() {
		return context.WithCancel(parent)
	}
	n := newNode(parent)
	return n, func() { n.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if !vsched.Active() {
		return context.WithCancelCause(parent)
	}
	n := newNode(parent)
	return n, func(cause error) { n.cancel(context.Canceled, cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if !vsched.Active() {
		return context.WithDeadlineCause(parent, d, cause)
	}
	n := newNode(parent)
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		return n, func() { n.cancel(context.Canceled, nil) }
	}
	n.deadline = d
	if n.err == nil {
		if left := vtime.Until(d); left <= 0 {
			n.cancel(context.DeadlineExceeded, cause)
		} else {
			n.timer = vtime.AfterFunc(left, func() { n.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return n, func() { n.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

func Cause(c context.Context) error {
	if n, ok := c.Value(nodeKey{}).(*node); ok {
		return n.cause
	}
	return context.Cause(c)
}

func AfterFunc(parent context.Context, f func()) func() bool {
	if !vsched.Active() {
		return context.AfterFunc(parent, f)
	}
	n := newNode(parent)
	if n.err != nil {
		vsched.Go(f)
		return func() bool { return false }
	}
	n.after = f
	return func() bool {
		if n.err != nil {
			return false
		}
		n.after = nil
		n.cancel(errors.New("stopped"), nil)
		return true
	}
}

type uncancelled struct{ context.Context }

func (uncancelled) Deadline() (time.Time, bool) { return time.Time{}, false }
func (uncancelled) Done() <-chan struct{}       { return nil }
func (uncancelled) Err() error                  { return nil }
func (u uncancelled) Value(k any) any {
	if _, ok := k.(nodeKey); ok {
		return nil
	}
	return u.Context.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return uncancelled{parent} }
