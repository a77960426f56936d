// Package vsched is a cooperative scheduler with virtual time. One execution
// (Exec) runs a body and every goroutine it spawns one at a time; at every
// synchronisation operation the scheduler takes the next entry of a recorded
// choice sequence (or alternative 0), so an execution is a pure function of
// its choice sequence and Explore can enumerate all of them up to a bound on
// deviations.
//
// The code under test reaches this package through the rewritten imports
// (sync, net, time, go statements, channel operations, map ranges); see
// tools/vgen.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Epoch is the virtual wall clock at the start of every execution.
const Epoch int64 = 1_800_000_000

type thread struct {
	id     int
	name   string
	wake   chan struct{}
	cond   func() bool
	what   string
	idle   bool
	held   bool
	done   bool
	daemon bool
}

// Decision is one recorded choice point.
type Decision struct {
	N      int
	Chosen int
	Costs  []uint8
	Label  string
}

type timer struct {
	when int64
	next *timer
	fire func()
	dead bool
}

type Exec struct {
	prefix    []int
	Decisions []Decision
	threads   []*thread
	made      int // threads so far
	dead      int // ended threads among threads
	running   *thread
	clock     int64 // ns since Epoch
	timers    *timer
	Failure   string
	Steps     int
	maxSteps  int
	stmts     int
	horizon   int64
	killing   bool
	ended     bool
	fin       chan struct{}
	opt       Opts
	Obs       []string
	Diverged  string
	Trace     []string
	chans     []*chanEntry
	nchans    int
}

type Opts struct {
	Prefix   []int
	MaxSteps int
	Horizon  int64 // ns of virtual time after which the execution counts as stuck
	Preempt  bool  // switching away from a runnable thread is an alternative (cost 1)
	Delay    bool  // every alternative to the default thread costs 1, also at blocking points
	Hold     bool  // the only alternative (cost 1): a runnable thread is held until no other can run
	TimeAlt  bool  // letting the next timer fire while threads can run is an alternative (cost 1)
	MapOrder bool  // every order of a map iteration is an alternative (cost 0)
	PoolNew  bool  // sync.Pool.Get returning a fresh object is an alternative (cost 1)
	Stmts    bool  // every statement of the code under test is a scheduling point
	KeepLog  bool
}

var cur *Exec

// Active reports whether a controlled execution is running.
func Active() bool { return cur != nil }

func Current() *Exec { return cur }

// What goes on for ever is told from what merely takes long by many choices,
// or by very many steps: how many points the code passes per operation is its
// own affair.
const (
	defaultMaxSteps = 1_000_000
	maxQuietSteps   = 20_000_000
)

func (x *Exec) endless() bool {
	return len(x.Decisions) > x.maxSteps || x.Steps > maxQuietSteps
}

var progress atomic.Int64

// Progress grows with every scheduling point which hands over.
func Progress() int64 { return progress.Load() }

// Run executes body as thread 0 under the given choices and returns when body
// has returned, failed or got stuck. Threads that are still alive are ended.
func Run(o Opts, body func()) *Exec {
	if cur != nil {
		panic("vsched: nested Run")
	}
	x := &Exec{prefix: o.Prefix, opt: o, fin: make(chan struct{}), maxSteps: o.MaxSteps, horizon: o.Horizon}
	if x.maxSteps < defaultMaxSteps {
		x.maxSteps = defaultMaxSteps
	}
	if x.horizon == 0 {
		x.horizon = int64(24 * 3600 * 1e9)
	}
	cur = x
	t := x.newThread("main")
	x.running = t
	x.start(t, body)
	hide()
	t.wake <- struct{}{}
	<-x.fin
	show()
	if RaceOn && x.Failure == "" && RaceHook != nil {
		x.Failure = RaceHook()
	}
	x.killing = true
	hide()
	for _, th := range x.threads {
		if !th.done {
			th.wake <- struct{}{}
			<-x.fin
		}
	}
	show()
	Acquire(unsafe.Pointer(&over))
	if RaceOn && RaceSkip != nil {
		RaceSkip()
	}
	cur = nil
	return x
}

// RaceHook says which data race this execution showed ("" for none); RaceSkip
// forgets what was reported while an execution was torn down.
var (
	RaceHook func() string
	RaceSkip func()
	over     int // the end of every thread happens before the next execution
)

func (x *Exec) newThread(name string) *thread {
	if x.dead > 64 && x.dead > len(x.threads)/2 {
		// forget the ended ones
		n := 0
		for _, o := range x.threads {
			if !o.done {
				x.threads[n] = o
				n++
			}
		}
		x.threads, x.dead = x.threads[:n], 0
	}
	t := &thread{id: x.made, name: name, wake: make(chan struct{})}
	x.made++
	x.threads = append(x.threads, t)
	return t
}

func (x *Exec) start(t *thread, f func()) {
	go func() {
		hide()
		<-t.wake
		show()
		defer func() {
			// runs on normal return, panic and Goexit
			Release(unsafe.Pointer(t))
			Release(unsafe.Pointer(&over))
			hide()
			if x.killing {
				_ = recover()
				t.done = true
				x.fin <- struct{}{}
				return
			}
			if r := recover(); r != nil {
				x.failNow(fmt.Sprintf("panic in goroutine %d (%s): %v\n%s", t.id, t.name, r, trimStack(string(debug.Stack()))))
			}
			t.done = true
			x.dead++
			t.cond = nil
			if t.id == 0 || x.Failure != "" {
				x.finish()
				return
			}
			x.next(t)
		}()
		if x.killing {
			return
		}
		f()
	}()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "go-memcached") || strings.Contains(l, "/verif/") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (x *Exec) failNow(msg string) {
	if x.Failure == "" {
		x.Failure = msg
	}
}

func (x *Exec) finish() {
	if !x.ended {
		x.ended = true
		x.fin <- struct{}{}
	}
}

// Fail records a failure of the current execution and ends it.
func Fail(format string, a ...interface{}) {
	x := cur
	if x == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if x.killing {
		runtime.Goexit()
	}
	x.failNow(fmt.Sprintf(format, a...))
	runtime.Goexit()
}

// Go starts f as a new thread of the current execution.
func Go(f func()) {
	x := cur
	if x == nil {
		goFree(f)
		return
	}
	if x.killing {
		return
	}
	Spawn(f)
	Point("go")
}

// Spawn is Go without a scheduling point (timers fire in scheduler context).
func Spawn(f func()) {
	x := cur
	if x == nil {
		goFree(f)
		return
	}
	t := x.newThread("go")
	t.daemon = true
	x.start(t, f)
}

// GoNamed is Go for harness threads that the body waits for with Join.
func GoNamed(name string, f func()) *Handle {
	x := cur
	if x == nil {
		h := &Handle{ch: make(chan struct{})}
		go func() {
			defer close(h.ch)
			defer func() {
				if r := recover(); r != nil {
					reportFree(fmt.Sprintf("panic in %s: %v\n%s", name, r, trimStack(string(debug.Stack()))))
				}
			}()
			f()
		}()
		return h
	}
	t := x.newThread(name)
	x.start(t, f)
	return &Handle{t: t}
}

type Handle struct {
	t  *thread
	ch chan struct{}
}

func (h *Handle) Done() bool { return h.t != nil && h.t.done }

func (h *Handle) Join() {
	if h.ch != nil {
		<-h.ch
		return
	}
	Block(func() bool { return h.t.done }, "join "+h.t.name)
	Acquire(unsafe.Pointer(h.t))
}

// --- free-running mode (race detector passes) ---

var (
	freeMu    sync.Mutex
	freeFails []string
)

func goFree(f func()) {
	go func() {
		defer func() {
			if r := recover(); r != nil {
				reportFree(fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack()))))
			}
		}()
		f()
	}()
}

func reportFree(s string) {
	freeMu.Lock()
	freeFails = append(freeFails, s)
	freeMu.Unlock()
}

// FreeFailures returns panics seen outside controlled executions.
func FreeFailures() []string {
	freeMu.Lock()
	defer freeMu.Unlock()
	return append([]string(nil), freeFails...)
}

// --- scheduling ---

func (x *Exec) self() *thread { return x.running }

// Point is a scheduling point at which the caller stays runnable.
func Point(label string) {
	x := cur
	if x == nil {
		return
	}
	if x.killing {
		return
	}
	t := x.running
	if len(x.threads) == 1 && !x.opt.TimeAlt {
		x.step()
		return
	}
	t.cond = nil
	t.what = label
	x.next(t)
}

// Calm lets no timer fire early for the rest of this execution.
func Calm() {
	if cur != nil {
		cur.opt.TimeAlt = false
	}
}

// Stmt stands before every statement of the code under test.
func Stmt() {
	x := cur
	if x == nil || x.killing {
		return
	}
	if x.opt.Stmts && len(x.threads) > 1 {
		Point("statement")
		return
	}
	x.stmts++
	if x.stmts > maxStmts {
		x.failNow(fmt.Sprintf("no progress: more than %d statements of the code under test were executed", maxStmts))
		runtime.Goexit()
	}
}

const maxStmts = 100_000_000

// Block parks the caller until cond holds. cond must only read state that
// threads of this execution write.
func Block(cond func() bool, what string) {
	x := cur
	if x == nil {
		panic("vsched: Block outside a controlled execution: " + what)
	}
	if x.killing {
		runtime.Goexit()
	}
	t := x.running
	t.cond = cond
	t.what = what
	x.next(t)
	t.cond = nil
}

// Idle parks the caller until no other thread can run (without letting
// virtual time pass).
func Idle() {
	x := cur
	if x == nil || x.killing {
		return
	}
	t := x.running
	t.idle = true
	t.what = "idle"
	t.cond = nil
	x.next(t)
	t.idle = false
}

func (x *Exec) step() {
	x.Steps++
	progress.Add(1)
	if x.endless() {
		x.failNow(fmt.Sprintf("no progress: %d scheduling steps, %d choices (livelock)", x.Steps, len(x.Decisions)))
		runtime.Goexit()
	}
}

func (t *thread) enabled() bool {
	return !t.done && (t.cond == nil || t.cond())
}

// next chooses who runs after thread t reached a scheduling point and hands
// over. It returns when t is chosen again (immediately for a finished t).
func (x *Exec) next(t *thread) {
	x.Steps++
	progress.Add(1)
	if x.endless() {
		x.failNow(fmt.Sprintf("no progress: %d scheduling steps, %d choices (livelock)\n%s", x.Steps, len(x.Decisions), x.describe()))
		x.endFrom(t)
		return
	}
	var nt *thread
	for {
		en := make([]*thread, 0, 4)
		selfEnabled := false
		if !t.idle && t.enabled() {
			en = append(en, t)
			selfEnabled = true
		}
		for _, o := range x.threads {
			if o != t && !o.idle && o.enabled() {
				en = append(en, o)
			}
		}
		if len(en) == 0 {
			for _, o := range x.threads {
				if o.idle && !o.done {
					en = append(en, o)
				}
			}
		}
		if len(en) == 0 {
			if !x.advance() {
				x.failNow("deadlock: no goroutine can proceed\n" + x.describe())
				x.endFrom(t)
				return
			}
			if x.clock > x.horizon {
				x.failNow("stuck: virtual time passed the horizon\n" + x.describe())
				x.endFrom(t)
				return
			}
			continue
		}
		if x.opt.Hold {
			en = x.holdLast(en)
			if selfEnabled && en[0] != t {
				selfEnabled = false
			}
		}
		n := len(en)
		hold := x.opt.Hold && selfEnabled && n > 1 && !en[1].held && !en[1].idle
		timeAlt := x.opt.TimeAlt && x.pendingTimers() && !(len(en) == 1 && en[0].idle)
		total := n
		if x.opt.Hold {
			n = 1
			if hold {
				n = 2
			}
			total = n
		}
		if timeAlt {
			total++
		}
		if total == 1 {
			nt = en[0]
			break
		}
		costs := make([]uint8, total)
		for i := 1; i < n; i++ {
			if selfEnabled {
				costs[i] = 1
				if !x.opt.Preempt && !hold {
					costs[i] = 255
				}
			} else if x.opt.Delay {
				costs[i] = 1
			}
		}
		if timeAlt {
			costs[total-1] = 1
		}
		c := x.decide(total, costs, t.what)
		if c < n {
			if c == 1 && hold {
				t.held = true
			}
			nt = en[c]
			break
		}
		x.advance()
	}
	nt.held = false
	if nt == t {
		return
	}
	x.running = nt
	if x.opt.KeepLog {
		x.Trace = append(x.Trace, fmt.Sprintf("%d:%s -> %d:%s", t.id, t.what, nt.id, nt.what))
	}
	if t.done {
		nt.wake <- struct{}{}
		return
	}
	hide()
	nt.wake <- struct{}{}
	<-t.wake
	show()
	if x.killing {
		runtime.Goexit()
	}
	x.running = t
}

// holdLast moves the held threads to the end.
func (x *Exec) holdLast(en []*thread) []*thread {
	out := make([]*thread, 0, len(en))
	for _, held := range []bool{false, true} {
		for _, t := range en {
			if t.held == held {
				out = append(out, t)
			}
		}
	}
	return out
}

// endFrom ends the execution from the context of thread t.
func (x *Exec) endFrom(t *thread) {
	if t.done {
		x.finish()
		return
	}
	x.ended = true
	// t itself is ended like the others once Run starts killing
	hide()
	x.fin <- struct{}{}
	<-t.wake
	show()
	runtime.Goexit()
}

func (x *Exec) describe() string {
	var sb strings.Builder
	for _, th := range x.threads {
		if !th.done {
			fmt.Fprintf(&sb, "  goroutine %d (%s): waiting at %s\n", th.id, th.name, th.what)
		}
	}
	return sb.String()
}

// The timers form a list in the order in which they fire. (No slice: growing
// one would show up in the race build.)
func (x *Exec) first() *timer {
	for x.timers != nil && x.timers.dead {
		x.timers = x.timers.next
	}
	return x.timers
}

func (x *Exec) addTimer(tm *timer) {
	p := &x.timers
	for *p != nil && ((*p).dead || (*p).when <= tm.when) {
		if (*p).dead {
			*p = (*p).next
			continue
		}
		p = &(*p).next
	}
	tm.next = *p
	*p = tm
}

func (x *Exec) pendingTimers() bool { return x.first() != nil }

func (x *Exec) advance() bool {
	tm := x.first()
	if tm == nil {
		return false
	}
	x.timers = tm.next
	if tm.when > x.clock {
		x.clock = tm.when
	}
	tm.dead = true
	if tm.fire != nil {
		tm.fire()
	}
	return true
}

func (x *Exec) decide(n int, costs []uint8, label string) int {
	i := len(x.Decisions)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c < 0 || c >= n {
			x.Diverged = fmt.Sprintf("choice %d of %d at decision %d (%s) is out of range", c, n, i, label)
			c = 0
		}
	}
	x.Decisions = append(x.Decisions, Decision{N: n, Chosen: c, Costs: costs, Label: label})
	return c
}

// Choose is an environment choice among n answers; any answer but 0 costs cost.
func Choose(n int, cost uint8, label string) int {
	x := cur
	if x == nil || x.killing || n <= 1 {
		return 0
	}
	costs := make([]uint8, n)
	for i := 1; i < n; i++ {
		costs[i] = cost
	}
	return x.decide(n, costs, label)
}

// --- virtual time ---

// Now returns virtual nanoseconds since Epoch.
func Now() int64 {
	if cur == nil {
		return 0
	}
	return cur.clock
}

// AddTimer arranges for fire to run (without blocking) d ns from now. The
// returned function cancels it and reports whether it was still pending.
func AddTimer(d int64, fire func()) (stop func() bool) {
	x := cur
	if x == nil {
		return func() bool { return false }
	}
	if d < 0 {
		d = 0
	}
	tm := &timer{when: x.clock + d, fire: fire}
	x.addTimer(tm)
	return func() bool {
		was := !tm.dead
		tm.dead = true
		return was
	}
}

// Sleep parks the caller for d virtual nanoseconds.
func Sleep(d int64) {
	x := cur
	if x == nil || x.killing {
		return
	}
	if d <= 0 {
		Point("sleep")
		return
	}
	until := x.clock + d
	AddTimer(d, nil)
	Block(func() bool { return x.clock >= until }, "sleep")
}

// Killing reports whether the current execution is being torn down.
func Killing() bool { return cur != nil && cur.killing }

func MapOrderOn() bool { return cur != nil && cur.opt.MapOrder }
func PoolNewOn() bool  { return cur != nil && cur.opt.PoolNew }

// Observe adds a line to the execution's observation log.
func Observe(format string, a ...interface{}) {
	if cur != nil && !cur.killing {
		cur.Obs = append(cur.Obs, fmt.Sprintf(format, a...))
	}
}

// Threads returns how many spawned goroutines of the code under test (not the
// harness) are still alive.
func Daemons() int {
	n := 0
	if cur == nil {
		return 0
	}
	for _, t := range cur.threads {
		if t.daemon && !t.done {
			n++
		}
	}
	return n
}
