package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

// Ctx runs the cases of one check in one worker process.
type Ctx struct {
	ID       string
	Tier     string
	Shard, N int
	Deadline time.Time
	Only     string
	OnlyCh   []int
	idx      int

	R Report

	cur      atomic.Value // string: case being executed
	curSince int64
	curFile  *os.File
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	maxViol  int
}

type Violation struct {
	Case    string   `json:"case"`
	Choices []int    `json:"choices,omitempty"`
	Message string   `json:"message"`
	Obs     []string `json:"observations,omitempty"`
	Race    bool     `json:"race,omitempty"`
}

// Report is what a worker hands to the orchestrator.
type Report struct {
	Cases       int         `json:"cases"`
	Execs       int         `json:"execs"`
	Transitions int         `json:"transitions"`
	Decisions   int         `json:"decisions"`
	States      []uint64    `json:"states"`
	Outcomes    []uint64    `json:"outcomes"`
	Violations  []Violation `json:"violations,omitempty"`
	Flaky       []Violation `json:"flaky,omitempty"`
	Internal    []string    `json:"internal,omitempty"`
	Samples     []string    `json:"samples,omitempty"`
	Capped      bool        `json:"capped"`
	Skipped     int         `json:"skipped"`
	Groups      map[string]int
	Done        bool `json:"done"`
}

// CaseOpt says how a case is explored.
type CaseOpt struct {
	Bound    int
	Preempt  bool
	Delay    bool
	TimeAlt  bool
	MapOrder bool
	PoolNew  bool
	Stmts    bool
	MaxExecs int
	Horizon  time.Duration
	MaxSteps int
	Split    bool // every worker explores its part of the first-level deviations
	Race     bool // also explored in the race build
	// HoldBound is how many threads may be held; 0: 2
	HoldBound int
	Hold      bool // set by Case: the only deviation is to hold a thread until no other can run
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// State registers a canonical state reached; Trans counts transitions.
func (c *Ctx) State(s string) { c.states[hash(s)] = struct{}{} }
func (c *Ctx) Trans(n int)    { c.R.Transitions += n }

// Case explores one case. group is the part of the id before the first '/'.
func (c *Ctx) Case(id string, o CaseOpt, body func()) {
	if vsched.RaceOn {
		// the race detector judges unordered accesses whichever way they were
		// scheduled, so few deviations and no statement switches are needed
		if !o.Race {
			return
		}
		if o.Bound > 1 {
			o.Bound = 1
		}
		if m := c.Pick(300, 3000); o.MaxExecs == 0 || o.MaxExecs > m {
			o.MaxExecs = m
		}
		o.Stmts, o.Split = false, false
	}
	if o.Preempt && !o.Hold && !vsched.RaceOn {
		h := o
		h.Hold, h.Bound, h.Split = true, 2, false
		if o.HoldBound > 0 {
			h.Bound = o.HoldBound
		}
		h.MaxExecs = c.Pick(60000, 400000)
		c.Case(id+"~hold", h, body)
	}
	c.idx++
	if c.Only != "" && id != c.Only {
		return
	}
	if c.Only == "" {
		if !o.Split && shardOf(id, c.N) != c.Shard {
			return
		}
		if len(c.R.Violations) >= c.maxViol {
			c.R.Skipped++
			return
		}
		if !c.Deadline.IsZero() && time.Now().After(c.Deadline) {
			c.R.Capped = true
			c.R.Skipped++
			return
		}
	}
	c.cur.Store(id)
	if c.curFile != nil {
		b := make([]byte, 512)
		copy(b, id)
		_, _ = c.curFile.WriteAt(b, 0)
	}
	atomic.StoreInt64(&c.curSince, time.Now().UnixNano())
	defer atomic.StoreInt64(&c.curSince, 0)
	opts := vsched.Opts{Preempt: o.Preempt, Delay: o.Delay, TimeAlt: o.TimeAlt, MapOrder: o.MapOrder, PoolNew: o.PoolNew, Stmts: o.Stmts, Hold: o.Hold,
		Horizon: int64(o.Horizon), MaxSteps: o.MaxSteps}
	if c.Only != "" && c.OnlyCh != nil {
		opts.Prefix = c.OnlyCh
		x := vsched.Run(opts, body)
		c.R.Execs++
		c.R.Cases++
		if x.Diverged != "" {
			c.R.Internal = append(c.R.Internal, id+": "+x.Diverged)
		}
		if x.Failure != "" {
			c.R.Violations = append(c.R.Violations, Violation{id, c.OnlyCh, x.Failure, x.Obs, false})
		}
		return
	}
	g := id
	if i := strings.IndexByte(g, '/'); i >= 0 {
		g = g[:i]
	}
	if o.Hold {
		g += "~hold"
	}
	e := &vsched.Explorer{Bound: o.Bound, MaxExecs: o.MaxExecs, Deadline: c.Deadline, Opts: opts, Body: body,
		Tick: func() { atomic.StoreInt64(&c.curSince, time.Now().UnixNano()) }}
	if o.Bound == 0 && !o.Delay && o.MaxExecs == 0 {
		// A sequential case of which one order, or a handful, is all there is:
		// code which starts goroutines of its own does not get all of theirs here.
		e.MaxExecs, e.MaxSteps = 400, 200_000
	}
	if o.Split && c.N > 1 && c.Only == "" {
		e.Shard, e.Shards = c.Shard, c.N
	}
	e.Check = func(x *vsched.Exec) string {
		if len(x.Obs) > 0 {
			c.outcomes[hash(id+"\x00"+strings.Join(x.Obs, "\n"))] = struct{}{}
		}
		return ""
	}
	st := e.Explore()
	c.R.Cases++
	c.R.Execs += st.Execs
	c.R.Decisions += st.Decisions
	if c.R.Groups == nil {
		c.R.Groups = map[string]int{}
	}
	c.R.Groups[g] += st.Execs
	if st.Capped {
		c.R.Capped = true
	}
	if st.Diverged != "" {
		c.R.Internal = append(c.R.Internal, id+": "+st.Diverged)
		return
	}
	if len(c.R.Samples) < 3 && c.R.Groups[g] == st.Execs {
		c.R.Samples = append(c.R.Samples, id)
	}
	if st.Failure != "" {
		v := Violation{Case: id, Choices: st.Choices, Message: st.Failure}
		opts.Prefix = st.Choices
		var first []string
		for i := 0; i < 5; i++ {
			x := vsched.Run(opts, body)
			if i == 0 {
				first = x.Obs
			}
			if x.Failure == "" || x.Diverged != "" || strings.Join(first, "\n") != strings.Join(x.Obs, "\n") {
				v.Message = "not reproducible: " + v.Message + " / " + x.Diverged
				c.R.Flaky = append(c.R.Flaky, v)
				return
			}
			v.Obs = x.Obs
		}
		c.R.Violations = append(c.R.Violations, v)
	}
}

// Plain runs a case without a scheduler choice (single execution).
func (c *Ctx) Plain(id string, body func()) { c.Case(id, CaseOpt{}, body) }

func (c *Ctx) finish() {
	for s := range c.states {
		c.R.States = append(c.R.States, s)
	}
	for s := range c.outcomes {
		c.R.Outcomes = append(c.R.Outcomes, s)
	}
}

// watchdog ends a worker whose current execution does not end: code that spins
// or allocates without reaching any scheduling point.
func (c *Ctx) watchdog(write func()) {
	go func() {
		var ms runtime.MemStats
		var seen, moved int64
		for {
			time.Sleep(2 * time.Second)
			s := atomic.LoadInt64(&c.curSince)
			if s == 0 {
				continue
			}
			msg := ""
			if p := vsched.Progress(); p != seen {
				seen, moved = p, time.Now().UnixNano()
			}
			if s < moved {
				s = moved // the budget of steps ends what goes on for ever
			}
			if d := time.Since(time.Unix(0, s)); d > 45*time.Second {
				msg = fmt.Sprintf("the operation does not come to an end: the code under test has been running for %v without waiting for anything", d.Round(time.Second))
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				msg = fmt.Sprintf("the code under test holds %d MB of memory for a small request", ms.HeapAlloc>>20)
			}
			if msg != "" {
				id, _ := c.cur.Load().(string)
				// the case is confirmed by the orchestrator in a new process
				c.R.Violations = []Violation{{Case: id, Message: "hang: " + msg}}
				write()
				os.Exit(0)
			}
		}
	}()
}

// must fails the execution.
func fail(f string, a ...interface{}) { vsched.Fail(f, a...) }

// Measure runs f once under the scheduler to learn sizes; failures in it are
// ignored here because the cases themselves will meet them.
func (c *Ctx) Measure(f func()) { vsched.Run(vsched.Opts{}, f) }

// shardOf spreads the cases evenly, whatever the pattern of their sizes.
func shardOf(id string, n int) int {
	h := hash(id)
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return int(h % uint64(n))
}
