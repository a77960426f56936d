package vsched

import (
	"fmt"
	"time"
)

// Explorer enumerates every execution whose deviations cost at most Bound.
type Explorer struct {
	Bound    int
	MaxExecs int       // 0: none
	MaxSteps int       // of all executions together; 0: none
	Deadline time.Time // zero: none
	Shard    int
	Shards   int
	Opts     Opts
	Tick     func() // called before every execution
	// Body runs as thread 0; Check judges the finished execution ("" = fine).
	Body  func()
	Check func(x *Exec) string
}

type ExploreStats struct {
	Execs     int
	Decisions int
	Steps     int
	MaxDepth  int
	Capped    bool
	Diverged  string
	Failure   string
	Choices   []int
}

func (e *Explorer) one(prefix []int) (*Exec, string) {
	o := e.Opts
	o.Prefix = prefix
	if e.Tick != nil {
		e.Tick()
	}
	x := Run(o, e.Body)
	f := x.Failure
	if f == "" && e.Check != nil {
		f = e.Check(x)
	}
	return x, f
}

func ChoicesOf(x *Exec) []int {
	c := make([]int, len(x.Decisions))
	for i, d := range x.Decisions {
		c[i] = d.Chosen
	}
	// trailing defaults carry no information
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

func (e *Explorer) Explore() ExploreStats {
	var st ExploreStats
	// the prefix of an item is the first n choices of a finished execution,
	// which its siblings share, and alt
	type item struct {
		of  []int32
		n   int
		alt int32
	}
	prefixOf := func(it item) []int {
		if it.of == nil {
			return nil
		}
		p := make([]int, it.n+1)
		for i := 0; i < it.n; i++ {
			p[i] = int(it.of[i])
		}
		p[it.n] = int(it.alt)
		return p
	}
	stack := []item{{}}
	first := true
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		prefix := prefixOf(it)
		x, f := e.one(prefix)
		st.Execs++
		st.Decisions += len(x.Decisions)
		st.Steps += x.Steps
		if len(x.Decisions) > st.MaxDepth {
			st.MaxDepth = len(x.Decisions)
		}
		if x.Diverged != "" {
			st.Diverged = x.Diverged
			return st
		}
		if len(x.Decisions) < len(prefix) {
			st.Diverged = fmt.Sprintf("replaying a prefix of %d choices met only %d decisions", len(prefix), len(x.Decisions))
			return st
		}
		if f != "" {
			st.Failure = f
			st.Choices = ChoicesOf(x)
			return st
		}
		cost := 0
		child := 0
		var kids []item
		var chosen []int32
		for i := 0; i < len(x.Decisions); i++ {
			d := x.Decisions[i]
			if i >= len(prefix) {
				for alt := 1; alt < d.N; alt++ {
					if d.Costs[alt] == 255 || cost+int(d.Costs[alt]) > e.Bound {
						continue
					}
					if first && e.Shards > 1 && child%e.Shards != e.Shard {
						child++
						continue
					}
					child++
					if chosen == nil {
						chosen = make([]int32, len(x.Decisions))
						for j, d := range x.Decisions {
							chosen[j] = int32(d.Chosen)
						}
					}
					kids = append(kids, item{chosen, i, int32(alt)})
				}
			}
			cost += int(d.Costs[d.Chosen])
		}
		// fewest deviations first is not needed for completeness; push in
		// reverse so that the earliest deviation is explored first
		for i := len(kids) - 1; i >= 0; i-- {
			stack = append(stack, kids[i])
		}
		first = false
		if (e.MaxExecs > 0 && st.Execs >= e.MaxExecs || e.MaxSteps > 0 && st.Steps >= e.MaxSteps) && len(stack) > 0 {
			st.Capped = true
			return st
		}
		if !e.Deadline.IsZero() && st.Execs%64 == 0 && time.Now().After(e.Deadline) && len(stack) > 0 {
			st.Capped = true
			return st
		}
	}
	return st
}
