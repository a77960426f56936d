package main

import (
	"fmt"
	"strings"
	"time"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func init() {
	register("C06", c06, "one case = protocol x operation x kind of fault x earlier use of the connection (busy, idle, none) x one byte of its request or reply at which the fault strikes; then further operations on the broken connection, late deliveries, refused and successful Reconnects, and again operations; also replies spoilt at one byte, then Reconnect; every result is judged against the set of states the server may be in")
}

// maybe is what the server may hold: one model per history that is possible
// after an operation failed without saying whether it took effect.
type maybe struct {
	o *one
	s []*Model

	incrs int
}

func (y *maybe) do(op Op, strict bool, limit time.Duration) Out {
	t0 := vsched.Now()
	ms := make([]*Model, len(y.s))
	wants := make([]Want, len(y.s))
	for i, m := range y.s {
		ms[i] = m.Clone()
		wants[i] = ms[i].Do(op)
	}
	out := y.o.r.Do(op)
	if d := time.Duration(vsched.Now() - t0); d > limit {
		fail("%v returned only after %v although the timeout is %v", op, d, limit)
	}
	var next []*Model
	why := ""
	for i, m := range y.s {
		m1 := ms[i]
		d := Compare(m.Proto, op, out, wants[i])
		if d == "" {
			next = append(next, m1)
			if out.Err == "error" && !strict {
				next = append(next, m)
			}
			continue
		}
		if !strict && out.Err == "error" {
			next = append(next, m, m1)
			continue
		}
		why = d
	}
	if len(next) == 0 {
		fail("%s", why)
	}
	seen := map[string]bool{}
	y.s = y.s[:0]
	for _, m := range next {
		k := m.dump()
		if !seen[k] {
			seen[k] = true
			y.s = append(y.s, m)
		}
	}
	return out
}

// settled keeps the models that agree with the server.
func (y *maybe) settled(keys []string) {
	var next []*Model
	why := ""
	for _, m := range y.s {
		if d := storeDiff(y.o.st, m, keys); d == "" {
			next = append(next, m)
		} else {
			why = d
		}
	}
	if len(next) == 0 {
		fail("the server's contents are none of those the results allow: %s", why)
	}
	y.s = next
}

func (m *Model) dump() string {
	ks := make([]string, 0, len(m.M))
	for k := range m.M {
		ks = append(ks, k)
	}
	sortStrings(ks)
	var sb strings.Builder
	for _, k := range ks {
		e := m.M[k]
		fmt.Fprintf(&sb, "%s=%x/%d/%d/", k, hash(e.val), e.flags, e.exp)
		for _, t := range m.tok[k] {
			fmt.Fprint(&sb, t == e.ver)
		}
	}
	return sb.String()
}

var faultPrep = []Op{
	{K: "set", Key: "a", Val: "5", Flags: []byte{0, 0, 0, 5}}, {K: "set", Key: "b", Val: "bbb\r\nEND\r\n"}, {K: "set", Key: "n", Val: "41"}, {K: "get", Key: "a"},
}

var faultOps = []Op{
	{K: "get", Key: "a"}, {K: "get", Key: "none"}, {K: "multi", Keys: []string{"a", "none", "b"}}, {K: "set", Key: "a", Val: "six", Flags: []byte{0, 0, 1, 6}, Exp: 100},
	{K: "cas", Key: "a", Val: "seven"}, {K: "add", Key: "new", Val: "8"}, {K: "add", Key: "a", Val: "9"}, {K: "replace", Key: "a", Val: "10"}, {K: "delete", Key: "a"},
	{K: "delete", Key: "none"}, {K: "incr", Key: "n", Delta: 1}, {K: "decr", Key: "n", Delta: 40}, {K: "incr", Key: "b", Delta: 1}, {K: "touch", Key: "a", Exp: 50}, {K: "flush"}, {K: "version"},
	{K: "set", Key: "big", Val: strings.Repeat("0123456789abcde\n", 560)}, {K: "get", Key: "b"}, {K: "incr", Key: "cnt", Delta: 3},
}

var faultKeys = []string{"a", "b", "n", "new", "big", "c", "cnt", "d"}

// cuts lists the fault points of n bytes: all of them, or for long messages
// the ends and the borders of buffers.
func cuts(n int, all bool) []int {
	var r []int
	for i := 0; i <= n; i++ {
		if n < 600 || all && i%7 == 0 || i < 60 || i > n-40 || i%4096 < 3 || i%4096 > 4093 || i%1009 == 0 {
			r = append(r, i)
		}
	}
	return r
}

// wideMulti asks for n keys, of which some exist.
func wideMulti(n int) Op {
	op := Op{K: "multi"}
	for i := 0; i < n; i++ {
		op.Keys = append(op.Keys, fmt.Sprintf("wide%d", i))
	}
	return op
}

// prepWide stores what wideMulti asks for.
func (o *one) prepWide(op Op) {
	if len(op.Keys) < 50 {
		return
	}
	for i, k := range op.Keys {
		if i%5 != 3 {
			o.step(Op{K: "xset", Key: k, Val: fmt.Sprintf("v%d", i), Flags: []byte{0, 0, 1, byte(i)}})
		}
	}
}

// sizes learns the request and reply lengths of op after faultPrep.
func (c *Ctx) sizes(p string, op Op) (req, rep int) {
	c.Measure(func() {
		o := newOne(p, time.Second)
		for _, x := range faultPrep {
			o.r.Do(x)
		}
		o.prepWide(op)
		l := o.w.Links[0]
		s, r := l.Sent, l.Recv
		o.r.Do(op)
		req, rep = l.Sent-s, l.Recv-r
	})
	return
}

func c06(c *Ctx) {
	type kind struct {
		name    string
		timeout time.Duration
	}
	kinds := []kind{{"eof", time.Second}, {"rst", time.Second}, {"stall", time.Second}, {"wstall", time.Second}, {"late", time.Second}, {"trickle", time.Second}, {"eof", 0}, {"rst", 0}}
	for _, p := range protos {
		p := p
		for oi, op := range faultOps {
			op := op
			req, rep := c.sizes(p, op)
			for _, k := range kinds {
				k := k
				point := func(side string, at int) {
					for down := 0; down <= 2; down++ {
						for _, use := range []string{"busy", "idle", "fresh"} {
							if down != at%3 && !c.Thorough() || use == "fresh" && op.K == "cas" {
								continue
							}
							down, use := down, use
							c.Plain(fmt.Sprintf("%s/%s/%d/%s%d/%s%d/down%d/%s", op.K, p, oi, k.name, k.timeout/time.Second, side, at, down, use), func() {
								faultCase(p, op, k.name, k.timeout, side, at, rep, down, use, nil)
							})
						}
					}
				}
				if k.name != "trickle" {
					for _, at := range cuts(req, c.Thorough()) {
						if k.name == "wstall" && at == req {
							continue
						}
						if at > 0 {
							point("req", at)
						}
					}
				}
				if k.name != "wstall" {
					for _, at := range cuts(rep, c.Thorough()) {
						if at == rep && (k.name == "late" || k.name == "trickle") {
							continue
						}
						point("rep", at)
					}
				}
			}
		}
		// multi-gets of more keys than are asked for at once
		for _, n := range []int{100, 101, 150, 201, 333} {
			n, op := n, wideMulti(n)
			req, rep := c.sizes(p, op)
			for _, k := range kinds[:6] {
				k := k
				for si, side := range []string{"req", "rep"} {
					total := []int{req, rep}[si]
					var at []int
					for i := 1; i < c.Pick(12, 200); i++ {
						at = append(at, total*i/c.Pick(12, 200))
					}
					at = append(at, 1, total-1, total-2, total-3, total-24, total-25)
					for _, a := range at {
						if !c.Thorough() && (n == 333 || k.name == "trickle" && a < total/2 || k.name == "rst" && a < total*2/5) {
							continue
						}
						if a <= 0 || side == "req" && k.name == "trickle" || side == "rep" && k.name == "wstall" {
							continue
						}
						side, a := side, a
						c.Plain(fmt.Sprintf("wide/%s/%d/%s/%s%d", p, n, k.name, side, a), func() {
							faultCase(p, op, k.name, k.timeout, side, a, rep, 0, "busy", nil)
						})
					}
				}
			}
		}
		// timeouts of every length
		for oi, op := range append(faultOps[:len(faultOps):len(faultOps)], wideMulti(250)) {
			oi, op := oi, op
			req, rep := c.sizes(p, op)
			for _, tm := range []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, 50 * time.Millisecond, 500 * time.Millisecond, 2 * time.Second, 10 * time.Second, time.Minute, time.Hour} {
				for _, k := range []string{"stall", "wstall", "late", "trickle"} {
					tm, k := tm, k
					var at []int
					side := "rep"
					if k == "wstall" {
						side, at = "req", []int{1, req / 2}
					} else {
						at = []int{0, rep / 2, rep - 1}
					}
					for _, a := range at {
						if a < 0 || side == "req" && a == 0 || side == "rep" && a >= rep || k == "trickle" && rep-a < 4 {
							continue
						}
						a := a
						opt := CaseOpt{Horizon: 1000 * 24 * time.Hour}
						c.Case(fmt.Sprintf("limit/%s/%d/%s%v/%s%d", p, oi, k, tm, side, a), opt, func() {
							faultCase(p, op, k, tm, side, a, rep, 0, "busy", nil)
						})
					}
				}
			}
		}
		// a server that is in time with each part of its reply, but not with all of it
		for _, n := range []int{100, 101, 200, 201, 300, 450} {
			n, op := n, wideMulti(n)
			_, rep := c.sizes(p, op)
			for _, at := range []int{0, 1, 9, rep / 3, rep / 2, rep - 1} {
				at := at
				c.Plain(fmt.Sprintf("lagging/%s/%d/%d", p, n, at), func() {
					faultCase(p, op, "lagging", time.Second, "rep", at, rep, 0, "busy", nil)
				})
			}
		}
		// a server that is slow but answers within the timeout
		for oi, op := range faultOps {
			oi, op := oi, op
			req, rep := c.sizes(p, op)
			for _, tm := range []time.Duration{50 * time.Millisecond, time.Second, 10 * time.Second, 0} {
				tm := tm
				try := func(side string, at int) {
					c.Plain(fmt.Sprintf("prompt/%s/%d/%v/%s%d", p, oi, tm, side, at), func() { promptCase(p, op, tm, side, at, rep) })
				}
				for _, at := range cuts(req, false) {
					if at > 0 && (c.Thorough() || at <= 2 || at%7 == oi%7 || at >= req-1) {
						try("req", at)
					}
				}
				for _, at := range cuts(rep, false) {
					if at < rep && (c.Thorough() || at <= 2 || at%7 == oi%7 || at >= rep-2) {
						try("rep", at)
					}
				}
			}
		}
		// the timeout of an operation counts from its own start, whatever went before
		for i, op := range faultOps {
			for j, op2 := range faultOps {
				if !c.Thorough() && (i+j)%2 != 0 {
					continue
				}
				for _, gap := range []int{0, 10, 30, 45, 55, 70, 99, 130} {
					for _, lag := range []int{55, 75, 96} {
						op, op2, gap, lag := op, op2, gap, lag
						c.Plain(fmt.Sprintf("pace/%s/%d.%d/%d.%d", p, i, j, gap, lag), func() { paceCase(p, op, op2, gap, lag) })
					}
				}
			}
		}
		// replies cut or spoilt at one byte, then Reconnect
		for oi, op := range garbleOps {
			op := op
			ms := mutants(p, c.reply(p, op), false)
			for _, n := range sortedNames(ms) {
				if strings.HasPrefix(n, "put") && strings.HasSuffix(n, ".ff") || strings.HasPrefix(n, "line") || strings.HasPrefix(n, "twice") || strings.HasPrefix(n, "hand") && strings.HasSuffix(n, ".3") {
					n := n
					c.Plain(fmt.Sprintf("spoilt/%s/%d/%s", p, oi, n), func() { garbled(p, op, ms[n], "silent") })
				}
			}
		}
		// a host that does not even answer a dial
		for i, op := range faultOps {
			for _, timeout := range []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 2500 * time.Millisecond, 30 * time.Second, 10 * time.Minute} {
				for _, lift := range []time.Duration{0, time.Millisecond, 700 * time.Millisecond, 2 * time.Second, 20 * time.Second, time.Hour} {
					op, timeout, lift := op, timeout, lift
					c.Case(fmt.Sprintf("hole/%s/%d/%s/%s", p, i, timeout, lift), CaseOpt{Delay: true, Bound: 1, Horizon: 3 * time.Hour}, func() { holeCase(p, op, timeout, lift) })
				}
			}
		}
		// a second fault on the connection Reconnect made
		for i, op := range faultOps {
			op := op
			_, rep := c.sizes(p, op)
			for j, op2 := range faultOps {
				if !c.Thorough() && (i+j)%4 != 0 {
					continue
				}
				op2 := op2
				_, rep2 := c.sizes(p, op2)
				for _, at := range []int{0, rep / 2, rep - 1} {
					for _, at2 := range []int{0, 1, rep2 / 2, rep2 - 1} {
						if at < 0 || at2 < 0 {
							continue
						}
						for ki, k := range []string{"eof", "late", "stall", "rst"} {
							if !c.Thorough() && ki != (i+at+at2)%4 {
								continue
							}
							k, at, at2 := k, at, at2
							c.Plain(fmt.Sprintf("twice/%s/%d.%d/%s%d.%d", p, i, j, k, at, at2), func() {
								faultCase(p, op, k, time.Second, "rep", at, rep, 0, "busy", func(y *maybe) {
									l := y.o.w.Links[len(y.o.w.Links)-1]
									l.Plan = Plan{ReqCut: -1, RepCut: l.Recv + at2, Kind: k}
									y.do(op2, false, time.Second)
									y.later(time.Second)
									if err := y.o.s.Reconnect(); err != nil {
										fail("the second Reconnect to a running server failed: %v", err)
									}
								})
							})
						}
					}
				}
			}
		}
	}
}

// later runs operations on a connection that may be broken.
func (y *maybe) later(limit time.Duration) {
	for i, op := range []Op{{K: "get", Key: "b"}, {K: "get", Key: "none"}, {K: "multi", Keys: []string{"b", "none"}}, {K: "set", Key: "c", Val: "cc"}, {K: "incr", Key: "n", Delta: 1}, {K: "get", Key: "a"}, {K: "version"}} {
		if i == 4 && y.incrs > 0 {
			continue
		}
		y.do(op, false, limit)
	}
	y.incrs++
}

// promptCase: the server pauses at one byte of each of several exchanges, for
// nearly as long as the timeout allows.
func promptCase(p string, op Op, timeout time.Duration, side string, at, rep int) {
	o := newOne(p, timeout)
	for _, x := range faultPrep {
		o.step(x)
	}
	lag := timeout / 20 * 19
	if timeout == 0 {
		lag = time.Minute
	}
	expSlack = int64(lag/time.Second) + 2
	l := o.w.Links[0]
	plan := func() {
		l.Plan = Plan{ReqCut: -1, RepCut: -1, Kind: "late", Lag: lag}
		if side == "req" {
			l.Plan.ReqCut = l.Sent + at
		} else {
			l.Plan.RepCut = l.Recv + at
		}
		l.fired = false
	}
	for i := 0; i < 2; i++ {
		if i == 1 { // what earlier operations set is over by then
			vsched.Sleep(int64(2 * timeout))
		}
		plan()
		t0 := vsched.Now()
		o.step(op)
		if l.fired && vsched.Now()-t0 > int64(lag) {
			fail("%v waited on after its reply had arrived", op)
		}
		cx.Trans(1)
		l.Plan = noFault
		o.step(Op{K: "get", Key: "b"})
	}
	plan()
	o.step(Op{K: "get", Key: "b"})
	o.step(Op{K: "get", Key: "none"})
	l.Plan = noFault
	o.step(Op{K: "set", Key: "d", Val: "dd"})
	o.step(Op{K: "multi", Keys: []string{"b", "none", "d"}})
	if len(o.w.Links) != 1 || l.C.Closed() {
		fail("the client gave up a connection that was slow but in time")
	}
}

// paceCase: op, then after a pause each op again and op2 twice, these three
// answered only when lag percent of the timeout are over.
func paceCase(p string, op, op2 Op, gap, lag int) {
	const timeout = time.Second
	o := newOne(p, timeout)
	for _, x := range faultPrep {
		o.step(x)
	}
	expSlack = 5
	l := o.w.Links[0]
	o.step(op)
	for _, x := range []Op{op, op2, op2} {
		vsched.Sleep(int64(timeout) / 100 * int64(gap))
		l.Plan = Plan{ReqCut: -1, RepCut: l.Recv, Kind: "late", Lag: timeout / 100 * time.Duration(lag)}
		l.fired = false
		o.step(x)
		l.Plan = noFault
		cx.Trans(1)
	}
	if len(o.w.Links) != 1 || l.C.Closed() {
		fail("the client gave up a connection that was slow but in time")
	}
}

// faultCase: use is how the connection was used before the fault: "busy" just
// before, "idle" with long pauses, "fresh" not at all.
func faultCase(p string, op Op, kind string, timeout time.Duration, side string, at, rep, down int, use string, again func(*maybe)) {
	o := newOne(p, timeout)
	expSlack = 2 // a late server counts expirations from when it reads the request
	for _, x := range faultPrep {
		if use == "fresh" {
			if x.K != "set" {
				continue
			}
			x.K = "xset"
		}
		o.step(x)
		if use == "idle" {
			vsched.Sleep(int64(7 * time.Second))
		}
	}
	o.prepWide(op)
	limit := timeout
	l := o.w.Links[0]
	l.Plan = Plan{ReqCut: -1, RepCut: -1, Kind: kind}
	beat := timeout
	if timeout == 0 {
		beat = time.Second
	}
	l.Plan.Lag, l.Plan.Every = beat*3/2, beat*2/5
	if kind == "lagging" {
		l.Plan.Lag = beat * 3 / 5
	}
	if side == "req" {
		l.Plan.ReqCut = l.Sent + at
	} else {
		l.Plan.RepCut = l.Recv + at
	}
	r0 := l.Recv
	y := &maybe{o: o, s: []*Model{o.m}}
	out := y.do(op, false, limit)
	cx.Trans(1)
	if out.Err != "error" && l.Recv-r0 < rep-2 {
		fail("%v returned %v after %d of the %d bytes of its reply", op, out, l.Recv-r0, rep)
	}
	// a connection that only was late is used again at once, and later
	y.later(limit)
	vsched.Sleep(int64(2 * beat))
	y.later(limit)
	vsched.Sleep(int64(200 * beat))
	if !l.fired {
		fail("harness: the fault did not strike")
	}
	for i := 0; i < down; i++ {
		o.w.Down[addr1] = true
		if err := o.s.Reconnect(); err == nil {
			fail("Reconnect to a stopped server succeeded")
		}
		y.later(limit)
	}
	o.w.Down[addr1] = false
	if err := o.s.Reconnect(); err != nil {
		fail("Reconnect to a running server failed: %v", err)
	}
	if again != nil {
		again(y)
	}
	y.settled(faultKeys)
	for _, x := range []Op{{K: "get", Key: "b"}, {K: "set", Key: "d", Val: "dd"}, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"d", "b", "none"}}, {K: "incr", Key: "n", Delta: 2}, {K: "version"}, {K: "delete", Key: "d"}} {
		y.do(x, true, limit)
		cx.Trans(1)
		if use == "idle" {
			vsched.Sleep(int64(7 * time.Second))
		}
	}
	y.settled(faultKeys)
	if n := o.w.Open(); len(n) != 1 {
		fail("open connections after Reconnect: %v", n)
	}
	o.m = y.s[0]
	o.settleLast(faultKeys)
	cx.State(fmt.Sprintf("%s%v%s%d%s", p, op, kind, at, o.st.Dump()))
}

// holeCase: the host vanishes, is dialled, and is back after lift.
func holeCase(p string, op Op, timeout, lift time.Duration) {
	o := newOne(p, timeout)
	for _, x := range faultPrep {
		o.step(x)
	}
	expSlack = int64(2 * (timeout + lift) / time.Second) // items expire meanwhile
	o.w.Vanish(addr1)
	y := &maybe{o: o, s: []*Model{o.m}}
	if out := y.do(op, false, timeout); out.Err != "error" && !(op.K == "multi" && len(op.Keys) == 0) {
		fail("%v returned %v although the host does not answer", op, out)
	}
	if lift > 0 {
		vsched.AddTimer(int64(lift), func() { o.w.Hole[addr1] = false })
	}
	var err error
	took := int64(0)
	h := vsched.GoNamed("reconnect", func() {
		t0 := vsched.Now()
		err = o.s.Reconnect()
		took = vsched.Now() - t0
	})
	out := y.do(Op{K: "get", Key: "b"}, false, 2*timeout)
	h.Join()
	if took > int64(timeout) {
		fail("Reconnect returned after %v although the timeout is %v", time.Duration(took), timeout)
	}
	if err == nil && (lift == 0 || lift > timeout) {
		fail("Reconnect to a host that does not answer succeeded")
	}
	if err != nil && out.Err != "error" {
		fail("Get returned %v without a connection", out)
	}
	o.w.Hole[addr1] = false
	if err := o.s.Reconnect(); err != nil {
		fail("Reconnect to a running server failed: %v", err)
	}
	cx.Trans(1)
	for _, x := range []Op{{K: "get", Key: "b"}, {K: "set", Key: "d", Val: "dd"}, {K: "multi", Keys: []string{"d", "b", "none"}}, {K: "version"}, {K: "delete", Key: "d"}} {
		y.do(x, true, timeout)
		cx.Trans(1)
	}
	y.settled([]string{"b", "d"})
	if n := o.w.Open(); len(n) != 1 {
		fail("open connections after Reconnect: %v", n)
	}
}
