package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/vctx"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func init() {
	register("C09", c09, "one case = protocol x heartbeat mode x a sequence of operations, Close, Reconnect and server outages, run by one goroutine or by 2-3 goroutines under every schedule within the preemption bound; connections and goroutines are counted at the end")
	register("C10", c10, "one case = protocol x a sequence of events at the server (restart, outage, silence, return) at every phase of the heartbeat interval, or one byte of the heartbeat exchange at which the connection fails; the client must recover by itself, or close itself when auto-reconnect is off, in time")
}

var hbModes = []struct {
	name string
	opts []client.ServerOpt
}{
	{"plain", nil},
	{"hb", []client.ServerOpt{client.EnableHeartbeat}},
	{"auto", []client.ServerOpt{client.EnableHeartbeat, client.EnableAutoReconnect}},
	{"onlyauto", []client.ServerOpt{client.EnableAutoReconnect}},
}

func newLife(p string, timeout time.Duration, opts []client.ServerOpt) *one {
	o := &one{w: NewWorld(addr1)}
	o.hb = len(opts) == 1 // closes itself when the connection is lost
	expSlack = 2
	o.st = o.w.Stores[addr1]
	o.s = MustConnect(p, "s1", addr1, timeout, opts...)
	o.r = NewRunner(o.s)
	o.m = NewModel(p)
	o.st.Put("a", []byte("5"), 7, 0)
	o.m.put("a", "5", 7, 0)
	return o
}

// act is one step of a life: an operation or a change of the connection.
func (o *one) act(y *maybe, a string, closed *bool) {
	switch a {
	case "get":
		out := y.do(Op{K: "get", Key: "a"}, false, 3*time.Second)
		if *closed && out.Err == "" {
			fail("a Get after Close succeeded")
		}
	case "set":
		out := y.do(Op{K: "set", Key: "b", Val: "x"}, false, 3*time.Second)
		if *closed && out.Err == "" {
			fail("a Set after Close succeeded")
		}
	case "incr":
		y.do(Op{K: "incr", Key: "a", Delta: 1}, false, 3*time.Second)
	case "version":
		y.do(Op{K: "version"}, false, 3*time.Second)
	case "close":
		o.s.Close()
		*closed = true
	case "reconnect":
		t0 := vsched.Now()
		err := o.s.Reconnect()
		if d := vsched.Now() - t0; d > int64(3*time.Second) { // others, one of the heartbeat's, may go first
			fail("Reconnect took %v", time.Duration(d))
		}
		if *closed && err == nil {
			fail("Reconnect after Close succeeded")
		}
		if !*closed && err != nil && !o.w.Down[addr1] && !o.w.Hole[addr1] && !(o.hb && o.lost) {
			fail("Reconnect to a running server failed: %v", err)
		}
	case "down":
		o.w.Restart(addr1)
		o.w.Down[addr1] = true
		o.lost = true
	case "hole":
		o.w.Vanish(addr1)
		o.lost = true
	case "up":
		o.w.Down[addr1], o.w.Hole[addr1] = false, false
	case "wait":
		vsched.Sleep(int64(1200 * time.Millisecond))
	}
}

// over checks what is left after the last step of a life.
func (o *one) over(closed, anyClose bool) {
	vsched.Sleep(int64(7 * time.Second))
	vsched.Idle()
	n := o.w.Open()
	if closed {
		if len(n) > 0 {
			fail("connections left open after Close: %v (of %d dialled)", n, o.w.Dials)
		}
		if d := vsched.Daemons(); d > 0 {
			fail("%d goroutines left after Close", d)
		}
	}
	if len(n) > 1 {
		fail("more than one connection is open: %v", n)
	}
	if b := o.w.Bad(); len(b) > 0 {
		fail("the server was sent a malformed request: %s", b[0])
	}
}

func c09(c *Ctx) {
	acts := []string{"get", "set", "close", "reconnect", "down", "up", "wait", "hole"}
	for _, p := range protos {
		p := p
		for _, hb := range hbModes {
			hb := hb
			depth := c.Pick(4, 6)
			idx := make([]int, depth)
			for {
				name := ""
				seq := make([]string, depth)
				for i, k := range idx {
					name += acts[k] + "."
					seq[i] = acts[k]
				}
				c.Case(fmt.Sprintf("seq/%s/%s/%s", p, hb.name, name), CaseOpt{Delay: true, Bound: 1}, func() {
					o := newLife(p, time.Second, hb.opts)
					y := &maybe{o: o, s: []*Model{o.m}}
					closed := false
					for _, a := range seq {
						before := o.w.Dials
						o.act(y, a, &closed)
						cx.Trans(1)
						if a == "reconnect" && (hb.name == "plain" || hb.name == "onlyauto") {
							if d := o.w.Dials - before; d != 1 && !closed && !o.w.Hole[addr1] {
								fail("Reconnect dialled %d times", d)
							}
							if n := o.w.Open(); len(n) > 1 {
								fail("Reconnect left the old connection open: %v", n)
							}
						}
						if closed {
							if n := o.w.Open(); len(n) > 0 {
								fail("open connections after Close: %v", n)
							}
						}
						cx.State(fmt.Sprintf("%s%s%v%v%v%d", p, hb.name, closed, o.w.Down[addr1], o.w.Open(), vsched.Daemons()))
					}
					o.over(closed, closed)
				})
				i := depth - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < len(acts) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
		// two and three goroutines
		progs := [][]string{{"close"}, {"get"}, {"set"}, {"incr"}, {"reconnect"}, {"version"}, {"close", "close"}, {"get", "get"}, {"reconnect", "get"}, {"close", "reconnect"}, {"restart", "reconnect"}, {"restart", "get"}, {"down", "reconnect", "up", "reconnect"}, {"hole", "reconnect"}, {"hole", "get", "up", "reconnect"}}
		run := func(group string, hb int, opt CaseOpt, ps [][]string, timeout time.Duration) {
			name := ""
			for _, x := range ps {
				name += fmt.Sprint(x)
			}
			c.Case(fmt.Sprintf("%s/%s/%s/%s", group, p, hbModes[hb].name, name), opt, func() { lifeThreads(p, timeout, hbModes[hb].opts, ps) })
		}
		for hb := range hbModes {
			for i := range progs {
				for j := i; j < len(progs); j++ {
					opt := CaseOpt{Preempt: true, Race: true, Bound: c.Pick(2, 3), HoldBound: c.Pick(1, 2), MaxExecs: c.Pick(20000, 60000)}
					if hb == 1 || hb == 2 {
						opt.TimeAlt = true
						opt.Bound = c.Pick(1, 2)
					} else if hb == 3 {
						continue
					}
					if !c.Thorough() && (len(progs[i])+len(progs[j]) > 3 || j >= 13) {
						opt.Bound = 1
					}
					if !c.Thorough() && j >= 13 && hb == 1 {
						continue
					}
					run("two", hb, opt, [][]string{progs[i], progs[j]}, time.Second)
					if !c.Thorough() && (len(progs[i])+len(progs[j]) > 3 || j >= 13 || hb != 0 && (i+j)%2 == 1) {
						continue
					}
					opt.Stmts, opt.Bound, opt.Race = true, 1, false
					if c.Thorough() && hb == 0 {
						opt.Bound = 2
					}
					run("stmt", hb, opt, [][]string{progs[i], progs[j]}, time.Second)
					for k := j; k < 6 && hb == 0; k++ {
						opt := CaseOpt{Preempt: true, Race: true, Bound: c.Pick(1, 2), HoldBound: c.Pick(1, 2), MaxExecs: c.Pick(20000, 60000)}
						run("three", hb, opt, [][]string{progs[i], progs[j], progs[k]}, time.Second)
					}
				}
			}
		}
		// Close while a Reconnect waits for a host that does not answer
		for hb := range hbModes {
			for _, timeout := range []time.Duration{0, time.Second, time.Hour} {
				for _, with := range []string{"", "get", "reconnect", "set"} {
					for _, when := range []int64{0, 1, 500, 999, 2500} {
						if (hb == 1 || hb == 2) && timeout != time.Second {
							continue // the heartbeat itself waits for ever
						}
						hb, timeout, with, when := hb, timeout, with, when
						c.Case(fmt.Sprintf("hole/%s/%s/%s/%s/%d", p, hbModes[hb].name, timeout, with, when), CaseOpt{Preempt: true, Race: true, Bound: 1, MaxExecs: 2000}, func() {
							o := newLife(p, timeout, hbModes[hb].opts)
							o.w.Vanish(addr1)
							errs := []error{errors.New("x"), errors.New("x")}
							h := vsched.GoNamed("caller", func() { errs[0] = o.s.Reconnect() })
							h2 := vsched.GoNamed("caller2", func() {
								switch with {
								case "get":
									_, errs[1] = o.s.Get("a")
								case "reconnect":
									errs[1] = o.s.Reconnect()
								case "set":
									errs[1] = o.s.Set(&client.Item{Key: "b", Value: []byte("x")})
								}
							})
							vsched.Sleep(when * 1e6)
							t0 := vsched.Now()
							_ = o.s.Close()
							h.Join()
							h2.Join()
							if d := vsched.Now() - t0; d > int64(10*time.Millisecond) {
								fail("calls under way returned %v after Close", time.Duration(d))
							}
							if errs[0] == nil || errs[1] == nil {
								fail("a call succeeded although the host does not answer: %v", errs)
							}
							vsched.Idle()
							if n := o.w.Open(); len(n) > 0 {
								fail("open connections after Close: %v", n)
							}
							o.over(true, true)
						})
					}
				}
			}
		}
		// a host that does not answer the first dial
		for hb := range hbModes {
			for how := 0; how < 5; how++ {
				hb, how := hb, how
				c.Case(fmt.Sprintf("dial/%s/%s/%d", p, hbModes[hb].name, how), CaseOpt{Preempt: true, Bound: 1, MaxExecs: 2000}, func() { firstDial(p, hbModes[hb].opts, how) })
			}
		}
		// Close while an operation waits for a silent server without a timeout
		for oi, op := range faultOps {
			op := op
			req, rep := c.sizes(p, op)
			for _, side := range []string{"req", "rep"} {
				n := rep
				if side == "req" {
					n = req
				}
				for _, at := range cuts(n-1, false) {
					if !c.Thorough() && at > 3 && at%5 != 0 {
						continue
					}
					if side == "req" && at == 0 {
						continue
					}
					for _, how := range []string{"close", "wclose"} {
						if how == "wclose" && side == "rep" {
							continue
						}
						side, at, how := side, at, how
						c.Case(fmt.Sprintf("waiting/%s/%d/%s%d/%s", p, oi, side, at, how), CaseOpt{Preempt: true, Race: true, Bound: 0}, func() {
							o := newOne(p, 0)
							for _, x := range faultPrep {
								o.step(x)
							}
							l := o.w.Links[0]
							l.Plan = Plan{ReqCut: -1, RepCut: -1, Kind: "stall"}
							if how == "wclose" {
								l.Plan.Kind = "wstall"
							}
							if side == "req" {
								l.Plan.ReqCut = l.Sent + at
							} else {
								l.Plan.RepCut = l.Recv + at
							}
							var out Out
							h := vsched.GoNamed("caller", func() { out = o.r.Do(op) })
							h2 := vsched.GoNamed("caller2", func() { o.r.KV.Get("b") })
							vsched.Idle()
							if err := o.s.Close(); err != nil {
								fail("Close while an operation is under way failed: %v", err)
							}
							h.Join()
							h2.Join()
							if out.Err != "error" {
								fail("%v returned %v although the server never answered", op, out)
							}
							if n := o.w.Open(); len(n) > 0 {
								fail("open connections after Close: %v", n)
							}
						})
					}
				}
			}
		}
	}
}

func lifeThreads(p string, timeout time.Duration, opts []client.ServerOpt, ps [][]string) {
	o := newLife(p, timeout, opts)
	closed := false
	anyClose := false
	var hs []*vsched.Handle
	incrs := 0
	for ti, prog := range ps {
		ti, prog := ti, prog
		hs = append(hs, vsched.GoNamed(fmt.Sprintf("caller%d", ti), func() {
			for _, a := range prog {
				was := closed
				var err error
				switch a {
				case "get":
					var it *client.Item
					it, err = o.s.Get("a")
					if err == nil && (it.Key != "a" || len(it.Value) == 0 || it.Value[0] < '5' || it.Value[0] > '8') {
						fail("Get(a) returned %q=%q", it.Key, it.Value)
					}
					if err != nil && classify(err) == "notfound" {
						fail("Get(a) returned %v for a present item", err)
					}
				case "set":
					err = o.s.Set(&client.Item{Key: "b", Value: []byte("x")})
				case "incr":
					var n int64
					incrs++
					n, err = o.s.Increment("a", 1, 0)
					if err == nil && (n < 6 || n > 5+int64(incrs)) {
						fail("Increment(a) returned %d", n)
					}
				case "version":
					_, err = o.s.Version()
				case "close":
					anyClose = true
					_ = o.s.Close()
					closed = true
					continue
				case "reconnect":
					err = o.s.Reconnect()
				case "down":
					o.w.Restart(addr1)
					o.w.Down[addr1] = true
					continue
				case "hole":
					o.w.Vanish(addr1)
					continue
				case "up":
					o.w.Down[addr1], o.w.Hole[addr1] = false, false
					continue
				case "restart":
					o.w.Restart(addr1)
					continue
				}
				vsched.Observe("%d:%s=%v", ti, a, err != nil)
				if was && err == nil {
					fail("%s after Close succeeded", a)
				}
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	o.over(closed, anyClose)
	vsched.Calm()
	o.w.Hole[addr1] = false
	if len(opts) == 2 { // a beat that timed out just now, or begins only now, still has to reconnect
		vsched.Sleep(int64(2500 * time.Millisecond))
		vsched.Idle()
	}
	// the client is usable unless it was closed
	if !closed && (len(opts) == 0 || len(opts) == 2) {
		if len(opts) == 0 {
			if err := o.s.Reconnect(); err != nil {
				fail("Reconnect to a running server failed: %v", err)
			}
		}
		if n := o.w.Open(); len(n) != 1 {
			fail("open connections: %v", n)
		}
		o.probe()
	}
	if closed {
		if err := o.s.Set(&client.Item{Key: "b", Value: []byte("x")}); err == nil {
			fail("a Set after Close succeeded")
		}
		if err := o.s.Reconnect(); err == nil {
			fail("Reconnect after Close succeeded")
		}
		if n := o.w.Open(); len(n) > 0 {
			fail("open connections after Close and Reconnect: %v", n)
		}
	}
}

func c10(c *Ctx) {
	events := []string{"none", "restart", "down", "up", "silent", "get", "hole"}
	const iv = int64(time.Second)
	for _, p := range protos {
		p := p
		// heartbeats of any interval, and options in any order
		for _, every := range []time.Duration{10 * time.Millisecond, 333 * time.Millisecond, time.Second, 1500 * time.Millisecond, 5 * time.Second, time.Minute, time.Hour} {
			own := func(o *client.ServerOption) { o.HeartbeatInterval = every }
			for oi, opts := range [][]client.ServerOpt{{own}, {own, client.EnableAutoReconnect}, {client.EnableAutoReconnect, own}, {client.EnableHeartbeat, own, client.EnableAutoReconnect}, {client.EnableAutoReconnect, client.EnableHeartbeat, own}} {
				for _, kind := range []string{"restart", "down", "silent", "hole", "none"} {
					every, oi, opts, kind := every, oi, opts, kind
					c.Case(fmt.Sprintf("interval/%s/%s/%d/%s", p, every, oi, kind), CaseOpt{Delay: true, Horizon: 400 * time.Hour, MaxSteps: 4000000}, func() { interval(p, every, oi > 0, opts, kind) })
				}
			}
		}
		for _, hb := range hbModes[1:3] {
			hb := hb
			for _, phase := range []int64{iv / 2, iv, iv + 1, iv / 10 * 9} {
				phase := phase
				depth := c.Pick(4, 5)
				idx := make([]int, depth)
				for {
					seq := make([]string, depth)
					name := ""
					for i, k := range idx {
						seq[i] = events[k]
						name += events[k] + "."
					}
					c.Case(fmt.Sprintf("outage/%s/%s/%d/%s", p, hb.name, phase/1e6, name), CaseOpt{Delay: true, Bound: 1}, func() { outage(p, hb.name, hb.opts, phase, seq) })
					i := depth - 1
					for ; i >= 0; i-- {
						idx[i]++
						if idx[i] < len(events) {
							break
						}
						idx[i] = 0
					}
					if i < 0 {
						break
					}
				}
			}
			// every byte of the heartbeat exchange
			req, rep := c.sizes(p, Op{K: "version"})
			for _, kind := range []string{"eof", "rst", "stall", "wstall", "late", "trickle"} {
				for _, side := range []string{"req", "rep"} {
					n := rep
					if side == "req" {
						n = req
					}
					for at := 0; at <= n; at++ {
						for _, refuse := range []int{0, 1, 3, 12} {
							if side == "req" && at == 0 || at == n && (kind == "late" || kind == "trickle") ||
								kind == "wstall" && (side == "rep" || at == n) || kind == "trickle" && (side == "req" || n-at < 3) {
								continue
							}
							kind, side, at, refuse := kind, side, at, refuse
							c.Case(fmt.Sprintf("beat/%s/%s/%s/%s%d/%d", p, hb.name, kind, side, at, refuse), CaseOpt{Delay: true, Bound: 1}, func() {
								o := newLife(p, time.Second, hb.opts)
								l := o.w.Links[0]
								l.Plan = Plan{ReqCut: -1, RepCut: -1, Kind: kind}
								if side == "req" {
									l.Plan.ReqCut = l.Sent + at
								} else {
									l.Plan.RepCut = l.Recv + at
								}
								left := refuse
								o.w.DialGap = func(string) {
									o.w.Down[addr1] = left > 0
									left--
								}
								vsched.Sleep(iv + 2*iv + int64(refuse)*iv + iv/2)
								recovered(o, hb.name, true, l)
							})
						}
					}
				}
			}
			// outages of many beats, and a long life
			for _, n := range []int{5, 10, 11, 16, 20, 33, 60, 64, 100, 130, 260, 1030, 4000} {
				n := n
				for _, kind := range []string{"down", "silent", "fine", "hole"} {
					kind := kind
					if hb.name != "auto" && kind != "fine" {
						continue
					}
					c.Case(fmt.Sprintf("long/%s/%s/%s/%d", p, hb.name, kind, n), CaseOpt{Delay: true, Horizon: 6 * time.Hour, MaxSteps: 4000000}, func() {
						o := newLife(p, time.Second, hb.opts)
						vsched.Sleep(iv / 2)
						last := o.w.Links[0]
						if kind != "fine" {
							o.w.Restart(addr1)
						}
						if kind == "down" {
							o.w.Down[addr1] = true
						}
						if kind == "hole" {
							o.w.Vanish(addr1)
						}
						if kind == "silent" { // accepts connections and never answers
							o.w.NewLink = func(l *Link) { l.Plan.Kind, l.dead = "stall", true }
						}
						vsched.Sleep(int64(n) * iv)
						cx.Trans(n)
						if kind == "fine" {
							if o.w.Dials != 1 {
								fail("the heartbeat dialled %d times although nothing failed", o.w.Dials-1)
							}
							o.step(Op{K: "get", Key: "a"})
							if n := o.w.Open(); len(n) != 1 {
								fail("open connections: %v", n)
							}
							return
						}
						o.w.Down[addr1], o.w.Hole[addr1], o.w.NewLink = false, false, nil
						vsched.Sleep(int64(3300*time.Millisecond) + 1)
						recovered(o, hb.name, true, last)
					})
				}
			}
			// operations at the moment of the beat
			for i, op := range faultOps {
				op := op
				if op.K == "flush" {
					continue
				}
				for _, n := range []int{1, 2} {
					n := n
					c.Case(fmt.Sprintf("busy/%s/%s/%d/%d", p, hb.name, i, n), CaseOpt{Preempt: true, Race: true, TimeAlt: true, Bound: c.Pick(2, 3), MaxExecs: c.Pick(3000, 40000)}, func() {
						o := newLife(p, 0, hb.opts) // no deadline that could pass meanwhile
						expSlack = 6                // every early beat is a second
						for _, x := range faultPrep[1:3] {
							o.step(x)
						}
						vsched.Sleep(iv - 1)
						for j := 0; j < n; j++ {
							o.step(op)
						}
						vsched.Sleep(iv)
						o.step(Op{K: "get", Key: "b"})
						if d := storeDiff(o.st, o.m, faultKeys); d != "" {
							fail("%s", d)
						}
						if o.w.Dials != 1 {
							fail("the heartbeat dialled %d times although nothing failed", o.w.Dials-1)
						}
						vsched.Observe("%s", o.st.Dump())
						if err := o.s.Close(); err != nil {
							fail("Close failed: %v", err)
						}
						o.over(true, true)
					})
				}
			}
		}
	}
}

// outage lets the events happen one interval apart and then wants the client
// to have recovered, or to have closed itself.
func outage(p, mode string, opts []client.ServerOpt, phase int64, seq []string) {
	o := newLife(p, 300*time.Millisecond, opts)
	vsched.Sleep(phase)
	broke := false
	y := &maybe{o: o, s: []*Model{o.m}}
	last := o.w.Links[0]
	for _, e := range seq {
		switch e {
		case "restart":
			o.w.Restart(addr1)
			broke = true
		case "down":
			o.w.Restart(addr1)
			o.w.Down[addr1] = true
			broke = true
		case "hole":
			o.w.Vanish(addr1)
			broke = true
		case "up":
			o.w.Down[addr1], o.w.Hole[addr1] = false, false
		case "silent":
			for _, l := range o.w.Links {
				if !l.dead && !l.C.Closed() {
					l.Plan.Kind = "stall"
					l.dead = true
				}
			}
			broke = true
		case "get":
			limit := 300 * time.Millisecond
			if o.w.Hole[addr1] {
				limit *= 2 // a Reconnect may be under way
			}
			y.do(Op{K: "get", Key: "a"}, false, limit)
		}
		cx.Trans(1)
		vsched.Sleep(int64(time.Second))
	}
	o.w.Down[addr1], o.w.Hole[addr1] = false, false
	vsched.Sleep(int64(2300*time.Millisecond) + 1)
	cx.State(fmt.Sprintf("%s%s%v%d", p, mode, o.w.Open(), o.w.Dials))
	recovered(o, mode, broke, last)
}

func recovered(o *one, mode string, broke bool, first *Link) {
	if mode == "auto" {
		if n := o.w.Open(); len(n) != 1 {
			fail("auto-reconnect: open connections after the outage: %v (%d dials)", n, o.w.Dials)
		}
		o.step(Op{K: "get", Key: "a"})
		o.step(Op{K: "set", Key: "b", Val: "y"})
		o.probe()
		dials := o.w.Dials
		vsched.Sleep(int64(5 * time.Second))
		if o.w.Dials != dials {
			fail("the heartbeat goes on dialling although the connection is fine")
		}
		// and again
		o.w.Restart(addr1)
		vsched.Sleep(int64(2500 * time.Millisecond))
		o.step(Op{K: "get", Key: "a"})
	} else if broke {
		if n := o.w.Open(); len(n) != 0 {
			fail("the heartbeat left the failed connection open: %v", n)
		}
		if _, err := o.s.Get("a"); err == nil {
			fail("an operation succeeded on a closed client")
		}
		if d := vsched.Daemons(); d > 0 {
			fail("the heartbeat goroutine goes on after it closed the connection")
		}
		return
	} else {
		o.step(Op{K: "get", Key: "a"})
		if o.w.Dials != 1 {
			fail("the client dialled although nothing failed")
		}
	}
	if err := o.s.Close(); err != nil {
		fail("Close failed: %v", err)
	}
	dials := o.w.Dials
	o.over(true, true)
	if o.w.Dials != dials {
		fail("the heartbeat dials after Close")
	}
}

// firstDial makes a client whose context ends while the host does not answer,
// or ends later, when it must not matter.
func firstDial(p string, opts []client.ServerOpt, how int) {
	w := NewWorld(addr1)
	ctx, cancel := vctx.WithCancel(context.Background())
	if how == 1 || how == 3 {
		ctx, cancel = vctx.WithTimeout(context.Background(), 300*time.Millisecond)
	}
	t0 := vsched.Now()
	switch how {
	case 0: // cancelled before
		cancel()
	case 1, 2: // while dialling
		w.Hole[addr1] = true
		if how == 2 {
			vsched.Spawn(func() {
				vsched.Sleep(300 * 1e6)
				cancel()
			})
		}
	}
	s, err := connectCtx(ctx, p, "s1", addr1, time.Second, opts...)
	if how < 3 {
		if err == nil {
			fail("a client was made although its context has ended")
		}
		if d := vsched.Now() - t0; d > 300*1e6 {
			fail("the client was made for %v although its context has ended", time.Duration(d))
		}
		vsched.Sleep(3 * 1e9)
		if n := w.Open(); len(n) > 0 {
			fail("connections left open: %v", n)
		}
		if d := vsched.Daemons(); d > 0 {
			fail("%d goroutines left", d)
		}
		return
	}
	if err != nil {
		fail("connecting to a running server failed: %v", err)
	}
	vsched.Sleep(400 * 1e6)
	cancel()
	o := &one{w: w, st: w.Stores[addr1], s: s, r: NewRunner(s), m: NewModel(p)}
	for i := 0; i < 3; i++ {
		o.step(Op{K: "set", Key: "a", Val: "1"})
		o.step(Op{K: "get", Key: "a"})
		vsched.Sleep(1200 * 1e6)
		w.Restart(addr1)
		if len(opts) != 2 {
			if err := s.Reconnect(); err != nil && len(opts) == 0 {
				fail("Reconnect to a running server failed: %v", err)
			} else if err != nil {
				return // the heartbeat closed it
			}
		}
		vsched.Sleep(2500 * 1e6)
	}
	_ = s.Close()
	o.over(true, true)
}

func interval(p string, every time.Duration, auto bool, opts []client.ServerOpt, kind string) {
	timeout := every / 4
	o := newLife(p, timeout, opts)
	expSlack = 1 << 40
	other := MustConnect(p, "s1", addr1, timeout) // a client without a heartbeat
	vsched.Sleep(int64(every)*3 + int64(every/2))
	o.step(Op{K: "get", Key: "a"})
	if o.w.Dials != 2 {
		fail("the heartbeat dialled %d times although nothing failed", o.w.Dials-2)
	}
	// at most and at least one request in every interval
	before := o.w.Links[0].Sent
	vsched.Sleep(int64(every) * 10)
	if o.w.Links[0].Sent == before {
		fail("no heartbeat in ten intervals of %v", every)
	}
	if o.w.Links[1].Sent != 0 {
		fail("a client without heartbeat sent something by itself")
	}
	cx.Trans(1)
	switch kind {
	case "none":
	case "down":
		o.w.Restart(addr1)
		o.w.Down[addr1] = true
	case "restart":
		o.w.Restart(addr1)
	case "silent":
		for _, l := range o.w.Links {
			l.Plan.Kind, l.dead = "stall", true
		}
	case "hole":
		o.w.Vanish(addr1)
	}
	vsched.Sleep(int64(every)*2 + int64(timeout) + 1)
	o.w.Down[addr1], o.w.Hole[addr1] = false, false
	if auto {
		vsched.Sleep(int64(every)*2 + int64(timeout) + 1)
		o.step(Op{K: "get", Key: "a"})
		o.step(Op{K: "set", Key: "b", Val: "y"})
	} else if kind != "none" {
		if n := o.w.Open(); len(n) != 1 {
			fail("open connections: %v", n)
		}
		if _, err := o.s.Get("a"); err == nil {
			fail("an operation succeeded on a closed client")
		}
	} else {
		o.step(Op{K: "get", Key: "a"})
	}
	if err := o.s.Close(); err != nil && (auto || kind == "none") {
		fail("Close failed: %v", err)
	}
	if err := other.Close(); err != nil {
		fail("Close failed: %v", err)
	}
	vsched.Sleep(int64(every) * 3)
	o.over(true, true)
}
