package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.f110.dev/go-memcached/internal/zverif/fmc"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func init() {
	register("C03", c03, "one case = one operation that the server answers with one error reply of its protocol (every status/line), at every position of a short history, followed by every other operation; success may be reported only when the server acknowledged, and the connection must stay in step",
		"error replies are those of the memcached protocols: ERROR, CLIENT_ERROR and SERVER_ERROR lines, and every defined binary status with and without a message")
	register("C05", c05, "one case = one multi-get over a key list (presence pattern x order x duplicates x value shapes) per protocol and pool; the result is compared with the set of stored items")
	register("C07", c07, "one case = one history whose replies are cut into TCP segments at one pattern (every single cut, every pair of cuts, every fixed segment size); outcomes must equal those of the uncut run")
}

type errReply struct {
	name   string
	ascii  string
	status uint16
	body   string
}

var errReplies = []errReply{
	{"error", "ERROR\r\n", 0x81, "Unknown command"},
	{"client", "CLIENT_ERROR bad command line format\r\n", 4, "Invalid arguments"},
	{"oom", "SERVER_ERROR out of memory storing object\r\n", 0x82, "Out of memory"},
	{"temp", "SERVER_ERROR temporary failure\r\n", 0x86, "Temporary failure"},
	{"bare", "SERVER_ERROR\r\n", 0x84, ""},
	{"large", "SERVER_ERROR object too large for cache\r\n", 3, "Too large."},
	{"busy", "SERVER_ERROR busy\r\n", 0x85, ""},
	{"auth", "CLIENT_ERROR unauthenticated\r\n", 0x20, "Auth failure."},
	{"undefined", "SERVER_ERROR x\r\n", 0x7777, strings.Repeat("long message ", 20)},
	{"notstored", "SERVER_ERROR no store\r\n", 5, "Not stored."},
	{"bit3", "SERVER_ERROR STORED\r\n", 1 << 3, ""},
	{"bit4", "CLIENT_ERROR END\r\n", 1 << 4, ""},
	{"bit5", "SERVER_ERROR HD\r\n", 1 << 5, ""},
	{"bit6", "SERVER_ERROR DELETED\r\n", 1 << 6, "Deleted"},
	{"bit7", "CLIENT_ERROR NOT_FOUND\r\n", 1 << 7, "Not found"},
	{"bit8", "SERVER_ERROR VALUE a 0 1\r\n", 1 << 8, ""},
	{"bit9", "SERVER_ERROR VA 1 f0 s1\r\n", 1 << 9, "Stored"},
	{"bit10", "SERVER_ERROR TOUCHED OK\r\n", 1 << 10, ""},
	{"bit11", "CLIENT_ERROR 42\r\n", 1 << 11, "42"},
	{"bit12", "SERVER_ERROR NOT_STORED\r\n", 1 << 12, ""},
	{"bit13", "SERVER_ERROR EXISTS NS EX NF EN MN\r\n", 1 << 13, ""},
	{"bit14", "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n", 1 << 14, strings.Repeat("m", 5000)},
	{"bit15", "SERVER_ERROR " + strings.Repeat("a long message ", 150) + "\r\n", 1 << 15, ""},
	{"long4095", "SERVER_ERROR " + strings.Repeat("l", 4095-13-2) + "\r\n", 0x83, ""},
	{"long4096", "SERVER_ERROR " + strings.Repeat("l", 4096-13-2) + "\r\n", 0x83, strings.Repeat("l", 4096-24)},
	{"long4097", "SERVER_ERROR " + strings.Repeat("l", 4097-13-2) + "\r\n", 0x83, strings.Repeat("l", 4097-24)},
	{"long9000", "CLIENT_ERROR " + strings.Repeat("END ", 2250) + "\r\n", 0x83, strings.Repeat("l", 9000)},
	{"long70000", "ERROR " + strings.Repeat("VALUE a 0 1 ", 5900) + "\r\n", 0x83, strings.Repeat("l", 70000)},
	{"high", "ERROR out of order\r\n", 0xff00, "x"},
	{"high1", "SERVER_ERROR VERSION 1.6.21\r\n", 0x0101, ""},
}

func (e errReply) bytes(r *fmc.Req) []byte {
	if r.Binary {
		return fmc.BinReply(r.Op, e.status, r.Opaque, 0, nil, nil, []byte(e.body))
	}
	return []byte(e.ascii)
}

func allOps(key string) []Op {
	return []Op{
		{K: "get", Key: key}, {K: "multi", Keys: []string{key, "b", "zz"}}, {K: "set", Key: key, Val: "5"}, {K: "cas", Key: key, Val: "6"},
		{K: "add", Key: key, Val: "7"}, {K: "replace", Key: key, Val: "8", Flags: []byte{0, 0, 0, 8}}, {K: "delete", Key: key},
		{K: "incr", Key: key, Delta: 2}, {K: "decr", Key: key, Delta: 1}, {K: "touch", Key: key, Exp: 30}, {K: "flush"}, {K: "version"},
	}
}

// nearly returns lines that a byte separates from the one that acknowledges op.
func nearly(p string, op Op) (lines []string) {
	if p == "binary" {
		return nil
	}
	var ack string
	switch op.K {
	case "set", "cas", "add", "replace":
		ack = "STORED"
	case "delete":
		ack = "DELETED"
	case "touch":
		ack = "TOUCHED"
	case "flush":
		ack = "OK"
	case "version":
		ack = "VERSION"
	case "get", "multi":
		ack = "VALUE a 0 1"
	case "incr", "decr":
		ack = "5"
	}
	tail := ""
	if p == "meta" {
		switch op.K {
		case "flush", "version":
		case "get", "multi", "incr", "decr":
			ack, tail = "VA", " 1"
		default:
			ack = "HD"
		}
	}
	word := ack
	if i := strings.Index(ack, " "); i > 0 {
		word, tail = ack[:i], ack[i:]
	}
	if op.K == "version" {
		tail = " 1.6.21"
	}
	for i := range word {
		lines = append(lines, word[:i]+word[i+1:]+tail)
		for _, ch := range []byte{'?', 'z', word[i] ^ 0x80, word[i] ^ 1, 0} {
			if w := word[:i] + string([]byte{ch}) + word[i+1:]; w != "4" {
				lines = append(lines, w+tail)
			}
		}
	}
	if p == "text" || op.K == "flush" || op.K == "add" || op.K == "replace" {
		// lines that only begin like one of the protocol
		switch ack := map[bool]string{true: "STORED"}[op.K == "add" || op.K == "replace"]; {
		case ack != "":
			lines = append(lines, ack+"?", ack+" ", ack+"\x00", ack+ack, " "+ack)
		case op.K == "get" || op.K == "multi":
			for _, e := range []string{"END", "end"} {
				lines = append(lines, e+"?", e+"x", e+" ", e+" 1", e+"\x00", e+"END", " "+e, "S"+e)
			}
		case in([]string{"set", "cas", "delete", "touch", "flush"}, op.K):
			lines = append(lines, word+"?", word+" ", word+"\x00", word+word, " "+word, word+" 1")
		}
	}
	return append(lines, "", "?")
}

func c03(c *Ctx) {
	ops := allOps("a")
	for _, p := range protos {
		p := p
		for _, prep := range [][]Op{nil, {{K: "set", Key: "a", Val: "3"}, {K: "get", Key: "a"}}, {{K: "set", Key: "a", Val: "x"}, {K: "set", Key: "b", Val: "10"}, {K: "get", Key: "a"}}} {
			for oi, op := range ops {
				if op.K == "cas" && prep == nil {
					continue
				}
				kn := 1
				if op.K == "multi" {
					kn = 3
				}
				for ei := range errReplies {
					e := errReplies[ei]
					for at := 0; at < kn; at++ {
						follow := ops
						if c.Thorough() {
							follow = append(append([]Op(nil), ops...), Op{K: "multi", Keys: []string{"a"}}, Op{K: "get", Key: "b"})
						}
						for fi, fo := range follow {
							prep, op, at, fo := prep, op, at, fo
							c.Plain(fmt.Sprintf("reply/%s/%d/%d/%s/%d/%d", p, len(prep), oi, e.name, at, fi), func() {
								o := newOne(p, time.Second)
								o.run(prep, []string{"a", "b"})
								n, hit := 0, false
								o.st.Hook = func(r *fmc.Req) ([]byte, bool) {
									if r.Key == "" && (r.Cmd == "mn" || strings.HasPrefix(strings.ToLower(r.Cmd), "noop")) {
										return nil, false
									}
									n++
									if n == at+1 {
										hit = true
										return e.bytes(r), true
									}
									return nil, false
								}
								before := *o.m
								out := o.r.Do(op)
								o.st.Hook = nil
								if hit {
									if out.Err == "" {
										fail("%v: the server answered %q (status %d), the caller was told %v", op, e.ascii, e.status, out)
									}
									if out.Err != "error" && !(p == "binary" && e.status == 5) {
										fail("%v: the server answered %q (status %#x), the caller was told %v", op, e.ascii, e.status, out)
									}
								}
								_ = before
								if hit && op.K == "multi" {
									// nothing changed
								}
								if d := storeDiff(o.st, o.m, []string{"a", "b"}); hit && d != "" {
									fail("%s", d)
								}
								if hit {
									o.run([]Op{fo, {K: "get", Key: "a"}}, []string{"a", "b"})
								}
							})
						}
					}
				}
			}
		}
		// an error in place of the reply that ends a list of replies
		for ei, e := range errReplies {
			for fi, fo := range ops {
				for gi, keys := range [][]string{{"a"}, {"a", "b"}, {"b", "a"}, {"none", "a"}} {
					if p == "text" || p == "meta" && gi == 3 {
						continue // no such reply; nothing tells it from that of a key
					}
					e, fo, keys := e, fo, keys
					c.Plain(fmt.Sprintf("noop/%s/%d/%d/%d", p, ei, fi, gi), func() {
						o := newOne(p, time.Second)
						o.run([]Op{{K: "set", Key: "a", Val: "3"}, {K: "set", Key: "b", Val: "4"}}, []string{"a", "b"})
						hit := false
						o.st.Hook = func(r *fmc.Req) ([]byte, bool) {
							if r.Key == "" && (r.Cmd == "mn" || strings.HasPrefix(strings.ToLower(r.Cmd), "noop")) {
								hit = true
								return e.bytes(r), true
							}
							return nil, false
						}
						t0 := vsched.Now()
						out := o.r.Do(Op{K: "multi", Keys: keys})
						o.st.Hook = nil
						if !hit {
							return
						}
						if out.Err != "error" {
							fail("the server answered %q (status %#x) to the request that ends the list, the caller was told %v", short(e.ascii), e.status, short(out.String()))
						}
						if d := vsched.Now() - t0; d > 0 {
							fail("all replies were there, the caller was told after %v", time.Duration(d))
						}
						o.run([]Op{fo, {K: "get", Key: "a"}}, []string{"a", "b"})
					})
				}
			}
		}
		// an error in place of one of many replies
		for _, n := range []int{100, 101, 201, 250} {
			for _, at := range []int{0, 50, 99, 100, 101, 149, 199, 200, 248} {
				for ei := range errReplies {
					if at >= n || !c.Thorough() && ei%3 != at%3 {
						continue
					}
					n, at, e := n, at, errReplies[ei]
					c.Plain(fmt.Sprintf("wide/%s/%d/%d/%s", p, n, at, e.name), func() {
						o := newOne(p, time.Second)
						op := wideMulti(n)
						o.prepWide(op)
						o.step(Op{K: "set", Key: "a", Val: "3"})
						hit := false
						o.st.Hook = func(r *fmc.Req) ([]byte, bool) {
							if strings.Contains(r.Key+" ", op.Keys[at]+" ") {
								hit = true
								return e.bytes(r), true
							}
							return nil, false
						}
						out := o.r.Do(op)
						o.st.Hook = nil
						if hit && out.Err != "error" {
							fail("the server answered %q (status %#x) for key %d of %d, the caller was told %v", e.ascii, e.status, at+1, n, short(out.String()))
						}
						if hit || p == "text" {
							o.run([]Op{{K: "get", Key: "a"}, op, {K: "get", Key: "none"}, {K: "multi", Keys: []string{"a", "wide1"}}}, []string{"a", "wide0"})
						}
					})
				}
			}
		}
		// lines that are almost an acknowledgement
		for oi, op := range ops {
			for ni, line := range nearly(p, op) {
				op, line := op, line
				c.Plain(fmt.Sprintf("nearly/%s/%d/%d", p, oi, ni), func() {
					o := newOne(p, time.Second)
					o.run([]Op{{K: "set", Key: "a", Val: "3"}, {K: "get", Key: "a"}}, []string{"a", "b"})
					hit := false
					o.st.Hook = func(r *fmc.Req) ([]byte, bool) {
						if hit || r.Key == "" && r.Cmd == "mn" {
							return nil, false
						}
						hit = true
						return []byte(line + "\r\n"), true
					}
					out := o.r.Do(op)
					o.st.Hook = nil
					if out.Err == "" {
						fail("%v: the server answered %q, the caller was told %v", op, line, out)
					}
					if d := storeDiff(o.st, o.m, []string{"a", "b"}); d != "" {
						fail("%s", d)
					}
				})
			}
		}
		// refusals the server decides itself
		for _, size := range []int{3000, 1900, 2048, 5000} {
			for _, k := range []string{"set", "add", "replace", "cas"} {
				for fi, fo := range ops {
					size, k, fo := size, k, fo
					c.Plain(fmt.Sprintf("large/%s/%s/%d/%d", p, k, size, fi), func() {
						o := newOne(p, time.Second)
						o.run([]Op{{K: "set", Key: "a", Val: "3"}, {K: "set", Key: "b", Val: "3"}, {K: "get", Key: "a"}}, nil)
						o.st.MaxItem = 2048
						key := "a"
						if k == "add" {
							key = "c"
						}
						op := Op{K: k, Key: key, Val: strings.Repeat("v\r\n", size/3)}
						fits := 1+len(op.Val)+64 <= 2048
						if fits {
							o.run([]Op{op, fo}, []string{"a", "b", "c"})
							return
						}
						out := o.r.Do(op)
						if out.Err != "error" {
							fail("%v: refused as too large, the caller was told %v", op, out)
						}
						if o.st.Get(key) == nil {
							delete(o.m.M, key)
						}
						o.run([]Op{fo, {K: "get", Key: "b"}}, []string{"a", "b", "c"})
					})
				}
			}
		}
	}
}

// flow: a GetMulti whose requests and replies do not fit in the buffers
// between client and server.
func flow(p string, n, kl, vl, every, buf int) {
	o := newOneBuf(p, time.Second, buf)
	var list []string
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%0*d", kl, i)
		list = append(list, k)
		if i%every == 0 {
			o.step(Op{K: "xset", Key: k, Val: strings.Repeat("v", vl), Flags: []byte{0, 0, 0, 9}})
		}
	}
	for _, op := range []Op{{K: "multi", Keys: list}, {K: "set", Key: "a", Val: "1"}, {K: "get", Key: list[0]}, {K: "multi", Keys: []string{"a", "none"}}} {
		want := o.m.Do(op)
		if d := Compare(p, op, o.r.Do(op), want); d != "" {
			fail("a list of %d keys of %d bytes, values of %d bytes, buffers of %d bytes: %s", n, kl, vl, buf, short(d))
		}
		cx.Trans(1)
	}
	if l := o.w.Links[0]; l.C.Pending() > 0 || len(l.queue) > 0 {
		fail("%d bytes of replies and %d of requests are left", l.C.Pending(), len(l.queue))
	}
}

func c05(c *Ctx) {
	keys := []string{"a", "b", "c", "d"}
	vals := []string{"", "END\r\n", "EN\r\nMN\r\n", strings.Repeat("x", 5000)}
	// every presence pattern, every list of up to n keys (with repeats)
	for _, p := range protos {
		p := p
		maxLen := c.Pick(4, 5)
		for pat := 0; pat < 16; pat++ {
			pat := pat
			for n := 0; n <= maxLen; n++ {
				idx := make([]int, n)
				for {
					list := make([]string, n)
					for i, k := range idx {
						list[i] = keys[k]
					}
					c.Plain(fmt.Sprintf("multi/%s/%04b/%s", p, pat, strings.Join(list, "")), func() {
						o := newOne(p, time.Second)
						for i, k := range keys {
							if pat>>i&1 == 1 {
								o.step(Op{K: "xset", Key: k, Val: vals[(i+pat)%4], Flags: []byte{byte(i), 0x80, 0, byte(pat)}, Exp: i * 40 * (pat & 1)})
							}
						}
						o.run([]Op{{K: "multi", Keys: list}, {K: "get", Key: "b"}, {K: "multi", Keys: list}}, keys)
					})
					i := n - 1
					for ; i >= 0; i-- {
						idx[i]++
						if idx[i] < len(keys) {
							break
						}
						idx[i] = 0
					}
					if i < 0 {
						break
					}
				}
			}
		}
		// long lists: around the buffer sizes
		for _, n := range []int{10, 50, 100, 300, 1000} {
			for _, kl := range []int{10, 100, 250} {
				for every := 1; every <= 3; every++ {
					n, kl, every := n, kl, every
					c.Plain(fmt.Sprintf("long/%s/%d/%d/%d", p, n, kl, every), func() {
						o := newOne(p, time.Second)
						var list []string
						for i := 0; i < n; i++ {
							k := fmt.Sprintf("%0*d", kl, i)
							list = append(list, k)
							if i%every == 0 {
								o.step(Op{K: "xset", Key: k, Val: fmt.Sprintf("value %d", i), Flags: []byte{0, 0, byte(i >> 8), byte(i)}})
							}
						}
						o.run([]Op{{K: "multi", Keys: list}, {K: "get", Key: list[0]}}, nil)
					})
				}
			}
		}
		// lists of several batches with whole stretches missing, or with one key repeated
		for _, n := range []int{99, 100, 101, 150, 199, 200, 201, 250, 300, 301} {
			for pat := 0; pat < 1<<((n+49)/50); pat++ {
				for _, same := range []bool{false, true} {
					n, pat, same := n, pat, same
					if same && pat == 0 {
						continue
					}
					c.Plain(fmt.Sprintf("stretch/%s/%d/%d/%v", p, n, pat, same), func() {
						o := newOne(p, time.Second)
						o.step(Op{K: "xset", Key: "again", Val: "a", Flags: []byte{0, 0, 0, 1}})
						var list []string
						for i := 0; i < n; i++ {
							k := fmt.Sprintf("s%d", i)
							if in := pat>>(i/50)&1 == 1; in && same {
								k = "again"
							} else if in {
								o.step(Op{K: "xset", Key: k, Val: fmt.Sprintf("v%d", i), Flags: []byte{0, 0, 1, byte(i)}})
							}
							list = append(list, k)
						}
						o.run([]Op{{K: "multi", Keys: list}, {K: "get", Key: list[n-1]}}, nil)
					})
				}
			}
			for at := 0; at < n; at++ {
				if at%50 > 1 && at%50 < 48 && !c.Thorough() {
					continue
				}
				n, at := n, at
				c.Plain(fmt.Sprintf("single/%s/%d/%d", p, n, at), func() {
					o := newOne(p, time.Second)
					var list []string
					for i := 0; i < n; i++ {
						list = append(list, fmt.Sprintf("s%d", i))
					}
					o.step(Op{K: "xset", Key: list[at], Val: "v\r\nEN\r\n", Flags: []byte{0, 0, 1, 2}})
					o.run([]Op{{K: "multi", Keys: list}, {K: "get", Key: list[at]}, {K: "multi", Keys: append(list[at:n:n], list[:at]...)}}, nil)
				})
			}
		}
		// the buffers between client and server are bounded
		for _, n := range []int{300, 1000, 3000, 20000} {
			for _, kl := range []int{10, 250} {
				for _, vl := range []int{0, 30, 3000} {
					if n*vl > 10<<20 {
						continue
					}
					for every := 1; every <= 3; every += 2 {
						for _, buf := range []int{1 << 16, 1 << 18} {
							n, kl, vl, every, buf := n, kl, vl, every, buf
							c.Case(fmt.Sprintf("flow/%s/%d/%d/%d/%d/%d", p, n, kl, vl, every, buf), CaseOpt{MaxSteps: 4000000}, func() { flow(p, n, kl, vl, every, buf) })
						}
					}
				}
			}
		}
		// lists between changes
		alpha := []Op{{K: "multi", Keys: []string{"a", "b"}}, {K: "multi", Keys: []string{"b", "none", "a"}}, {K: "set", Key: "a", Val: "1", Exp: 5}, {K: "set", Key: "b", Val: "2", Flags: []byte{0, 1, 0, 0}},
			{K: "delete", Key: "a"}, {K: "cas", Key: "a", Val: "9"}, {K: "cas", Key: "b", Val: "8"}, {K: "wait", Exp: 5}}
		seqs(alpha, c.Pick(4, 5), func(name string, ops []Op) {
			c.Plain(fmt.Sprintf("seq/%s/%s", p, name), func() { history(p, time.Second, ops, []string{"a", "b"}) })
		})
	}
}

// cutAt splits b at the ascending positions.
func cutAt(b []byte, pos ...int) [][]byte {
	var out [][]byte
	sort.Ints(pos)
	last := 0
	for _, p := range pos {
		if p > last && p < len(b) {
			out = append(out, b[last:p])
			last = p
		}
	}
	return append(out, b[last:])
}

func c07(c *Ctx) {
	c07server(c)
	hists := [][]Op{}
	for _, op := range allOps("a") {
		hists = append(hists, []Op{op})
	}
	prep := []Op{{K: "set", Key: "a", Val: "12"}, {K: "set", Key: "b", Val: "x\r\nEND\r\n", Flags: []byte{0, 0, 0, 7}}, {K: "get", Key: "a"}}
	for _, p := range protos {
		p := p
		run := func(h []Op, present bool, chunk func(out []byte) [][]byte) (outs []string, reply []int) {
			o := newOne(p, time.Second)
			if present {
				for _, op := range prep {
					o.step(op)
				}
			}
			o.w.Chunk = func(l *Link, out []byte) [][]byte {
				reply = append(reply, len(out))
				return chunk(out)
			}
			for _, op := range h {
				o.step(op)
			}
			o.settle([]string{"a", "b"})
			return
		}
		for hi, h := range hists {
			for _, present := range []bool{false, true} {
				h, present := h, present
				// measure the reply once per worker, uncut
				total := 0
				measure := func() {
					_, r := run(h, present, func(b []byte) [][]byte { return [][]byte{b} })
					for _, n := range r {
						if n > total {
							total = n
						}
					}
				}
				c.Measure(measure)
				c.Plain(fmt.Sprintf("bytes/%s/%d/%v", p, hi, present), func() {
					run(h, present, func(b []byte) [][]byte {
						var o [][]byte
						for i := range b {
							o = append(o, b[i:i+1])
						}
						return o
					})
				})
				for i := 1; i < total; i++ {
					for j := i; j < total; j++ {
						i, j := i, j
						c.Plain(fmt.Sprintf("cut/%s/%d/%v/%d/%d", p, hi, present, i, j), func() {
							cx.Trans(1)
							run(h, present, func(b []byte) [][]byte { return cutAt(b, i, j) })
						})
					}
				}
			}
		}
		// replies larger than the client's buffer, in segments of every size
		big := []Op{{K: "get", Key: "big"}, {K: "multi", Keys: []string{"big", "a", "big2"}}, {K: "get", Key: "a"}}
		for _, vs := range []int{4000, 4096, 4097, 9000} {
			step := 1
			if !c.Thorough() {
				step = 7
			}
			for seg := 1; seg < 5000; seg += step {
				if seg > 200 && seg < 3900 && seg%31 != 0 {
					continue
				}
				vs, seg := vs, seg
				c.Plain(fmt.Sprintf("seg/%s/%d/%d", p, vs, seg), func() {
					o := newOne(p, time.Second)
					v := strings.Repeat("line\r\nEND\r\n", vs/11+1)[:vs]
					o.step(Op{K: "xset", Key: "big", Val: v})
					o.step(Op{K: "xset", Key: "big2", Val: v + "2"})
					o.step(Op{K: "xset", Key: "a", Val: "1"})
					o.w.Chunk = func(l *Link, out []byte) [][]byte {
						var r [][]byte
						for len(out) > seg {
							r = append(r, out[:seg])
							out = out[seg:]
						}
						return append(r, out)
					}
					o.run(big, []string{"a", "big", "big2"})
				})
			}
		}
	}
}
