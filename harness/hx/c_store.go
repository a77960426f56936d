package main

import (
	"fmt"
	"strings"
	"time"
)

func init() {
	register("C01", c01, "one case = one store of one item shape (key x value x flags x expiration x store operation x protocol, or every ordered pair of shapes) followed by reads of it; every case checks the item read, the server's contents and that the connection stayed in step")
	register("C02", c02, "one case = one operation sequence over the alphabet (reads, plain and conditional stores with current and old tokens, deletes, changes by another client, passing time) of the stated depth per protocol; every step is compared with a versioned-map model")
	register("C04", c04, "one case = one sequence of counter operations (start value x delta x operation, depth 1-3) per protocol, compared with unsigned 64-bit arithmetic")
	register("C24", c24, "one case = one sequence of stores, touches and read-modify-write steps with expirations, with virtual time between them; the server's absolute expiry is compared with the model after every step")
}

type shape struct {
	name string
	val  string
}

func byteRange(a, b int) string {
	var sb strings.Builder
	for i := a; i <= b; i++ {
		sb.WriteByte(byte(i))
	}
	return sb.String()
}

var valueShapes = []shape{
	{"empty", ""}, {"one", "x"}, {"crlf", "\r\n"}, {"lf", "\n"}, {"cr", "\r"}, {"end", "END\r\n"}, {"midend", "a\r\nEND\r\nb"},
	{"value", "VALUE a 0 1\r\nx\r\nEND\r\n"}, {"en", "EN\r\n"}, {"mn", "MN\r\n"}, {"va", "VA 1 f0 c1 t-1\r\nx\r\n"}, {"hd", "HD\r\n"},
	{"stored", "STORED\r\n"}, {"space", " "}, {"spaces", " a b  c "}, {"nul", "\x00"}, {"binreq", "\x80\x00\x00\x00"}, {"binres", "\x81\x0a" + strings.Repeat("\x00", 22)},
	{"all", byteRange(0, 255)}, {"num", "18446744073709551615"}, {"pct", "%s%d%!"}, {"long", strings.Repeat("0123456789abcde\n", 1024)},
}

var flagShapes = [][]byte{nil, {0, 0, 0, 0}, {0, 0, 0, 1}, {0x12, 0x34, 0x56, 0x78}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}}

var storeModes = []string{"set", "add", "replace", "cas"}

func storeHistory(mode string, op Op) []Op {
	switch mode {
	case "replace":
		o := op
		o.K = "replace"
		return []Op{{K: "set", Key: op.Key, Val: "old"}, o}
	case "cas":
		o := op
		o.K = "cas"
		return []Op{{K: "set", Key: op.Key, Val: "old"}, {K: "get", Key: op.Key}, o}
	}
	op.K = mode
	if mode == "incr" || mode == "decr" {
		op.Delta = 3
	}
	return []Op{op}
}

func c01(c *Ctx) {
	for _, p := range protos {
		p := p
		for _, mode := range storeModes {
			for _, v := range valueShapes {
				for fi, f := range flagShapes {
					for _, exp := range []int{0, 100} {
						op := Op{Key: "a", Val: v.val, Flags: f, Exp: exp}
						ops := append(storeHistory(mode, op), Op{K: "get", Key: "a"}, Op{K: "multi", Keys: []string{"a"}}, Op{K: "get", Key: "a"})
						c.Plain(fmt.Sprintf("shape/%s/%s/%s/f%d/t%d", p, mode, v.name, fi, exp), func() {
							history(p, time.Second, ops, []string{"a"})
						})
					}
				}
			}
		}
		// sizes: everything near the client's buffer size, and around it
		size := func(n int) {
			for _, mode := range []string{"set", "add", "replace"} {
				if mode != "set" && n%16 != 0 && n > 64 && !c.Thorough() {
					continue
				}
				val := strings.Repeat("ab\r\nEND\r\n.", n/10+1)[:n]
				ops := append(storeHistory(mode, Op{Key: "a", Val: val, Flags: []byte{0, 0, 0, 9}}), Op{K: "get", Key: "a"},
					Op{K: "set", Key: "b", Val: val + "!"}, Op{K: "multi", Keys: []string{"a", "b"}}, Op{K: "get", Key: "b"})
				c.Plain(fmt.Sprintf("size/%s/%s/%d", p, mode, n), func() {
					history(p, 0, ops, []string{"a", "b"})
				})
			}
		}
		for n := 0; n <= c.Pick(80, 2000); n++ {
			size(n)
		}
		for n := 4096 - c.Pick(72, 600); n <= 4096+c.Pick(40, 300); n++ {
			size(n)
		}
		for n := 8192 - c.Pick(72, 300); n <= 8192+c.Pick(24, 200); n++ {
			size(n)
		}
		for _, n := range []int{9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 131072, 1000000} {
			size(n)
		}
		// servers started with -I take items of up to 1 GB
		for _, n := range []int{1<<21 + 3, 1 << 22, 1<<23 - 1, 1<<24 + 1, 1<<25 + 1} {
			for _, mode := range []string{"set", "add", "replace"} {
				if mode != "set" && n > 1<<24 {
					continue
				}
				n := n
				ops := append(storeHistory(mode, Op{Key: "a", Val: strings.Repeat("ab\r\nEND\r\n.", n/10+1)[:n], Flags: []byte{0, 0, 0, 9}}), Op{K: "get", Key: "a"},
					Op{K: "set", Key: "b", Val: "small"}, Op{K: "multi", Keys: []string{"a", "none", "b"}}, Op{K: "get", Key: "b"})
				c.Plain(fmt.Sprintf("huge/%s/%s/%d", p, mode, n), func() {
					o := newOne(p, 0)
					o.st.MaxItem = 1 << 30
					o.run(ops, []string{"a", "b"})
				})
			}
		}
		// keys
		key := func(k string) {
			if k == probeKey {
				return
			}
			ops := []Op{{K: "set", Key: k, Val: "v\r\n1", Flags: []byte{1, 2, 3, 4}}, {K: "get", Key: k}, {K: "set", Key: k + "~", Val: "other"}}
			if len(k) >= 250 {
				ops = ops[:2]
			}
			ops = append(ops, Op{K: "multi", Keys: []string{k, "none"}}, Op{K: "replace", Key: k, Val: "w"}, Op{K: "get", Key: k})
			ops = append(ops, Op{K: "delete", Key: k}, Op{K: "get", Key: k}, Op{K: "add", Key: k, Val: "x"}, Op{K: "get", Key: k})
			c.Plain(fmt.Sprintf("key/%s/%x", p, k), func() { history(p, time.Second, ops, []string{k}) })
		}
		for n := 1; n <= 250; n++ {
			key(strings.Repeat("k", n-1) + "z")
		}
		for b := 0x21; b <= 0xff; b++ {
			if b == 0x7f {
				continue
			}
			key(string([]byte{byte(b)}))
			key("k" + string([]byte{byte(b)}) + "k")
		}
		for _, k := range []string{"END", "VALUE", "VA", "EN", "HD", "get", "gets", "noreply", "0", "-1", "%s", "%d%n", "STORED", "k1", "f1", "c9", "t-1", "日本語", "kt5", "v"} {
			key(k)
		}
		// every ordered pair of shapes on one connection
		var sh []Op
		for _, v := range []int{0, 1, 2, 6, 8, 18, 21} {
			sh = append(sh, Op{K: "set", Val: valueShapes[v].val, Flags: flagShapes[(v*3)%len(flagShapes)]})
		}
		for i := range sh {
			for j := range sh {
				for k := range sh {
					if k != (i+j)%len(sh) && !c.Thorough() {
						continue
					}
					x, y, z := sh[i], sh[j], sh[k]
					x.Key, y.Key, z.Key = "a", "b", "a"
					ops := []Op{x, y, {K: "get", Key: "b"}, {K: "multi", Keys: []string{"b", "a"}}, z, {K: "get", Key: "a"}, {K: "get", Key: "none"}, {K: "multi", Keys: []string{"none", "a", "b"}}, {K: "get", Key: "b"}}
					c.Plain(fmt.Sprintf("pair/%s/%d.%d.%d", p, i, j, k), func() { history(p, time.Second, ops, []string{"a", "b"}) })
				}
			}
		}
	}
}

func c02(c *Ctx) {
	alpha := []Op{
		{K: "get", Key: "a"},
		{K: "set", Key: "a", Val: "1"},
		{K: "cas", Key: "a", Val: "2"},
		{K: "casold", Key: "a", Val: "3", Flags: []byte{0, 0, 0, 3}},
		{K: "add", Key: "a", Val: "4", Exp: 5},
		{K: "replace", Key: "a", Val: "5"},
		{K: "delete", Key: "a"},
		{K: "xset", Key: "a", Val: "1"},
		{K: "wait", Exp: 6},
	}
	run := func(group string, alpha []Op, depth int, casBase uint64) {
		for _, p := range protos {
			p := p
			seqs(alpha, depth, func(name string, ops []Op) {
				c.Plain(fmt.Sprintf("%s/%s/%s", group, p, name), func() {
					o := newOne(p, time.Second)
					o.st.SetCasCounter(casBase)
					o.run(ops, []string{"a", "b"})
				})
			})
		}
	}
	run("cas", alpha, c.Pick(4, 5), 0)
	// the wide alphabet: every operation, two keys
	wide := []Op{
		{K: "get", Key: "a"}, {K: "multi", Keys: []string{"a", "b"}}, {K: "set", Key: "a", Val: "10"}, {K: "set", Key: "b", Val: "b1"},
		{K: "cas", Key: "a", Val: "c"}, {K: "add", Key: "a", Val: "7"}, {K: "replace", Key: "a", Val: "8"}, {K: "delete", Key: "a"},
		{K: "incr", Key: "a", Delta: 1}, {K: "decr", Key: "a", Delta: 3}, {K: "touch", Key: "a", Exp: 5}, {K: "flush"}, {K: "version"},
		{K: "cas", Key: "b", Val: "d"}, {K: "rmw", Key: "a"}, {K: "wait", Exp: 6}, {K: "xset", Key: "b", Val: "x\r\nEND"}, {K: "xdel", Key: "a"},
	}
	run("wide", wide, c.Pick(3, 4), 0)
	// tokens over the whole 64-bit range
	for i, base := range []uint64{1<<31 - 2, 1<<32 - 2, 1<<62 - 2, 1<<63 - 2, 1<<64 - 4} {
		run(fmt.Sprintf("token%d", i), []Op{{K: "set", Key: "a", Val: "1"}, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"a"}}, {K: "cas", Key: "a", Val: "2"}}, 4, base)
	}
}

// run is history on an existing world.
func (o *one) run(ops []Op, keys []string) {
	for i, op := range ops {
		o.step(op)
		cx.State(o.m.Proto + o.st.Dump() + o.tokens())
		cx.Trans(1)
		if d := storeDiff(o.st, o.m, keys); d != "" {
			fail("after step %d (%v): %s", i+1, op, d)
		}
	}
	o.settle(keys)
}

func c04(c *Ctx) {
	starts := []string{"0", "1", "9", "10", "99", "100", "4294967295", "2147483647", "9223372036854775806", "9223372036854775807", "18446744073709551615", "00012", "12  ", "x", "", "-5", "1x", "99999999999999999999999"}
	deltas := []int{0, 1, 2, 10, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1}
	fits := func(m *Model, op Op) bool { // the result must be representable in the API's return type
		e := m.get(op.Key)
		if e == nil {
			return true
		}
		n, ok := parseNum(e.val)
		if !ok {
			return true
		}
		if op.K == "incr" {
			n += uint64(op.Delta)
		} else if n < uint64(op.Delta) {
			n = 0
		} else {
			n -= uint64(op.Delta)
		}
		return n < 1<<63
	}
	kinds := []string{"incr", "decr"}
	for _, p := range protos {
		p := p
		for si, s := range starts {
			s := s
			for _, k1 := range kinds {
				for _, d1 := range deltas {
					for _, k2 := range append(kinds, "get") {
						for _, d2 := range []int{1, 10, 1 << 32} {
							if k2 == "get" && d2 != 1 {
								continue
							}
							ops := []Op{{K: k1, Key: "n", Delta: d1}, {K: k2, Key: "n", Delta: d2}, {K: "incr", Key: "n", Delta: 7}}
							c.Plain(fmt.Sprintf("arith/%s/%d/%s%d/%s%d", p, si, k1, d1, k2, d2), func() {
								o := newOne(p, time.Second)
								o.step(Op{K: "set", Key: "n", Val: s, Flags: []byte{0, 0, 1, 2}, Exp: 50})
								for _, op := range ops {
									if op.K != "get" && !fits(o.m, op) {
										break
									}
									o.run([]Op{op}, []string{"n"})
								}
								o.run([]Op{{K: "get", Key: "n"}}, []string{"n"})
							})
						}
					}
				}
			}
		}
		alpha := []Op{{K: "incr", Key: "n", Delta: 1}, {K: "incr", Key: "n", Delta: 1 << 33, Exp: 5}, {K: "decr", Key: "n", Delta: 1}, {K: "decr", Key: "n", Delta: 1000},
			{K: "set", Key: "n", Val: "10"}, {K: "get", Key: "n"}, {K: "cas", Key: "n", Val: "41"}, {K: "delete", Key: "n"}, {K: "wait", Exp: 6}, {K: "set", Key: "n", Val: "abc"}, {K: "add", Key: "n", Val: "3", Exp: 5}}
		seqs(alpha, c.Pick(3, 4), func(name string, ops []Op) {
			c.Plain(fmt.Sprintf("seq/%s/%s", p, name), func() { history(p, time.Second, ops, []string{"n"}) })
		})
	}
}

func c24(c *Ctx) {
	abs := int(1_800_000_000 + 100)
	for _, p := range protos {
		p := p
		// every store operation with every expiration shape, then every later moment
		for _, mode := range append([]string{"incr", "decr"}, storeModes...) {
			for _, exp := range []int{-1, -2, -100, -40000, -60 * 60 * 24 * 31, -1 << 31, 0, 1, 2, 59, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 100000, 60*60*24*30 - 1, 60 * 60 * 24 * 30, 60*60*24*30 + 1, abs, abs + 1, 1<<31 - 1} {
				if (mode == "incr" || mode == "decr") && p != "binary" {
					continue
				}
				for _, wait := range []int{0, 1, 2, 58, 59, 99, 100, 101, 127, 128, 255, 256, 32767, 32768, 65536, 65537, 60*60*24*30 - 1, 60 * 60 * 24 * 30} {
					if wait > 101 && wait != exp && wait+1 != exp {
						continue
					}
					ops := storeHistory(mode, Op{Key: "a", Val: "v", Exp: exp})
					ops = append(ops, Op{K: "wait", Exp: wait}, Op{K: "get", Key: "a"}, Op{K: "multi", Keys: []string{"a", "b"}}, Op{K: "rmw", Key: "a"}, Op{K: "get", Key: "a"})
					c.Case(fmt.Sprintf("exp/%s/%s/%d/%d", p, mode, exp, wait), pauseOpt, func() { history(p, time.Second, ops, []string{"a"}) })
				}
			}
		}
		for _, exp := range []int{-1, -2, -100, -40000, -60 * 60 * 24 * 31, -1 << 31, 0, 1, 2, 59, 128, 256, 32768, 65536, 65537, 100000, 60*60*24*30 - 1, 60 * 60 * 24 * 30, 60*60*24*30 + 1, abs, abs + 1, abs + 60*60*24*30 - 100, abs + 60*60*24*30 - 99, abs + 60*60*24*60, 1<<31 - 1} {
			for _, first := range []int{0, 50, abs} {
				for _, wait := range []int{0, 1, 2, 58, 59, 99, 100, 101} {
					ops := []Op{{K: "set", Key: "a", Val: "v", Exp: first, Flags: []byte{0, 0, 0, 1}}, {K: "touch", Key: "a", Exp: exp}, {K: "wait", Exp: wait}, {K: "get", Key: "a"}, {K: "rmw", Key: "a"}, {K: "get", Key: "a"}, {K: "touch", Key: "a", Exp: first}}
					c.Plain(fmt.Sprintf("touch/%s/%d/%d/%d", p, exp, first, wait), func() { history(p, time.Second, ops, []string{"a"}) })
				}
			}
		}
		alpha := []Op{
			{K: "set", Key: "a", Val: "1"}, {K: "set", Key: "a", Val: "2", Exp: 10}, {K: "touch", Key: "a", Exp: 20}, {K: "touch", Key: "a", Exp: 0},
			{K: "get", Key: "a"}, {K: "rmw", Key: "a"}, {K: "wait", Exp: 9}, {K: "incr", Key: "a", Delta: 1, Exp: 3}, {K: "multi", Keys: []string{"a"}}, {K: "touch", Key: "a", Exp: abs},
		}
		seqs(alpha, c.Pick(4, 5), func(name string, ops []Op) {
			c.Plain(fmt.Sprintf("seq/%s/%s", p, name), func() { history(p, time.Second, ops, []string{"a"}) })
		})
	}
}
