package main

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func init() {
	register("C25", c25, "one case = one operation whose reply is malformed in one way (every byte replaced, removed or repeated; every header field at its borders; hand-written lines), after which the server is silent, closes, or sends more; the operation and the following ones must return in time, without a panic and without memory out of proportion, and after Reconnect everything must be right",
		"what an operation returns for a malformed reply is judged only by C03 and C06: a value byte changed on the way cannot be noticed")
}

const garbleLimit = 3 << 20

var garbleOps = []Op{
	{K: "get", Key: "a"}, {K: "get", Key: "none"}, {K: "multi", Keys: []string{"a", "none", "b"}}, {K: "multi", Keys: []string{"b"}},
	{K: "set", Key: "a", Val: "six", Flags: []byte{0, 0, 1, 6}, Exp: 100}, {K: "cas", Key: "a", Val: "seven"}, {K: "add", Key: "new", Val: "8"}, {K: "add", Key: "a", Val: "9"},
	{K: "replace", Key: "a", Val: "10"}, {K: "delete", Key: "a"}, {K: "incr", Key: "n", Delta: 1}, {K: "decr", Key: "n", Delta: 40}, {K: "touch", Key: "a", Exp: 50}, {K: "flush"}, {K: "version"},
}

// garbled runs op with the reply reply (after which the connection does what
// end says), then others.
func garbled(p string, op Op, reply []byte, end string) {
	o := newOne(p, time.Second)
	expSlack = 3
	for _, x := range faultPrep {
		o.step(x)
	}
	l := o.w.Links[0]
	l.Mangle = func([]byte) []byte {
		l.Mangle = nil
		return reply
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	timed := func(op Op) {
		t0 := vsched.Now()
		o.r.Do(op)
		if d := time.Duration(vsched.Now() - t0); d > time.Second {
			fail("%v returned only after %v although the timeout is 1s", op, d)
		}
		cx.Trans(1)
	}
	o.m.Do(op)
	if end == "eof" {
		vsched.AddTimer(int64(10*time.Millisecond), func() { l.kill("eof") })
	}
	timed(op)
	// the connection may be out of step now, but calls still have to return
	for _, x := range []Op{{K: "get", Key: "b"}, {K: "multi", Keys: []string{"b", "none"}}, {K: "version"}, {K: "touch", Key: "none", Exp: 1}} {
		timed(x)
	}
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > garbleLimit {
		fail("%v: the reply %q made the client allocate %d MB", op, short(string(reply)), d>>20)
	}
	if err := o.s.Reconnect(); err != nil {
		fail("Reconnect to a running server failed: %v", err)
	}
	o.r.tok, o.r.items, o.m.tok = map[string][]uint64{}, map[string]*client.Item{}, map[string][]uint64{}
	o.run([]Op{{K: "get", Key: "b"}, {K: "get", Key: "a"}, {K: "multi", Keys: []string{"a", "none", "b", "n"}}, {K: "set", Key: "d", Val: "41"}, {K: "get", Key: "d"}, {K: "cas", Key: "d", Val: "42"}, {K: "incr", Key: "d", Delta: 1}, {K: "delete", Key: "d"}, {K: "version"}}, nil)
	o.settleLast(faultKeys)
	if n := o.w.Open(); len(n) != 1 {
		fail("open connections after Reconnect: %v", n)
	}
	cx.State(p + op.K + string(reply))
}

// mutants lists the malformed variants of a reply.
func mutants(p string, b []byte, all bool) map[string][]byte {
	r := map[string][]byte{}
	edit := func(name string, x []byte) { r[name] = x }
	alpha := []byte("\x00 \r\n09-VEk\x80\xff")
	if p == "binary" {
		alpha = []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xff}
	}
	for i := range b {
		for _, ch := range alpha {
			if b[i] != ch {
				x := append([]byte(nil), b...)
				x[i] = ch
				edit(fmt.Sprintf("put%d.%02x", i, ch), x)
			}
		}
		edit(fmt.Sprintf("cut%d", i), append(append([]byte(nil), b[:i]...), b[i+1:]...))
		edit(fmt.Sprintf("twice%d", i), append(append([]byte(nil), b[:i+1]...), b[i:]...))
		edit(fmt.Sprintf("line%d", i), append(append([]byte(nil), b[:i]...), "\r\n"...))
		edit(fmt.Sprintf("end%d", i), append([]byte(nil), b[:i]...))
		if all {
			for _, w := range []string{" ", "\r\n", "END\r\n", "VALUE ", "\x81", "99999999999"} {
				edit(fmt.Sprintf("ins%d.%x", i, w), append(append(append([]byte(nil), b[:i]...), w...), b[i:]...))
			}
		}
	}
	if p != "binary" {
		num := []string{"", "-1", "-3", "0", "1", "2147483647", "2147483648", "4294967295", "4294967296", "4194303", "8388607", "16777216", "1000000000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "x", "1x", " 1"}
		lines := []string{"", "\r", " ", "VALUE", "VALUE ", "VALUE a", "VALUE a ", "VALUE a 0", "VALUE  0 1", "VALUE a  1", "VALUE a 0 1 ", "VALUE a 0 1 2 3", "VALUE a b c d", "END ", "ENDS", "E", "EN", "EN ", "V", "VA", "VA ", "VA  ", "VA 1", "VA1", "VA 1 ", "VA 1 f", "VA 1 t", "VA 1 c", "VA 1 k", "VA 1 s", "VA 1 fx", "VA 1 ff", "VA x f1", "VA  f1", "VA 1 f1 c2 t3 k", "VA 1 t99999999999", "VA 1 f-1", "VA 1 c-1", "VA 1 c18446744073709551616",
			"H", "HD", "HD ", "HDx", "M", "MN ", "NF", "N", "NS", "VERSION", "VERSION ", "STORED ", "STORE", "DELETED x", "TOUCHED!", "OK ", "O", "1 ", "-", strings.Repeat("x", 5000), strings.Repeat("VALUE ", 1000), "VALUE " + strings.Repeat("k", 9000) + " 0 1"}
		for _, n := range num {
			lines = append(lines, n, "VALUE a 0 "+n, "VALUE a "+n+" 1", "VALUE a 0 1 "+n, "VALUE a 0 "+n+" 7", "VA "+n, "VA "+n+" f1 c1 t1", "VA 1 f"+n, "VA 1 t"+n, "VA 1 c"+n)
		}
		for i, s := range lines {
			for j, e := range []string{"\r\n", "\n", "", "\r\nx\r\nEND\r\n", "\r\nx\r\nMN\r\n", "\r"} {
				edit(fmt.Sprintf("hand%d.%d", i, j), []byte(s+e))
			}
		}
		return r
	}
	head := func(name string, f func(h []byte)) {
		if len(b) >= 24 {
			x := append([]byte(nil), b...)
			f(x)
			edit(name, x)
			edit(name+"/head", x[:24])
			edit(name+"/more", append(append([]byte(nil), x...), make([]byte, 300)...))
		}
	}
	k16 := []uint16{0, 1, 2, 3, 4, 250, 251, 0x7fff, 0x8000, 0xffff}
	e8 := []byte{0, 1, 3, 4, 5, 8, 0x7f, 0x80, 0xff}
	b32 := []uint32{0, 1, 2, 3, 4, 7, 8, 9, 24, 250, 1 << 16, 1 << 20, 1<<22 - 1, 1<<23 - 1, 1 << 24, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	for _, st := range []uint16{0, 1, 0x100, 0xffff} {
		st := st
		for _, n := range b32 {
			n := n
			head(fmt.Sprintf("body%x.%d", st, n), func(h []byte) {
				binary.BigEndian.PutUint16(h[6:], st)
				binary.BigEndian.PutUint32(h[8:], n)
			})
			for _, k := range k16 {
				k := k
				head(fmt.Sprintf("key%x.%d.%d", st, k, n), func(h []byte) {
					binary.BigEndian.PutUint16(h[2:], k)
					binary.BigEndian.PutUint16(h[6:], st)
					binary.BigEndian.PutUint32(h[8:], n)
				})
			}
			for _, e := range e8 {
				e := e
				head(fmt.Sprintf("extra%x.%d.%d", st, e, n), func(h []byte) {
					h[4] = e
					binary.BigEndian.PutUint16(h[6:], st)
					binary.BigEndian.PutUint32(h[8:], n)
				})
			}
		}
	}
	for _, k := range k16 {
		for _, e := range e8 {
			k, e := k, e
			head(fmt.Sprintf("lens.%d.%d", k, e), func(h []byte) {
				binary.BigEndian.PutUint16(h[2:], k)
				h[4] = e
			})
		}
	}
	for op := 0; op < 256; op++ {
		op := op
		head(fmt.Sprintf("op.%d", op), func(h []byte) { h[1] = byte(op) })
	}
	return r
}

func c25(c *Ctx) {
	for _, p := range protos {
		p := p
		for oi, op := range garbleOps {
			op := op
			for i, u := range floods(p) {
				for _, gap := range []time.Duration{100 * time.Millisecond, 400 * time.Millisecond, 999 * time.Millisecond} {
					u, gap := u, gap
					c.Plain(fmt.Sprintf("flood/%s/%d/%d/%v", p, oi, i, gap), func() { flooded(p, op, u, gap) })
				}
			}
			ms := mutants(p, c.reply(p, op), c.Thorough())
			for i, n := range sortedNames(ms) {
				for j, end := range []string{"silent", "eof"} {
					if !c.Thorough() && (i+j)%2 == 1 && !strings.HasPrefix(n, "hand") {
						continue
					}
					n, end := n, end
					c.Plain(fmt.Sprintf("%s/%s/%d/%s/%s", op.K, p, oi, n, end), func() { garbled(p, op, ms[n], end) })
				}
			}
		}
	}
}

// floods are units that a server may send again and again.
func floods(p string) []string {
	if p != "binary" {
		u := []string{"x\r\n", "\r\n", "x", "VALUE a 0 1\r\nx\r\n", "VALUE a 0 1 1\r\nx\r\n", "VA 1 f0 c1 t-1\r\nx\r\n", "VA 1 f0 ka c1 t-1\r\nx\r\n", "HD\r\n", "SERVER_ERROR busy\r\n", "VERSION 1\r\n", "1\r\n", "NF\r\n", "EN\r\n", "VALUE a 0 1\r\n"}
		return u
	}
	var u []string
	for _, op := range []byte{0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 13, 28, 99} {
		for _, st := range []byte{0, 1, 0x81} {
			f := binReq(op, "a", be32(5), []byte("val"), 0, 7)
			f[0], f[7] = 0x81, st
			u = append(u, string(f))
			f = binReq(op, "", nil, nil, 0, 7)
			f[0], f[7] = 0x81, st
			u = append(u, string(f))
		}
	}
	return u
}

// flooded runs op on a server that answers with unit, and again every gap,
// for as long as the connection is open.
func flooded(p string, op Op, unit string, gap time.Duration) {
	o := newOne(p, time.Second)
	for _, x := range faultPrep {
		o.step(x)
	}
	l := o.w.Links[0]
	n := 0
	var more func()
	more = func() {
		if n++; n < 40 && !l.C.Closed() {
			l.C.Deliver([]byte(unit))
			vsched.AddTimer(int64(gap), more)
		}
	}
	l.Mangle = func([]byte) []byte {
		l.Mangle = func([]byte) []byte { return nil }
		vsched.AddTimer(int64(gap), more)
		return []byte(unit)
	}
	for _, x := range []Op{op, {K: "get", Key: "b"}, {K: "multi", Keys: []string{"a", "b"}}} {
		t0 := vsched.Now()
		o.r.Do(x)
		if d := time.Duration(vsched.Now() - t0); d > time.Second {
			fail("%v returned only after %v although the timeout is 1s and the server sends %q every %v", x, d, short(unit), gap)
		}
		cx.Trans(1)
	}
	if err := o.s.Reconnect(); err != nil {
		fail("Reconnect to a running server failed: %v", err)
	}
	if x := o.r.Do(Op{K: "get", Key: "b"}); x.Err != "" && op.K != "flush" {
		fail("after Reconnect Get returned %v", x)
	}
	cx.State(p + op.K + unit)
}

func sortedNames(m map[string][]byte) []string {
	names := make([]string, 0, len(m))
	for n := range m {
		names = append(names, n)
	}
	sortStrings(names)
	return names
}

// reply learns the reply to op after faultPrep.
func (c *Ctx) reply(p string, op Op) []byte {
	var rep []byte
	c.Measure(func() {
		o := newOne(p, time.Second)
		for _, x := range faultPrep {
			o.r.Do(x)
		}
		l := o.w.Links[0]
		n := len(l.Rep)
		o.r.Do(op)
		rep = append([]byte(nil), l.Rep[n:]...)
	})
	return rep
}
