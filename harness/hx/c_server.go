package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"syscall"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/internal/zverif/vnet"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
	"go.f110.dev/go-memcached/server"
)

func init() {
	register("C15", c15, "one case = one request of the grammar (command x key x flags x expiration x value x option shapes, text, meta and binary) in one segmentation, or one pipeline of two or three of them; the handler must see exactly what was sent")
	register("C16", c16, "one case = one request x one handler answer (success with every field shape, not found, exists, other failure, handler error) followed by a second request; the bytes written must be exactly one reply for each, in order, formatted by the protocol")
	register("C17", c17, "one case = one malformed input (every truncation, byte substitution, deletion and insertion of each request, every extreme length field, a list of illegal commands) on one connection while another is served; memory is measured")
	register("C18", c18, "one case = one set of 2-3 connections with pipelined requests under every interleaving within the preemption bound, with one of them failing at one point")
}

const opGetKQ = byte(server.OpcodeGetKQ)

func f4(v uint32) []byte { return be32(v) }

// textStore is set, add or replace.
func textStore(cmd, key string, flags uint32, exp int, val string) wire {
	op := map[string]server.Opcode{"set": server.OpcodeSet, "add": server.OpcodeAdd, "replace": server.OpcodeReplace}[cmd]
	return wire{name: cmd, cmd: cmd, bytes: []byte(fmt.Sprintf("%s %s %d %d %d\r\n%s\r\n", cmd, key, flags, exp, len(val), val)),
		want: server.Request{Opcode: op, Key: key, Flags: f4(flags), Value: []byte(val), SetOpt: &server.SetOpt{Expiration: exp}}}
}

func textLine(cmd, line string, want server.Request) wire {
	return wire{name: cmd, cmd: cmd, bytes: []byte(line + "\r\n"), want: want}
}

// metaGet has one flag per token.
func metaGet(key string, toks ...string) wire {
	o := &server.GetOpt{Meta: true}
	q := false
	for _, t := range toks {
		switch t[0] {
		case 'c':
			o.Cas = true
		case 'f':
			o.Flag = true
		case 'h':
			o.Hit = true
		case 'k':
			o.Key = true
		case 'l':
			o.LastAccess = true
		case 'q':
			o.NoReply, q = true, true
		case 's':
			o.Size = true
		case 't':
			o.TTL = true
		case 'v':
			o.Value = true
		}
	}
	return wire{name: "mg", cmd: "mg", toks: toks, quiet: q, bytes: []byte("mg " + key + " " + strings.Join(toks, " ") + "\r\n"),
		want: server.Request{Opcode: server.OpcodeGet, Key: key, GetOpt: o}}
}

func metaSet(key, val string, o server.SetOpt, toks ...string) wire {
	o.Meta = true
	op := server.OpcodeSet
	q := false
	for _, t := range toks {
		switch {
		case t == "q":
			q = true
		case t == "ME":
			op = server.OpcodeAdd
		case t == "MR":
			op = server.OpcodeReplace
		}
	}
	line := fmt.Sprintf("ms %s %d", key, len(val))
	for _, t := range toks {
		line += " " + t
	}
	return wire{name: "ms", cmd: "ms", quiet: q, toks: toks, bytes: []byte(line + "\r\n" + val + "\r\n"),
		want: server.Request{Opcode: op, Key: key, Value: []byte(val), SetOpt: &o}}
}

func binStore(op server.Opcode, key string, flags, exp uint32, val string, opq uint32, cas uint64) wire {
	return wire{name: fmt.Sprintf("bin%d", op), bin: true, cmd: "store", op: byte(op), opq: opq, bytes: binReq(byte(op), key, append(be32(flags), be32(exp)...), []byte(val), opq, cas),
		want: server.Request{Opcode: op, Key: key, Flags: f4(flags), Value: []byte(val), SetOpt: &server.SetOpt{Expiration: int(exp), Cas: cas != 0, CasValue: cas}}}
}

func binKey(op server.Opcode, key string, opq uint32) wire {
	w := wire{name: fmt.Sprintf("bin%d", op), bin: true, cmd: "key", op: byte(op), opq: opq, bytes: binReq(byte(op), key, nil, nil, opq, 0), want: server.Request{Opcode: op, Key: key}}
	if op == server.OpcodeGetKQ {
		w.want = server.Request{Opcode: server.OpcodeGet, Key: key, GetOpt: &server.GetOpt{NoReply: true, Key: true}}
		w.quiet = true
	}
	return w
}

func binArith(op server.Opcode, key string, delta, initial uint64, exp uint32, opq uint32) wire {
	return wire{name: fmt.Sprintf("bin%d", op), bin: true, cmd: "arith", op: byte(op), opq: opq,
		bytes: binReq(byte(op), key, append(append(be64(delta), be64(initial)...), be32(exp)...), nil, opq, 0),
		want:  server.Request{Opcode: op, Key: key, Delta: int64(delta), SetOpt: &server.SetOpt{Expiration: int(exp)}}}
}

func binTouch(key string, exp uint32, opq uint32) wire {
	return wire{name: "bin28", bin: true, cmd: "touch", op: byte(server.OpcodeTouch), opq: opq, bytes: binReq(byte(server.OpcodeTouch), key, be32(exp), nil, opq, 0),
		want: server.Request{Opcode: server.OpcodeTouch, Key: key, SetOpt: &server.SetOpt{Expiration: int(exp)}}}
}

func binBare(op server.Opcode, extras []byte, opq uint32) wire {
	return wire{name: fmt.Sprintf("bin%d", op), bin: true, cmd: "bare", op: byte(op), opq: opq, bytes: binReq(byte(op), "", extras, nil, opq, 0), want: server.Request{Opcode: op}}
}

var srvKeys = []string{"a", "k-2", "END", "get", "0", strings.Repeat("k", 250), "日本", "a\x80b", "%s"}

// reps are the representative requests used in pipelines.
func textReps() []wire {
	return []wire{
		textLine("get", "get a", server.Request{Opcode: server.OpcodeGet, Key: "a"}),
		textLine("gets", "gets a b", server.Request{Opcode: server.OpcodeGet, Keys: []string{"a", "b"}}),
		textLine("get", "get b a", server.Request{Opcode: server.OpcodeGet, Keys: []string{"b", "a"}}),
		textStore("set", "a", 7, 100, "get b\r\nset c 0 0 1\r\n"),
		textStore("add", "b", 0, 0, ""),
		textStore("replace", "c", 1<<32-1, 60*60*24*30+1, "\x80\x00x\r\n"),
		textLine("delete", "delete a", server.Request{Opcode: server.OpcodeDelete, Key: "a", DelOpt: &server.DelOpt{}}),
		textLine("md", "md b", server.Request{Opcode: server.OpcodeDelete, Key: "b", DelOpt: &server.DelOpt{Meta: true}}),
		textLine("incr", "incr n 5", server.Request{Opcode: server.OpcodeIncrement, Key: "n", Delta: 5}),
		textLine("decr", "decr n 4294967296", server.Request{Opcode: server.OpcodeDecrement, Key: "n", Delta: 1 << 32}),
		textLine("touch", "touch a 30", server.Request{Opcode: server.OpcodeTouch, Key: "a", Delta: 30, SetOpt: &server.SetOpt{Expiration: 30}}),
		metaGet("a", "v", "f", "c", "t"),
		metaGet("b", "k", "q", "v"),
		metaSet("a", "mv\r\nx", server.SetOpt{Expiration: 9, CasValue: 77, Cas: true}, "T9", "C77"),
		metaSet("b", "", server.SetOpt{NoReply: true}, "q"),
		metaSet("c", "e", server.SetOpt{}, "ME"),
		textLine("mn", "mn", server.Request{Opcode: server.OpcodeNoop}),
		textLine("flush_all", "flush_all", server.Request{Opcode: server.OpcodeFlush}),
		textLine("version", "version", server.Request{Opcode: server.OpcodeVersion}),
	}
}

func binReps() []wire {
	return []wire{
		binKey(server.OpcodeGet, "a", 1), binKey(server.OpcodeGetKQ, "b", 0xdeadbeef),
		binStore(server.OpcodeSet, "a", 7, 100, "x\x80\x00\r\n", 3, 0), binStore(server.OpcodeSet, "a", 0, 0, "", 4, 99),
		binStore(server.OpcodeAdd, "b", 1<<32-1, 1, "v", 5, 0), binStore(server.OpcodeReplace, "c", 1, 2, "get a\r\n", 6, 0),
		binKey(server.OpcodeDelete, "a", 7), binArith(server.OpcodeIncrement, "n", 5, 1, 10, 8), binArith(server.OpcodeDecrement, "n", 1<<40, 0, 0xffffffff, 9),
		binTouch("a", 30, 10), binBare(server.OpcodeNoop, nil, 11), binBare(server.OpcodeVersion, nil, 12), binBare(server.OpcodeFlush, nil, 13), binBare(server.OpcodeFlush, be32(0), 14),
	}
}

// singles are all requests tried alone.
func singles(thorough bool) []wire {
	out := append(textReps(), binReps()...)
	flags := []uint32{0, 1, 1 << 31, 1<<31 - 1, 1<<32 - 1}
	exps := []int{0, 1, 60 * 60 * 24 * 30, 1_800_000_100, 1<<31 - 1, -1}
	for _, k := range srvKeys {
		out = append(out, textLine("get", "get "+k, server.Request{Opcode: server.OpcodeGet, Key: k}),
			textLine("gets", "gets "+k, server.Request{Opcode: server.OpcodeGet, Keys: []string{k}}),
			textLine("get", "get "+k+" x "+k, server.Request{Opcode: server.OpcodeGet, Keys: []string{k, "x", k}}),
			textLine("gets", "gets "+k+" x "+k, server.Request{Opcode: server.OpcodeGet, Keys: []string{k, "x", k}}),
			textLine("delete", "delete "+k, server.Request{Opcode: server.OpcodeDelete, Key: k, DelOpt: &server.DelOpt{}}),
			textLine("md", "md "+k, server.Request{Opcode: server.OpcodeDelete, Key: k, DelOpt: &server.DelOpt{Meta: true}}),
			metaGet(k, "v"), metaSet(k, "v", server.SetOpt{}))
		for _, d := range []uint64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1} {
			for _, c := range []string{"incr", "decr"} {
				op := map[string]server.Opcode{"incr": server.OpcodeIncrement, "decr": server.OpcodeDecrement}[c]
				out = append(out, textLine(c, fmt.Sprintf("%s %s %d", c, k, d), server.Request{Opcode: op, Key: k, Delta: int64(d)}), binArith(op, k, d, d, uint32(d), uint32(d)))
			}
		}
		for _, e := range exps {
			out = append(out, textLine("touch", fmt.Sprintf("touch %s %d", k, e), server.Request{Opcode: server.OpcodeTouch, Key: k, Delta: int64(e), SetOpt: &server.SetOpt{Expiration: e}}))
			out = append(out, metaSet(k, "vv", server.SetOpt{Expiration: e}, fmt.Sprintf("T%d", e)))
			if e >= 0 {
				out = append(out, binTouch(k, uint32(e), 5))
			}
		}
		for _, op := range []server.Opcode{server.OpcodeGet, server.OpcodeGetKQ, server.OpcodeDelete} {
			out = append(out, binKey(op, k, 0x01020304))
		}
	}
	for _, c := range []string{"set", "add", "replace"} {
		op := map[string]server.Opcode{"set": server.OpcodeSet, "add": server.OpcodeAdd, "replace": server.OpcodeReplace}[c]
		for _, f := range flags {
			for _, e := range exps {
				for _, v := range valueShapes {
					if len(v.val) > 1000 && (f > 1 || e > 0) {
						continue
					}
					out = append(out, textStore(c, "a", f, e, v.val))
					if e >= 0 {
						out = append(out, binStore(op, "a", f, uint32(e), v.val, f, uint64(f)))
						out = append(out, metaSet("a", v.val, server.SetOpt{Expiration: e, Flag: int32(f), Opaque: 5, Key: true}, fmt.Sprintf("T%d", e), fmt.Sprintf("F%d", f), "k", "O5"))
					}
				}
			}
		}
		for _, k := range srvKeys {
			out = append(out, textStore(c, k, 1, 2, "vvv"), binStore(op, k, 1, 2, "vvv", 3, 1<<63+5))
		}
		for _, n := range []int{4072, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 2<<20 + 5, 5 << 20, 1<<24 + 1} {
			if n > 5<<20 && c != "set" {
				continue
			}
			v := strings.Repeat("ab\r\n", n/4+1)[:n]
			out = append(out, textStore(c, "big", 1, 2, v), binStore(op, "big", 1, 2, v, 3, 0))
			if c == "set" {
				out = append(out, metaSet("big", v, server.SetOpt{Expiration: 5}, "T5"))
			}
		}
	}
	// lines longer than the buffer of the connection
	for _, n := range []int{4080, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 66000} {
		var keys []string
		for l := len("gets\r\n"); l < n; {
			k := strings.Repeat("k", 250)
			if n-l < 252 {
				k = k[:max(n-l-1, 1)]
			}
			keys = append(keys, k)
			l += 1 + len(k)
		}
		out = append(out, textLine("get", "get "+strings.Join(append([]string{"x"}, keys...), " "), server.Request{Opcode: server.OpcodeGet, Keys: append([]string{"x"}, keys...)}))
		out = append(out, textLine("gets", "gets "+strings.Join(keys, " "), server.Request{Opcode: server.OpcodeGet, Keys: keys}))
	}
	out = append(out, metaGet("key", "v", "O123", "k"), metaGet("key", "Okvq", "v"), metaGet("key", "t", "O"+strings.Repeat("7", 32), "f"))
	gf := []string{"v", "f", "k", "c", "t", "s", "q", "h", "l"}
	for i := range gf {
		out = append(out, metaGet("key", gf[i]))
		for j := range gf {
			if i != j {
				out = append(out, metaGet("key", gf[i], gf[j]))
			}
			for k := range gf {
				if i != j && j != k && i != k {
					out = append(out, metaGet("key", gf[i], gf[j], gf[k]))
				}
			}
		}
	}
	out = append(out, metaGet("key", "v", "f", "k", "c", "t", "s"), metaGet("key", "s", "t", "c", "k", "f", "v"))
	sets := []struct {
		tok string
		f   func(o *server.SetOpt)
	}{
		{"C18446744073709551615", func(o *server.SetOpt) { o.Cas, o.CasValue = true, 1<<64-1 }},
		{"F4294967295", func(o *server.SetOpt) { o.Flag = -1 }}, {"F12", func(o *server.SetOpt) { o.Flag = 12 }},
		{"I", func(o *server.SetOpt) { o.Invalidate = true }}, {"k", func(o *server.SetOpt) { o.Key = true }},
		{"O123456789012", func(o *server.SetOpt) { o.Opaque = 123456789012 }}, {"Okqv", func(o *server.SetOpt) {}}, {"q", func(o *server.SetOpt) { o.NoReply = true }},
		{"T86400", func(o *server.SetOpt) { o.Expiration = 86400 }}, {"MR", func(o *server.SetOpt) {}}, {"ME", func(o *server.SetOpt) {}}, {"MS", func(o *server.SetOpt) {}},
	}
	for _, a := range sets {
		for _, b := range sets {
			if a.tok[0] == b.tok[0] {
				continue
			}
			o := server.SetOpt{}
			a.f(&o)
			b.f(&o)
			out = append(out, metaSet("key", "some\r\nvalue", o, a.tok, b.tok))
		}
	}
	return out
}

func checkSeen(s *Srv, ws []wire) {
	if len(s.Reqs) != len(ws) {
		fail("%d requests were sent, the handler saw %d", len(ws), len(s.Reqs))
	}
	for i := range ws {
		if d := reqDiff(s.Reqs[i], &ws[i]); d != "" {
			fail("request %d (%q): %s", i+1, short(string(ws[i].bytes)), d)
		}
	}
}

func everyByte(b []byte) [][]byte {
	var o [][]byte
	for i := range b {
		o = append(o, b[i:i+1])
	}
	return o
}

func serveAll(ws []wire, chunks [][]byte) {
	s := newSrv()
	c := s.Open()
	c.Send(chunks...)
	checkSeen(s, ws)
	if d := replyDiff(ws, okAnswers(ws), c.Out); d != "" {
		fail("%s", d)
	}
	if c.C.Closed() {
		fail("the server closed the connection after %d valid requests", len(ws))
	}
	cx.Trans(len(ws))
	cx.State(fmt.Sprint(len(ws), ws[0].name, ws[len(ws)-1].name, hash(string(c.Out))))
	c.EOF()
	if !c.C.Closed() {
		fail("the server keeps its end of a connection the client has closed")
	}
	if n := vsched.Daemons(); n != 0 {
		fail("%d goroutines are left after the client closed the connection", n)
	}
	if s.Ended {
		fail("Serve ended: %v", s.EndErr)
	}
}

// shapedAnswers are plain successes, items without value and flags, misses, or failures.
func shapedAnswers(ws []wire, shape int) []ans {
	as := okAnswers(ws)
	for i := range as {
		switch {
		case shape == 3 && i%2 == 0:
			as[i] = ans{err: errors.New("handler failed")}
		case ws[i].want.Opcode != server.OpcodeGet:
		case shape == 1:
			for _, r := range as[i].res {
				r.Value, r.Flags, r.Cas, r.TTL = nil, nil, 0, 0
			}
		case shape == 2:
			as[i].res = []*server.Response{{Error: merrors.ItemNotFound}}
		}
	}
	return as
}

// serveSlowly sends the pieces with pauses between them and looks at the
// replies after each.
func serveSlowly(ws []wire, pieces [][]byte, d time.Duration, shape int) {
	s := newSrv()
	as := shapedAnswers(ws, shape)
	s.Ans = func(r *server.Request) ([]*server.Response, error) {
		if n := len(s.Reqs); n <= len(as) {
			return as[n-1].res, as[n-1].err
		}
		return okAnswer(r), nil
	}
	c := s.Open()
	sent := 0
	for i, p := range pieces {
		if i > 0 {
			vsched.Sleep(int64(d))
			// what was asked is answered by now, even behind half a request
			n, whole := 0, 0
			for n < len(ws) && whole+len(ws[n].bytes) <= sent {
				whole += len(ws[n].bytes)
				n++
			}
			if d := replyDiff(ws[:n], as[:n], c.Out); d != "" {
				fail("while the client pauses after %d bytes, of which %d are %d requests: %s", sent, whole, n, d)
			}
		}
		if c.Send(p); c.C.Closed() {
			fail("the server closed the connection of a client that paused for %v", d)
		}
		sent += len(p)
	}
	checkSeen(s, ws)
	if d := replyDiff(ws, as, c.Out); d != "" {
		fail("%s", d)
	}
	vsched.Sleep(int64(d))
	vsched.Idle()
	if c.C.Closed() {
		fail("the server closed the connection of a client that is silent for %v", d)
	}
	cx.Trans(len(ws))
	cx.State(fmt.Sprint(len(ws), ws[0].name, ws[1].name, hash(string(c.Out)), d))
	o := s.Open()
	o.Send([]byte("get z\r\n"))
	if string(o.Out) != "VALUE z 7 3\r\nv-z\r\nEND\r\n" {
		fail("another connection was answered %q", o.Out)
	}
}

// serveUnread: the client sends its requests at once and takes win bytes of
// the replies at a time, with pauses.
func serveUnread(ws []wire, d time.Duration, win int) {
	s := newSrv()
	c := s.Open()
	c.Full, c.Window = true, win
	c.Send(cat(ws))
	for i := 0; i < 4; i++ {
		vsched.Sleep(int64(d))
		vsched.Idle()
		if c.C.Closed() {
			fail("the server closed the connection of a client that did not read its replies for %v", d)
		}
		c.Window += win
		vsched.Idle()
	}
	c.Full = false
	vsched.Idle()
	checkSeen(s, ws)
	if d := replyDiff(ws, okAnswers(ws), c.Out); d != "" {
		fail("to a client that reads late: %s", d)
	}
	if c.C.Closed() {
		fail("the server closed the connection")
	}
	cx.Trans(len(ws))
	cx.State(fmt.Sprint(ws[0].name, ws[1].name, hash(string(c.Out)), d, win))
}

var pauseOpt = CaseOpt{Horizon: 10000 * 24 * time.Hour}

// serveMany sends n requests on one connection, w and in between others.
func serveMany(reps []wire, w wire, n int, piped bool) {
	s := newSrv()
	c := s.Open()
	for done := 0; done < n; {
		var ws []wire
		for len(ws) < 100 {
			if ws = append(ws, w); len(ws)%10 == 0 {
				ws = append(ws, reps[(done/100+len(ws)/10)%len(reps)])
			}
		}
		s.Reqs, c.Out = nil, nil
		if piped {
			c.Send(cat(ws))
		} else {
			for _, x := range ws {
				c.Send(x.bytes)
			}
		}
		checkSeen(s, ws)
		if d := replyDiff(ws, okAnswers(ws), c.Out); d != "" {
			fail("after %d requests on one connection: %s", done, d)
		}
		if c.C.Closed() {
			fail("the server closed the connection after %d valid requests", done+len(ws))
		}
		done += len(ws)
	}
	cx.Trans(n)
}

func okAnswers(ws []wire) []ans {
	a := make([]ans, len(ws))
	for i := range ws {
		a[i].res = okAnswer(&ws[i].want)
	}
	return a
}

func cat(ws []wire) []byte {
	var b []byte
	for _, w := range ws {
		b = append(b, w.bytes...)
	}
	return b
}

func c15(c *Ctx) {
	for i, w := range singles(c.Thorough()) {
		w := w
		c.Plain(fmt.Sprintf("one/%s/%d", w.name, i), func() { serveAll([]wire{w}, [][]byte{w.bytes}) })
		if len(w.bytes) < 3000 {
			c.Plain(fmt.Sprintf("bytes/%s/%d", w.name, i), func() { serveAll([]wire{w}, everyByte(w.bytes)) })
		} else {
			for _, at := range []int{1, 10, 24, 30, 31, 32, 33, 34, 35, 4090, 4095, 4096, 4097, len(w.bytes) - 2, len(w.bytes) - 1} {
				at := at
				c.Plain(fmt.Sprintf("cut/%s/%d/%d", w.name, i, at), func() { serveAll([]wire{w}, cutAt(w.bytes, at)) })
			}
		}
	}
	// keys of bytes the protocol does not allow: refused, or handed on as they are
	for b := 1; b < 256; b++ {
		if b == ' ' || b == '\n' {
			continue
		}
		for i, k := range []string{string([]byte{byte(b)}), "ab" + string([]byte{byte(b)}), string([]byte{byte(b)}) + "ab", "a" + string([]byte{byte(b)}) + "b"} {
			for _, f := range []string{"get %s\r\n", "get x %s\r\n", "gets %s\r\n", "gets %s y\r\n", "set %s 1 2 1\r\nv\r\n", "delete %s\r\n", "md %s\r\n", "incr %s 5\r\n", "touch %s 5\r\n", "mg %s v\r\n", "ms %s 1 T5\r\nv\r\n"} {
				in := fmt.Sprintf(f, k)
				c.Plain(fmt.Sprintf("odd/%02x/%d/%q", b, i, f), func() { hostile([][]byte{[]byte(in)}, -1, false) })
			}
			for _, w := range []wire{binKey(server.OpcodeGet, k, 7), binKey(server.OpcodeDelete, k, 7), binStore(server.OpcodeSet, k, 1, 2, "v", 7, 0), binTouch(k, 5, 7), binArith(server.OpcodeIncrement, k, 1, 2, 3, 7)} {
				w := w
				c.Plain(fmt.Sprintf("odd/%02x/%d/bin%x", b, i, w.op), func() { hostile([][]byte{w.bytes}, -1, false) })
			}
		}
	}
	for pi, reps := range [][]wire{textReps(), binReps()} {
		for i := range reps {
			for j := range reps {
				for k := range reps {
					ws := []wire{reps[i], reps[j], reps[k]}
					c.Plain(fmt.Sprintf("pipe/%d/%d.%d.%d", pi, i, j, k), func() { serveAll(ws, [][]byte{cat(ws)}) })
				}
			}
		}
		if c.Thorough() {
			seen := 0
			for i := range reps {
				for j := range reps {
					for k := range reps {
						for l := range reps {
							seen++
							ws := []wire{reps[i], reps[j], reps[k], reps[l]}
							c.Plain(fmt.Sprintf("pipe4/%d/%d.%d.%d.%d", pi, i, j, k, l), func() { serveAll(ws, [][]byte{cat(ws)}) })
						}
					}
				}
			}
		}
	}
}

// c07server: every segmentation with at most two cuts of every pipeline of two
// requests must give the same requests and the same replies.
func c07server(c *Ctx) {
	for pi, reps := range [][]wire{textReps(), binReps()} {
		for i := range reps {
			b := reps[i].bytes
			for x := 1; x < len(b); x++ {
				for y := x; y < len(b); y++ {
					x, y, w := x, y, reps[i]
					c.Plain(fmt.Sprintf("srv/%d/%d/%d.%d", pi, i, x, y), func() { serveAll([]wire{w}, cutAt(w.bytes, x, y)) })
				}
			}
			for j := range reps {
				ws := []wire{reps[i], reps[j]}
				all := cat(ws)
				c.Plain(fmt.Sprintf("srvbytes/%d/%d.%d", pi, i, j), func() { serveAll(ws, everyByte(all)) })
				for x := 1; x < len(all); x++ {
					x := x
					c.Plain(fmt.Sprintf("srvpair/%d/%d.%d/%d", pi, i, j, x), func() { serveAll(ws, cutAt(all, x)) })
				}
			}
		}
	}
}

// --- C16 ---

type ans struct {
	res []*server.Response
	err error
}

var otherErr = errors.New("backend is\r\nburning")

func answers(w *wire) []ans {
	nf, ex := error(merrors.ItemNotFound), error(merrors.ItemExists)
	o := []ans{{res: okAnswer(&w.want)}, {res: []*server.Response{{Error: otherErr}}},
		{res: []*server.Response{{Error: &merrors.MemcachedError{Status: 0x86, Message: "temporary"}}}}, {res: []*server.Response{{Error: nf}}}, {err: errors.New("handler failed")}}
	if w.want.Opcode == server.OpcodeGet {
		keys := w.want.Keys
		if keys == nil {
			keys = []string{w.want.Key}
		}
		o = append(o, ans{res: []*server.Response{}}, ans{res: nil})
		for _, v := range valueShapes {
			for fi, f := range flagShapes {
				if fi > 1 && len(v.val) > 5 {
					continue
				}
				o = append(o, ans{res: []*server.Response{{Key: keys[0], Value: []byte(v.val), Flags: f, Cas: -5, TTL: -1}}})
			}
		}
		for _, f := range []string{"", "\x01", "\x01\x02\x03", "\x01\x02\x03\x04\x05", "\x80\x00\x00\x01abcd", strings.Repeat("\x01", 256), strings.Repeat("\x02", 300)} {
			o = append(o, ans{res: []*server.Response{{Key: keys[0], Value: []byte("short"), Flags: []byte(f), Cas: 3, TTL: 0}}})
		}
		for _, t := range []int64{1, 60, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40} {
			o = append(o, ans{res: []*server.Response{{Key: keys[0], Value: []byte("ttl"), Cas: 1 << 40, TTL: t}}})
		}
		if len(keys) > 1 {
			a := &server.Response{Key: keys[0], Value: []byte("1"), Flags: []byte{0, 0, 0, 1}, Cas: 1}
			b := &server.Response{Key: keys[1], Value: []byte("END\r\n"), Cas: 1<<63 - 1}
			m := &server.Response{Key: keys[0], Error: nf}
			e := &server.Response{Key: keys[0], Error: otherErr}
			o = append(o, ans{res: []*server.Response{a, b}}, ans{res: []*server.Response{m, b}}, ans{res: []*server.Response{a, m}}, ans{res: []*server.Response{m, m}},
				ans{res: []*server.Response{e, b}}, ans{res: []*server.Response{a, e}}, ans{res: []*server.Response{b}})
		}
	} else {
		o = append(o, ans{res: []*server.Response{{Error: ex}}})
	}
	switch w.want.Opcode {
	case server.OpcodeIncrement, server.OpcodeDecrement:
		for _, v := range []string{"0", "18446744073709551615", "7   "} {
			if w.bin {
				v = (v + "        ")[:8]
			}
			o = append(o, ans{res: []*server.Response{{Value: []byte(v), Cas: 4}}})
		}
	case server.OpcodeVersion:
		o = append(o, ans{res: []*server.Response{{Value: []byte("VERSION")}}})
	case server.OpcodeSet, server.OpcodeAdd, server.OpcodeReplace, server.OpcodeDelete, server.OpcodeTouch:
		o = append(o, ans{res: []*server.Response{{Cas: 1234567890123}}})
	}
	return o
}

func flagNum(f []byte) uint32 {
	if len(f) < 4 {
		return 0
	}
	return uint32(f[0])<<24 | uint32(f[1])<<16 | uint32(f[2])<<8 | uint32(f[3])
}

func failing(w *wire, a ans) error {
	if a.err != nil {
		return a.err
	}
	for _, r := range a.res {
		if r.Error != nil && !(w.want.Opcode == server.OpcodeGet && r.Error == error(merrors.ItemNotFound)) {
			return r.Error
		}
	}
	return nil
}

// returned is what every reply to a meta request returns of its flags.
func returned(w *wire) string {
	s := ""
	for _, t := range w.toks {
		switch t[0] {
		case 'O':
			s += " " + t
		case 'k':
			s += " k" + w.want.Key
		}
	}
	return s
}

// textReply lists the replies allowed for one request.
func textReply(w *wire, a ans) []string {
	if err := failing(w, a); err != nil {
		nf, ex := err == error(merrors.ItemNotFound), err == error(merrors.ItemExists)
		switch w.cmd {
		case "set", "add", "replace":
			if nf || ex {
				return []string{"NOT_STORED\r\n", "NOT_FOUND\r\n", "EXISTS\r\n"}
			}
		case "ms":
			if nf {
				return []string{"NF" + returned(w) + "\r\n", "NS" + returned(w) + "\r\n"}
			}
			if ex {
				return []string{"EX" + returned(w) + "\r\n", "NS" + returned(w) + "\r\n"}
			}
		case "md":
			if nf {
				return []string{"NF\r\n"}
			}
			if ex {
				return []string{"EX\r\n"}
			}
		case "delete", "incr", "decr", "touch":
			if nf {
				return []string{"NOT_FOUND\r\n"}
			}
			if ex {
				return []string{"EXISTS\r\n", "SERVER_ERROR " + anyText + "\r\n"}
			}
		default:
			if nf || ex {
				return []string{"NOT_FOUND\r\n", "EXISTS\r\n", "SERVER_ERROR " + anyText + "\r\n"}
			}
		}
		return []string{"SERVER_ERROR " + anyText + "\r\n"}
	}
	switch w.cmd {
	case "get", "gets":
		var s strings.Builder
		for _, r := range a.res {
			if r.Error != nil {
				continue
			}
			cas := ""
			if w.cmd == "gets" {
				cas = fmt.Sprintf(" %d", uint64(r.Cas))
			}
			fmt.Fprintf(&s, "VALUE %s %d %d%s\r\n%s\r\n", r.Key, flagNum(r.Flags), len(r.Value), cas, r.Value)
		}
		return []string{s.String() + "END\r\n"}
	case "mg":
		if len(a.res) == 0 || a.res[0].Error != nil {
			if w.quiet {
				return []string{""}
			}
			return []string{"EN" + returned(w) + "\r\n"}
		}
		r := a.res[0]
		s, data := "HD", ""
		for _, t := range w.toks {
			if t == "v" {
				s, data = fmt.Sprintf("VA %d", len(r.Value)), string(r.Value)+"\r\n"
			}
		}
		for _, t := range w.toks {
			switch t[0] {
			case 'f':
				s += fmt.Sprintf(" f%d", flagNum(r.Flags))
			case 'c':
				s += fmt.Sprintf(" c%d", uint64(r.Cas))
			case 'k':
				s += " k" + w.want.Key
			case 's':
				s += fmt.Sprintf(" s%d", len(r.Value))
			case 't':
				s += fmt.Sprintf(" t%d", r.TTL)
			case 'O':
				s += " " + t
			}
		}
		return []string{s + "\r\n" + data}
	case "set", "add", "replace":
		return []string{"STORED\r\n"}
	case "ms":
		if w.quiet {
			return []string{""}
		}
		return []string{"HD" + returned(w) + "\r\n"}
	case "md":
		return []string{"HD\r\n"}
	case "delete":
		return []string{"DELETED\r\n"}
	case "incr", "decr", "version":
		return []string{string(a.res[0].Value) + "\r\n"}
	case "touch":
		return []string{"TOUCHED\r\n"}
	case "flush_all":
		return []string{"OK\r\n"}
	case "mn":
		return []string{"MN\r\n"}
	}
	panic("no reply for " + w.cmd)
}

// replyDiff compares everything the server wrote with the replies to ws.
func replyDiff(ws []wire, as []ans, out []byte) string {
	if len(ws) == 0 || ws[0].bin {
		return binReplyDiff(ws, as, out)
	}
	opts := []string{""}
	for i := range ws {
		opts = prefixAll(opts, textReply(&ws[i], as[i]))
	}
	for _, o := range opts {
		if matchText(string(out), o) {
			return ""
		}
	}
	return fmt.Sprintf("the server wrote %q, the replies are %q", short(string(out)), short(opts[0]))
}

func prefixAll(a, b []string) []string {
	var o []string
	for _, x := range a {
		for _, y := range b {
			o = append(o, x+y)
		}
	}
	return o
}

func binReplyDiff(ws []wire, as []ans, out []byte) string {
	fr, bad := frames(out)
	if bad != "" {
		return "the server wrote a malformed binary reply: " + bad
	}
	n := 0
	next := func() *frame {
		n++
		if n > len(fr) {
			return nil
		}
		return &fr[n-1]
	}
	for i := range ws {
		w, a := &ws[i], as[i]
		get := w.want.Opcode == server.OpcodeGet
		miss := get && a.err == nil && (len(a.res) == 0 || a.res[0].Error == error(merrors.ItemNotFound))
		if miss && w.quiet {
			continue
		}
		f := next()
		if f == nil {
			return fmt.Sprintf("request %d (opcode %#x) got no reply", i+1, w.op)
		}
		if f.op != w.op {
			return fmt.Sprintf("request %d: the reply has opcode %#x, the request %#x", i+1, f.op, w.op)
		}
		if f.opq != w.opq {
			return fmt.Sprintf("request %d: the reply has opaque %#x, the request %#x", i+1, f.opq, w.opq)
		}
		err := failing(w, a)
		if miss {
			err = merrors.ItemNotFound
		}
		if err != nil {
			switch {
			case err == error(merrors.ItemNotFound) && f.status != 1, err == error(merrors.ItemExists) && f.status != 2, f.status == 0,
				err != error(merrors.ItemNotFound) && f.status == 1, err != error(merrors.ItemExists) && f.status == 2:
				return fmt.Sprintf("request %d failed with %q, the reply has status %d", i+1, err, f.status)
			}
			if f.key != "" || f.ext != "" {
				return fmt.Sprintf("request %d: an error reply with key %q and extras %q", i+1, f.key, f.ext)
			}
			continue
		}
		r := a.res[0]
		if f.status != 0 {
			return fmt.Sprintf("request %d succeeded, the reply has status %d", i+1, f.status)
		}
		if f.cas != uint64(r.Cas) {
			return fmt.Sprintf("request %d: the reply has CAS %d, want %d", i+1, f.cas, uint64(r.Cas))
		}
		key, ext, val := "", "", string(r.Value)
		if get {
			ext = string(be32(flagNum(r.Flags)))
			if w.op == opGetKQ {
				key = r.Key
			}
		}
		if f.key != key || f.ext != ext || f.val != val {
			return fmt.Sprintf("request %d: the reply has key %q extras %x value %q, want %q %x %q", i+1, f.key, f.ext, short(f.val), key, ext, short(val))
		}
	}
	if n < len(fr) {
		return fmt.Sprintf("%d replies to %d requests; left over: opcode %#x status %d", len(fr), len(ws), fr[n].op, fr[n].status)
	}
	return ""
}

func c16(c *Ctx) {
	var all []wire
	for _, w := range singles(false) {
		// the reply depends on the value of a store or the flags only in C15's cases
		if (w.cmd == "set" || w.cmd == "add" || w.cmd == "replace" || w.cmd == "store" || w.cmd == "ms") && len(w.want.Value) > 40 {
			continue
		}
		all = append(all, w)
	}
	nt, nb := len(textReps()), len(binReps())
	for i, w := range all {
		as := answers(&w)
		reps := textReps()
		if w.bin {
			reps = binReps()
		}
		for ai := range as {
			follows := []int{(i + ai) % len(reps)}
			if i < nt+nb {
				follows = nil
				for k := range reps {
					follows = append(follows, k)
				}
			}
			for _, k := range follows {
				ws := []wire{w, reps[k]}
				a2 := []ans{as[ai], okAnswers(ws)[1]}
				c.Plain(fmt.Sprintf("reply/%s/%d/%d/%d", w.name, i, ai, k), func() { answerAll(ws, a2) })
			}
		}
	}
	// values and messages of every size, items in every number
	sizes := []int{9999, 16384, 32767, 65535, 65536, 99999, 1 << 17, 1 << 20, 1<<20 + 1, 5 << 20, 1<<24 + 1}
	for n := 0; n < 4200; n++ {
		if n < 130 || n > 3990 || c.Thorough() || n%101 == 0 {
			sizes = append(sizes, n)
		}
	}
	for _, n := range sizes {
		for gi, g := range []wire{textReps()[0], textReps()[1], metaGet("a", "v", "f", "c", "t"), metaGet("a", "s", "q", "k", "v"), metaGet("a", "t", "s"), binKey(server.OpcodeGet, "a", 1), binKey(server.OpcodeGetKQ, "a", 2)} {
			g, n := g, n
			c.Plain(fmt.Sprintf("size/%d/%d", gi, n), func() {
				val := []byte(strings.Repeat("ab\r\nEND\r\n.", n/10+1)[:n])
				ws := []wire{g, textReps()[0]}
				if g.bin {
					ws[1] = binReps()[0]
				}
				answerAll(ws, []ans{{res: []*server.Response{{Key: "a", Value: val, Flags: []byte{0, 0, 0, 1}, Cas: 5, TTL: 6}}}, okAnswers(ws)[1]})
			})
		}
		if n > 70000 {
			continue
		}
		for wi, w := range []wire{textReps()[0], textReps()[3], textReps()[8], metaSet("a", "v", server.SetOpt{}), binReps()[0], binReps()[2]} {
			w, n := w, n
			c.Plain(fmt.Sprintf("message/%d/%d", wi, n), func() {
				ws := []wire{w, textReps()[0]}
				if w.bin {
					ws[1] = binReps()[0]
				}
				answerAll(ws, []ans{{err: errors.New(strings.Repeat("bad\r\nEND\r\n", n/10+1)[:n])}, okAnswers(ws)[1]})
			})
		}
	}
	for _, n := range []int{2, 3, 10, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 5000, 20000} {
		for _, every := range []int{1, 2, 3, 99} {
			for _, cmd := range []string{"get", "gets"} {
				n, every, cmd := n, every, cmd
				c.Plain(fmt.Sprintf("items/%s/%d/%d", cmd, n, every), func() {
					line, want, a := cmd, server.Request{Opcode: server.OpcodeGet}, ans{}
					for i := 0; i < n; i++ {
						k := fmt.Sprintf("item%d", i)
						line += " " + k
						want.Keys = append(want.Keys, k)
						switch {
						case i%every == 0:
							a.res = append(a.res, &server.Response{Key: k, Value: []byte(fmt.Sprint("v\r\n", i)), Flags: be32(uint32(i)), Cas: int64(i)})
						case i%2 == 0:
							a.res = append(a.res, &server.Response{Key: k, Error: merrors.ItemNotFound})
						}
					}
					ws := []wire{textLine(cmd, line, want), textReps()[0]}
					answerAll(ws, []ans{a, okAnswers(ws)[1]})
				})
			}
		}
	}
	// two failures in a row, and every pair of answers
	for pi, reps := range [][]wire{textReps(), binReps()} {
		for i := range reps {
			for j := range reps {
				ai, aj := answers(&reps[i]), answers(&reps[j])
				if !c.Thorough() {
					ai, aj = trim(ai), trim(aj)
				}
				for x := range ai {
					for y := range aj {
						ws := []wire{reps[i], reps[j], reps[0]}
						as := []ans{ai[x], aj[y], okAnswers(ws)[2]}
						c.Plain(fmt.Sprintf("pair/%d/%d.%d/%d.%d", pi, i, j, x, y), func() { answerAll(ws, as) })
					}
				}
			}
		}
	}
	// pauses between and within requests
	for pi, reps := range [][]wire{textReps(), binReps()} {
		for i := range reps {
			for j := range reps {
				ws := []wire{reps[i], reps[j]}
				all := cat(ws)
				for di, d := range []time.Duration{3 * time.Second, 31 * time.Second, 6 * time.Minute, 5 * time.Hour, 400 * 24 * time.Hour} {
					di, d := di, d
					c.Case(fmt.Sprintf("pause/%d/%d.%d/%v/between", pi, i, j, d), pauseOpt, func() { serveSlowly(ws, [][]byte{nil, ws[0].bytes, ws[1].bytes}, d, (i+j)%4) })
					for x := 1; x < len(all); x++ {
						if x > 3 && x%9 != (i+j)%9 && x != len(ws[0].bytes)-1 && x != len(ws[0].bytes)+1 && x < len(all)-2 && !c.Thorough() {
							continue
						}
						x := x
						c.Case(fmt.Sprintf("pause/%d/%d.%d/%v/%d", pi, i, j, d, x), pauseOpt, func() { serveSlowly(ws, cutAt(all, x), d, (x+di)%4) })
					}
					// the client reads late
					for _, win := range []int{0, 1, 7, 23, 24, 40} {
						if win > 1 && (win+i+j)%3 != 0 && !c.Thorough() {
							continue
						}
						win := win
						c.Case(fmt.Sprintf("unread/%d/%d.%d/%v/%d", pi, i, j, d, win), pauseOpt, func() { serveUnread([]wire{ws[0], ws[1], reps[0]}, d, win) })
					}
				}
			}
			w := reps[i]
			for _, n := range []int{300, 1500, 20000, 140000} {
				if n > 20000 && !c.Thorough() && i%4 != 0 {
					continue
				}
				for _, how := range []string{"piped", "turns"} {
					n, how := n, how
					c.Case(fmt.Sprintf("many/%d/%d/%d/%s", pi, i, n, how), CaseOpt{}, func() { serveMany(reps, w, n, how == "piped") })
				}
			}
		}
	}
	// keys that are too long for memcached but not for a binary header: refused
	// or answered, the framing of the replies stays right
	for _, op := range []server.Opcode{server.OpcodeGet, server.OpcodeGetKQ, server.OpcodeDelete} {
		for _, n := range []int{251, 255, 256, 257, 300, 511, 512, 65535} {
			op, n := op, n
			c.Plain(fmt.Sprintf("longkey/%d/%d", op, n), func() {
				s, key := newSrv(), strings.Repeat("k", n)
				x := s.Open()
				x.Send(binKey(op, key, 77).bytes)
				x.Send(binBare(server.OpcodeNoop, nil, 78).bytes)
				fr, bad := frames(x.Out)
				if bad != "" || len(fr) > 2 || len(fr) < 2 && !x.C.Closed() {
					fail("a key of %d bytes: the replies are %d frames, closed: %v, %s", n, len(fr), x.C.Closed(), bad)
				}
				for i, f := range fr {
					if f.opq != uint32(77+i) {
						fail("a key of %d bytes: reply %d has opaque %d", n, i+1, f.opq)
					}
					if i == 0 && f.status == 0 && op != server.OpcodeDelete && (f.val != "v-"+key || f.key != "" && f.key != key) {
						fail("a key of %d bytes was answered with a key of %d bytes and a value of %d", n, len(f.key), len(f.val))
					}
				}
			})
		}
	}
	// the listener: errors end Serve, which closes it
	c.Plain("listen/addr", func() {
		l := vnet.NewListener()
		var asked []string
		vnet.ListenHook = func(n, a string) (net.Listener, error) { asked = append(asked, n+" "+a); return l, nil }
		defer func() { vnet.ListenHook = nil }()
		s := &server.Server{Addr: "127.0.0.1:9999", Handler: &Srv{}}
		var err error
		h := vsched.GoNamed("serve", func() { err = s.ListenAndServe() })
		vsched.Idle()
		if h.Done() || len(asked) != 1 || asked[0] != "tcp 127.0.0.1:9999" {
			fail("ListenAndServe of 127.0.0.1:9999 listened on %q (ended %v)", asked, h.Done())
		}
		want := errors.New("accept failed")
		l.Fail(want)
		h.Join()
		if !errors.Is(err, want) || !l.IsClosed() {
			fail("after the listener failed ListenAndServe returned %v, listener closed %v", err, l.IsClosed())
		}
	})
	c.Plain("listen/fail", func() {
		want := errors.New("in use")
		vnet.ListenHook = func(n, a string) (net.Listener, error) { return nil, want }
		defer func() { vnet.ListenHook = nil }()
		if err := (&server.Server{Addr: ":1", Handler: &Srv{}}).ListenAndServe(); !errors.Is(err, want) {
			fail("ListenAndServe returned %v when the address was in use", err)
		}
	})
}

func trim(a []ans) []ans {
	if len(a) > 9 {
		return append(append([]ans(nil), a[:7]...), a[len(a)-2:]...)
	}
	return a
}

func answerAll(ws []wire, as []ans) {
	s := newSrv()
	n := 0
	s.Ans = func(r *server.Request) ([]*server.Response, error) {
		n++
		if n > len(as) {
			return okAnswer(r), nil
		}
		return as[n-1].res, as[n-1].err
	}
	c := s.Open()
	c.Send(cat(ws))
	if d := replyDiff(ws, as, c.Out); d != "" {
		fail("%s", d)
	}
	if c.C.Closed() {
		fail("the server closed the connection although every request had an answer")
	}
	checkSeen(s, ws)
	cx.Trans(len(ws))
	cx.State(fmt.Sprint(ws[0].name, hash(string(c.Out))))
	// the replies do not depend on how the requests arrive
	if s.Ended {
		fail("Serve ended: %v", s.EndErr)
	}
	s.Ans = nil
	o := s.Open()
	o.Send([]byte("get z\r\n"))
	if string(o.Out) != "VALUE z 7 3\r\nv-z\r\nEND\r\n" {
		fail("another connection was answered %q", o.Out)
	}
}

// --- C17 ---

const memLimit = 3 << 20

// hostile sends b (in chunks) on one connection of a server that also serves
// another one, closes it, and checks that nothing else happened. complete is
// how many requests b holds, or -1 when that is not known.
func hostile(b [][]byte, complete int, wantRefused bool) {
	s := newSrv()
	good := s.Open()
	good.Send([]byte("get before\r\n"))
	bad := s.Open()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	pre := len(s.Reqs)
	bad.Send(b...)
	if wantRefused {
		if len(s.Reqs) != pre {
			fail("the malformed request %q reached the handler as %+v", short(string(join(b))), *s.Reqs[pre])
		}
		if !bad.C.Closed() && len(bad.Out) == 0 {
			// neither an answer nor the end of the connection: it must be waiting for more
			bad.Send([]byte("\r\n"), []byte("\r\n"))
			if len(s.Reqs) != pre {
				fail("the malformed request %q reached the handler as %+v", short(string(join(b))), *s.Reqs[pre])
			}
			if !bad.C.Closed() && len(bad.Out) == 0 {
				fail("the malformed request %q was neither answered nor was the connection closed", short(string(join(b))))
			}
		}
		if !bad.C.Closed() && join(b)[0] != 0x80 && !strings.Contains(string(join(b)), "9999999") {
			// it must be usable then
			bad.Out = nil
			bad.Send([]byte("\r\n"))
			bad.Send([]byte("get probe\r\n"))
			if !bad.C.Closed() && !strings.HasSuffix(string(bad.Out), "VALUE probe 7 7\r\nv-probe\r\nEND\r\n") {
				fail("after the malformed request %q was answered a valid one was answered %q", short(string(join(b))), bad.Out)
			}
			pre = len(s.Reqs)
		}
	}
	bad.EOF()
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > memLimit+256*uint64(len(join(b))) {
		fail("%d bytes of input made the server allocate %d MB", len(join(b)), d>>20)
	}
	if !bad.C.Closed() {
		fail("the connection that sent %q and ended was not closed", short(string(join(b))))
	}
	if complete >= 0 && len(s.Reqs)-pre != complete {
		fail("%q holds %d complete requests, the handler saw %d", short(string(join(b))), complete, len(s.Reqs)-pre)
	}
	for _, r := range s.Reqs[pre:] {
		if r == nil {
			fail("the handler was called without a request")
		}
	}
	if !wantRefused {
		asParsed(join(b), s.Reqs[pre:], bad.Out)
	}
	if s.Ended {
		fail("Serve ended: %v", s.EndErr)
	}
	good.Send([]byte("get after\r\n"))
	if string(good.Out) != "VALUE before 7 8\r\nv-before\r\nEND\r\nVALUE after 7 7\r\nv-after\r\nEND\r\n" {
		fail("the other connection was answered %q", good.Out)
	}
	n := s.Open()
	n.Send([]byte("version\r\n"))
	if string(n.Out) != "VERSION 1.2.3\r\n" {
		fail("a new connection was answered %q", n.Out)
	}
	if d := vsched.Daemons(); d != 2 {
		fail("%d connections are open, %d goroutines are running", 2, d)
	}
	cx.Trans(1)
	cx.State(fmt.Sprint(len(s.Reqs), len(bad.Out), hash(string(bad.Out))))
}

func join(b [][]byte) []byte {
	var o []byte
	for _, x := range b {
		o = append(o, x...)
	}
	return o
}

// illegal requests: none may reach the handler.
func illegal() []string {
	o := []string{"\r\n", "\n", " \r\n", "foo\r\n", "get\r\n", "set\r\n", "set a\r\n", "set a 0 0\r\n", "set a 0 0 x\r\nv\r\n", "set a x 0 1\r\nv\r\n", "set a 0 x 1\r\nv\r\n",
		"set a 0 0 -1\r\n\r\n", "set a 0 0 -2\r\n", "set a 0 0 -3\r\n", "set a 0 0 -2147483648\r\n", "set a 0 0 99999999999999999999\r\n", "set a -1 0 1\r\nv\r\n", "set a 4294967296 0 1\r\nv\r\n",
		"set a 0 0 1\r\nvvv", "set a 0 0 1\r\nvx\n", "add a 0 0 1\r\nv\rx", "replace a 0 0 1\r\nv\n\n", "set a 0 0 1\r\nv\n\r", "ms a 1\r\nvx\n", "ms a 1\r\nv\rx", "ms a 1\r\nv\n\n", "set a 0 0 0\r\nx\n", "flush_all 100\r\n", "flush_all -1\r\n", "flush_all noreply\r\n", "set a 0 0 3\r\nv\r\nget b\r\n", "set a 0 0 0\r\nxx", "add a 0 0 -1\r\n\r\n", "replace a 0 0 -1\r\n\r\n",
		"delete\r\n", "md\r\n", "incr a\r\n", "incr a x\r\n", "incr a -1\r\n", "decr a 18446744073709551616\r\n", "incr\r\n", "touch a\r\n", "touch a x\r\n", "mg\r\n", "ms\r\n", "ms a\r\n", "ms a x\r\nv\r\n", "ms a -1\r\n",
		"ms a 1 Cx\r\nv\r\n", "ms a 1 Fx\r\nv\r\n", "ms a 1 Tx\r\nv\r\n", "ms a 1 S-1\r\n\r\n", "ms a 1 S-5\r\nv\r\n", "ms a 1 C\r\nv\r\n", "ms a 1 MA\r\nv\r\n", "ms a 1\r\nvvv", "ms a 99999999999\r\n",
		"\x81\x00\x00\x01" + strings.Repeat("\x00", 20) + "a", "GET a\r\n"}
	bh := func(op byte, kl, el int, body uint32, rest string) string {
		b := binReq(op, "", nil, nil, 1, 0)
		b[2], b[3], b[4] = byte(kl>>8), byte(kl), byte(el)
		copy(b[8:], be32(body))
		return string(b) + rest
	}
	for _, op := range []byte{0, 1, 2, 3, 4, 5, 6, 0x0d, 0x1c} {
		o = append(o, bh(op, 10, 0, 1, strings.Repeat("k", 1)), bh(op, 0xffff, 0, 0, ""), bh(op, 1, 0xff, 1, "k"), bh(op, 3, 8, 2, "xx"))
	}
	for _, op := range []byte{1, 2, 3} {
		for el := 0; el < 8; el++ {
			o = append(o, bh(op, 1, el, uint32(1+el), strings.Repeat("\x00", el)+"k"))
		}
		o = append(o, bh(op, 5, 8, 10, strings.Repeat("k", 10)))
	}
	for _, op := range []byte{5, 6} {
		for el := 0; el < 20; el++ {
			o = append(o, bh(op, 1, el, uint32(1+el), strings.Repeat("\x00", el)+"k"))
		}
	}
	for el := 0; el < 4; el++ {
		o = append(o, bh(0x1c, 1, el, uint32(1+el), strings.Repeat("\x00", el)+"k"))
	}
	for _, op := range []byte{0x07, 0x0c, 0x0e, 0x0f, 0x11, 0x20, 0x7f, 0xff} {
		o = append(o, bh(op, 0, 0, 0, ""))
	}
	return o
}

func c17(c *Ctx) {
	for i, x := range illegal() {
		x := x
		c.Plain(fmt.Sprintf("illegal/%d/whole", i), func() { hostile([][]byte{[]byte(x)}, 0, true) })
		c.Plain(fmt.Sprintf("illegal/%d/bytes", i), func() { hostile(everyByte([]byte(x)), 0, true) })
		// after valid requests on the same connection
		for j, w := range append(textReps(), binReps()...) {
			if w.bin != (x[0] == '\x80') {
				continue
			}
			w := w
			c.Plain(fmt.Sprintf("illegal/%d/after%d", i, j), func() { hostile([][]byte{w.bytes, []byte(x)}, 1, false) })
		}
	}
	reps := append(textReps(), binReps()...)
	for i, w := range reps {
		w := w
		// every truncation: the handler never sees what did not arrive
		for n := 0; n < len(w.bytes); n++ {
			n := n
			c.Plain(fmt.Sprintf("trunc/%d/%d", i, n), func() { hostile([][]byte{w.bytes[:n]}, 0, false) })
			for j, v := range reps {
				if v.bin == w.bin {
					v := v
					c.Plain(fmt.Sprintf("trunc2/%d/%d/%d", i, n, j), func() { hostile([][]byte{v.bytes, w.bytes[:n]}, 1, false) })
				}
			}
		}
		// every substitution, deletion, insertion
		subs := []byte{0, 1, '\t', '\v', ' ', '\r', '\n', '0', '9', '-', 'A', 'k', 0x7f, 0x80, 0x81, 0xff}
		if c.Thorough() {
			subs = nil
			for b := 0; b < 256; b++ {
				subs = append(subs, byte(b))
			}
		}
		for n := 0; n < len(w.bytes); n++ {
			n := n
			del := append(append([]byte(nil), w.bytes[:n]...), w.bytes[n+1:]...)
			c.Plain(fmt.Sprintf("del/%d/%d", i, n), func() { hostile([][]byte{del}, -1, false) })
			for _, b := range subs {
				sub := append([]byte(nil), w.bytes...)
				sub[n] = b
				c.Plain(fmt.Sprintf("sub/%d/%d/%02x", i, n, b), func() { hostile([][]byte{sub, w.bytes}, -1, false) })
				ins := append(append(append([]byte(nil), w.bytes[:n]...), b), w.bytes[n:]...)
				c.Plain(fmt.Sprintf("ins/%d/%d/%02x", i, n, b), func() { hostile([][]byte{ins}, -1, false) })
			}
		}
		// every pair of header bytes of binary requests
		if w.bin {
			vals := []byte{0, 1, 8, 0x7f, 0x80, 0xff}
			pos := []int{2, 3, 4, 8, 9, 10, 11}
			for x, p := range pos {
				for _, q := range pos[x+1:] {
					for _, a := range vals {
						for _, b := range vals {
							m := append([]byte(nil), w.bytes...)
							m[p], m[q] = a, b
							c.Plain(fmt.Sprintf("hdr/%d/%d.%d/%02x%02x", i, p, q, a, b), func() { hostile([][]byte{m}, -1, false) })
						}
					}
				}
			}
		}
	}
	// every line of up to three arguments, and what follows it
	args := []string{"a", "0", "1", "-1", "", "k\t", "noreply", "01", "4294967296", "C7", "F1", "T5", "I", "k", "q", "v", "t", "f", "O1", "ME", "MX", "S1", "cas"}
	cmds := []string{"get", "gets", "set", "add", "replace", "delete", "md", "incr", "decr", "touch", "mg", "ms", "mn", "flush_all", "version", "", "cas", "GET", "append", "gat", "ma", "me", "stats", "quit", "shutdown", "verbosity"}
	for _, cmd := range cmds {
		for n := 0; n <= 4; n++ {
			as := args
			store := cmd == "set" || cmd == "add" || cmd == "replace" || cmd == "ms"
			if n == 4 {
				if !store && !c.Thorough() {
					continue
				}
				as = []string{"a", "0", "1", "-1", "T5", "x"}
			}
			words(as, n, func(ws []string) {
				line := strings.Join(append([]string{cmd}, ws...), " ")
				c.Plain(fmt.Sprintf("tokens/%q", line), func() { hostile([][]byte{[]byte(line + "\r\nx\r\nget zz\r\n")}, -1, false) })
			})
		}
	}
	// every binary header of small lengths
	for op := 0; op < 0x24; op++ {
		for _, kl := range []int{0, 1, 2, 251} {
			for _, el := range []int{0, 1, 4, 8, 20, 21} {
				for _, more := range []int{-1, 0, 1, 3} {
					for _, rest := range [][2]byte{{0, 0}, {0, 5}, {1, 0}} {
						if kl+el+more < 0 {
							continue
						}
						b := binReq(byte(op), "", nil, nil, 7, uint64(rest[1]))
						b[2], b[3], b[4], b[5] = byte(kl>>8), byte(kl), byte(el), rest[0]
						copy(b[8:], be32(uint32(kl+el+more)))
						for i := 0; i < kl+el+more; i++ {
							b = append(b, byte('a'+i%26))
						}
						b = append(b, binBare(server.OpcodeNoop, nil, 78).bytes...)
						c.Plain(fmt.Sprintf("header/%02x/%d/%d/%d/%v", op, kl, el, more, rest), func() { hostile([][]byte{b}, -1, false) })
					}
				}
			}
		}
	}
	// announced sizes
	for _, n := range []string{"1", "100", "1048576", "4194303", "8388607", "16777215", "33554432", "67108863", "100000000", "1000000000", "2147483645", "2147483646", "2147483647", "4294967295"} {
		for _, f := range []string{"set a 0 0 %s\r\n", "add a 0 0 %s\r\nabc", "replace a 0 0 %s\r\n", "ms a %s\r\n", "ms a 1 S%s\r\n", "ms a %s T0\r\nabc"} {
			in := fmt.Sprintf(f, n)
			if n == "1" && strings.Contains(f, "abc") {
				continue // that much did arrive
			}
			c.Plain("size/"+strings.ReplaceAll(fmt.Sprintf("%q", in), " ", "_"), func() { hostile([][]byte{[]byte(in)}, 0, false) })
		}
	}
	for _, op := range []byte{0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 13, 0x1c} {
		for _, tl := range []uint32{1 << 20, 1<<22 - 1, 1<<23 - 1, 1<<24 - 1, 1 << 25, 1<<26 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			for _, kl := range []uint16{0, 1, 0xffff} {
				for _, el := range []byte{0, 4, 8, 20, 255} {
					b := binReq(op, "", nil, nil, 1, 0)
					copy(b[8:], be32(tl))
					b[2], b[3], b[4] = byte(kl>>8), byte(kl), el
					b = append(b, strings.Repeat("k", 300)...)
					c.Plain(fmt.Sprintf("binsize/%d/%d/%d/%d", op, tl, kl, el), func() { hostile([][]byte{b}, -1, false) })
				}
			}
		}
	}
	// long lines
	for _, n := range []int{4095, 4096, 4097, 10000, 100000} {
		n := n
		c.Plain(fmt.Sprintf("line/%d", n), func() { hostile([][]byte{[]byte("get " + strings.Repeat("k", n))}, 0, false) })
		c.Plain(fmt.Sprintf("gets/%d", n), func() { hostile([][]byte{[]byte("gets" + strings.Repeat(" k", n) + "\r\n")}, 1, false) })
		c.Plain(fmt.Sprintf("spaces/%d", n), func() { hostile([][]byte{[]byte("ms a 1" + strings.Repeat(" ", n) + "\r\nv\r\n")}, -1, false) })
	}
}

// words calls f with every sequence of n of the words.
func words(ws []string, n int, f func([]string)) {
	if n == 0 {
		f(nil)
		return
	}
	for _, w := range ws {
		words(ws, n-1, func(rest []string) { f(append([]string{w}, rest...)) })
	}
}

// --- C18 ---

// afterLine is s behind its first line.
// serveNext serves a connection until it ends with end, and then others.
func serveNext(a, b wire, end string) {
	s := newSrv()
	// served sends w alone on a connection and checks what comes of it
	served := func(x *SC, w wire) {
		from := len(x.Out)
		n := len(s.Reqs)
		x.Send(w.bytes)
		if len(s.Reqs) != n+1 {
			fail("the handler saw %d requests after %q, want 1", len(s.Reqs)-n, short(string(w.bytes)))
		}
		if d := reqDiff(s.Reqs[n], &w); d != "" {
			fail("%q: %s", short(string(w.bytes)), d)
		}
		if d := replyDiff([]wire{w}, okAnswers([]wire{w}), x.Out[from:]); d != "" {
			fail("after a connection that ended (%s) %q: %s", end, short(string(w.bytes)), d)
		}
		cx.Trans(1)
	}
	first, other := s.Open(), s.Open()
	served(first, a)
	switch end {
	case "eof":
		first.EOF()
	case "rst":
		first.C.DeliverEOF(syscall.ECONNRESET)
		vsched.Idle()
	case "part":
		first.Send(a.bytes[:len(a.bytes)-1])
		first.EOF()
	case "bogus":
		if a.bin {
			first.Send(make([]byte, 24))
		} else {
			first.Send([]byte("bogus\r\n"))
		}
		first.EOF()
	case "handler":
		s.Ans = func(*server.Request) ([]*server.Response, error) { return nil, errors.New("handler failed") }
		first.Send(a.bytes)
		s.Ans = nil
		first.EOF()
	case "unsent":
		first.WriteErr = syscall.EPIPE
		first.Send(a.bytes)
		first.EOF()
	}
	next := s.Open()
	served(next, b)
	served(other, a)
	served(next, b)
	last := s.Open()
	served(last, b)
	if end == "none" {
		served(first, a)
	} else if !first.C.Closed() {
		fail("a connection that ended (%s) was not closed", end)
	}
	served(last, b)
	if next.C.Closed() || other.C.Closed() || last.C.Closed() || s.Ended {
		fail("a connection was closed because another one ended (%s)", end)
	}
}

func afterLine(s string) string { return s[strings.Index(s, "\n")+1:] }

func c18(c *Ctx) {
	type plan struct {
		name string
		bin  bool
	}
	reply := func(k string) string { return fmt.Sprintf("VALUE %s 7 %d\r\nv-%s\r\nEND\r\n", k, len(k)+2, k) }
	// n connections, each a pipeline of m requests delivered by its own thread
	for _, n := range []int{2, 3} {
		for _, m := range []int{1, 2} {
			for _, fault := range []string{"none", "eof", "rst", "write", "handler", "garbage", "stall", "panicfree", "silent", "magic"} {
				for at := 0; at <= m; at++ {
					if (fault == "none" || fault == "write" || fault == "panicfree" || fault == "silent" || fault == "magic") && at > 0 {
						continue
					}
					if fault == "handler" && at == m {
						continue
					}
					n, m, fault, at := n, m, fault, at
					bound := 5 - n + c.Pick(0, 1)
					body := func() {
						s := newSrv()
						s.Ans = func(r *server.Request) ([]*server.Response, error) {
							vsched.Point("handler")
							key := r.Key
							vsched.Point("handler2")
							if fault == "handler" && key == fmt.Sprintf("c0r%d", at) {
								return nil, errors.New("handler failed")
							}
							if r.Key != key {
								fail("the request of a handler changed under it: %q became %q", key, r.Key)
							}
							return okAnswer(r), nil
						}
						cs := make([]*SC, n)
						var hs []*vsched.Handle
						for i := 0; i < n; i++ {
							i := i
							cs[i] = s.Open()
							if i == 0 && fault == "write" {
								cs[i].WriteErr = syscall.EPIPE
							}
							hs = append(hs, vsched.GoNamed(fmt.Sprintf("client%d", i), func() {
								for r := 0; r <= m; r++ {
									if i == 0 && r == at {
										switch fault {
										case "eof":
											cs[i].C.DeliverEOF(io.EOF)
										case "rst":
											cs[i].C.DeliverEOF(syscall.ECONNRESET)
										case "garbage":
											cs[i].C.Deliver([]byte("bogus\r\n"))
										case "silent":
											return
										case "magic":
											cs[i].C.Deliver([]byte{0x80})
											return
										case "stall":
											cs[i].C.Deliver([]byte("set x 0 0 10\r\nabc"))
											return
										}
									}
									if r < m {
										cs[i].C.Deliver([]byte(fmt.Sprintf("get c%dr%d\r\n", i, r)))
										vsched.Point("sent")
									}
								}
							}))
						}
						for _, h := range hs {
							h.Join()
						}
						vsched.Idle()
						for i := range cs {
							all, some := "", []string{""}
							for r := 0; r < m; r++ {
								if i == 0 && fault == "handler" && r == at {
									all += "SERVER_ERROR handler failed\r\n"
								} else {
									all += reply(fmt.Sprintf("c%dr%d", i, r))
								}
								some = append(some, all)
							}
							if i == 0 && fault == "handler" {
								if e := strings.Index(string(cs[i].Out), "SERVER_ERROR"); e < 0 || e != strings.Index(all, "SERVER_ERROR") || string(cs[i].Out)[:e] != all[:e] || !strings.HasSuffix(string(cs[i].Out), afterLine(all[e:])) {
									fail("the connection of the failing request was sent %q", cs[i].Out)
								}
							} else if i == 0 && fault != "none" && fault != "panicfree" {
								ok := false
								for _, x := range some {
									ok = ok || x == string(cs[i].Out)
								}
								if !ok {
									fail("the failing connection was sent %q", cs[i].Out)
								}
								if fault != "stall" && fault != "silent" && fault != "magic" && !cs[i].C.Closed() {
									fail("the failing connection (%s) was not closed", fault)
								}
								continue
							}
							if string(cs[i].Out) != all {
								fail("connection %d was answered %q, want %q", i, cs[i].Out, all)
							}
							if cs[i].C.Closed() {
								fail("the server closed connection %d because of another one", i)
							}
						}
						if s.Ended {
							fail("Serve ended: %v", s.EndErr)
						}
						vsched.Observe("%d", len(s.Reqs))
						cx.Trans(len(s.Reqs))
					}
					c.Case(fmt.Sprintf("conns/%d/%d/%s/%d", n, m, fault, at), CaseOpt{Preempt: true, Delay: true, Race: true, Bound: bound, Split: true}, body)
					// any statement as the point of a switch
					if n == 2 || c.Thorough() {
						c.Case(fmt.Sprintf("stmt/%d/%d/%s/%d", n, m, fault, at), CaseOpt{Preempt: true, Delay: true, Stmts: true, Bound: c.Pick(1, 2), Split: true}, body)
					}
				}
			}
		}
	}
	// stores on several connections at once: values must not mix
	for _, bin := range []bool{false, true} {
		bin := bin
		c.Case(fmt.Sprintf("stores/%v", bin), CaseOpt{Preempt: true, Race: true, Delay: true, Bound: c.Pick(3, 4), Split: true}, func() {
			s := newSrv()
			got := map[string]string{}
			s.Ans = func(r *server.Request) ([]*server.Response, error) {
				vsched.Point("handler")
				got[r.Key] = string(r.Value) + fmt.Sprintf("/%x/%d", r.Flags, r.SetOpt.Expiration)
				return okAnswer(r), nil
			}
			cs := []*SC{s.Open(), s.Open(), s.Open()}
			want := map[string]string{}
			for i, x := range cs {
				k, v := fmt.Sprintf("key%d", i), strings.Repeat(string(rune('a'+i)), 3+i)
				want[k] = fmt.Sprintf("%s/%08x/%d", v, i+1, i+10)
				var w wire
				if bin {
					w = binStore(server.OpcodeSet, k, uint32(i+1), uint32(i+10), v, uint32(i+100), 0)
				} else {
					w = textStore("set", k, uint32(i+1), i+10, v)
				}
				x.C.Deliver(w.bytes[:len(w.bytes)/2])
				x.C.Deliver(w.bytes[len(w.bytes)/2:])
			}
			vsched.Idle()
			for k, v := range want {
				if got[k] != v {
					fail("%s was stored as %q, want %q", k, got[k], v)
				}
			}
			for i, x := range cs {
				if bin {
					fr, bad := frames(x.Out)
					if bad != "" || len(fr) != 1 || fr[0].opq != uint32(i+100) || fr[0].status != 0 {
						fail("connection %d was answered %q", i, x.Out)
					}
				} else if string(x.Out) != "STORED\r\n" {
					fail("connection %d was answered %q", i, x.Out)
				}
			}
		})
	}
	// connections one after the other: nothing of an ended one is left
	reps := append(textReps(), binReps()...)
	for i := range reps {
		for j := range reps {
			for _, end := range []string{"eof", "rst", "part", "bogus", "handler", "unsent", "none"} {
				i, j, end := i, j, end
				c.Plain(fmt.Sprintf("next/%d.%d/%s", i, j, end), func() { serveNext(reps[i], reps[j], end) })
			}
		}
	}
	// more connections than the process has descriptors for: Accept fails for a
	// while, and those who are connected and those who come later are served
	for _, bin := range []bool{false, true} {
		for _, n := range []int{1, 2, 7, 300, 1500} {
			for _, err := range []syscall.Errno{syscall.EMFILE, syscall.ENFILE} {
				bin, n, err := bin, n, err
				c.Case(fmt.Sprintf("full/%v/%d/%d", bin, n, err), CaseOpt{Preempt: true, Delay: true, Bound: map[bool]int{true: 3, false: 1}[n < 3]}, func() {
					s := newSrv()
					q := []byte("get k\r\n")
					if bin {
						q = binKey(server.OpcodeGet, "k", 9).bytes
					}
					a := s.Open()
					a.C.Deliver(q)
					vsched.Idle()
					one := string(a.Out)
					s.L.FailNext(n, err)
					b := s.Open()
					a.C.Deliver(q)
					b.C.Deliver(q)
					vsched.Idle()
					vsched.Sleep(int64(n) * int64(2*time.Second))
					d := s.Open()
					d.Send(q)
					if s.Ended {
						fail("Serve ended because Accept failed temporarily: %v", s.EndErr)
					}
					if string(a.Out) != one+one || string(b.Out) != one || string(d.Out) != one || one == "" {
						fail("connections opened before, during and after a shortage of descriptors were answered %q, %q and %q", a.Out, b.Out, d.Out)
					}
					s.L.Fail(errors.New("gone"))
					vsched.Sleep(int64(5 * time.Second))
					if !s.Ended || s.EndErr == nil {
						fail("Serve goes on without its listener")
					}
				})
			}
		}
		// crowds
		for _, n := range []int{10, 130, 1030, 2100} {
			for _, part := range []int{0, 1, 5} {
				bin, n, part := bin, n, part
				c.Case(fmt.Sprintf("crowd/%v/%d/%d", bin, n, part), CaseOpt{Delay: true, MaxSteps: 4000000}, func() {
					s := newSrv()
					q := []byte("get k\r\n")
					if bin {
						q = binKey(server.OpcodeGet, "k", 9).bytes
					}
					cs := make([]*SC, n)
					for i := range cs {
						cs[i] = s.Open()
						cs[i].C.Deliver(q[:part])
					}
					vsched.Idle()
					x := s.Open()
					x.Send(q, q)
					want := string(x.Out[:len(x.Out)/2])
					if string(x.Out) != want+want || want == "" {
						fail("with %d other connections a request was answered %q", n, x.Out)
					}
					for i := range cs {
						cs[i].C.Deliver(q[part:])
					}
					vsched.Idle()
					for i := range cs {
						if string(cs[i].Out) != want {
							fail("connection %d of %d was answered %q, want %q", i, n, cs[i].Out, want)
						}
						cs[i].C.DeliverEOF(io.EOF)
					}
					x.EOF()
					if d := vsched.Daemons(); d != 0 {
						fail("%d goroutines are left after all %d clients closed their connections", d, n)
					}
					if s.Ended {
						fail("Serve ended: %v", s.EndErr)
					}
				})
			}
		}
	}
	// connections that are silent for long, between requests and within one
	for _, bin := range []bool{false, true} {
		for di, d := range []time.Duration{time.Minute, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour} {
			for part := 0; part < 3; part++ {
				bin, d, part := bin, d, part
				opt := pauseOpt
				opt.Delay = true
				c.Case(fmt.Sprintf("idle/%v/%d/%d", bin, di, part), opt, func() {
					s := newSrv()
					q := []byte("set k 0 0 3\r\nabc\r\n")
					if bin {
						q = binStore(server.OpcodeSet, "k", 0, 0, "abc", 9, 0).bytes
					}
					cut := []int{0, 7, len(q) - 4}[part]
					a, b := s.Open(), s.Open()
					a.Send(q)
					one := string(a.Out)
					a.Send(q[:cut])
					b.Send(q[:cut])
					for i := 0; i < 3; i++ {
						vsched.Sleep(int64(d))
						n := s.Open()
						n.Send(q)
						if string(n.Out) != one || one == "" {
							fail("beside connections that are silent for %v a new one was answered %q", d, n.Out)
						}
						n.EOF()
					}
					a.Send(q[cut:])
					b.Send(q[cut:])
					if string(a.Out) != one+one || string(b.Out) != one {
						fail("after %v of silence behind %d bytes of a request, two connections were answered %q and %q", d, cut, a.Out, b.Out)
					}
					if a.C.Closed() || b.C.Closed() || s.Ended {
						fail("a silent connection was ended after %v", d)
					}
				})
			}
		}
	}
	// a client that does not read its replies
	for _, bin := range []bool{false, true} {
		bin := bin
		c.Case(fmt.Sprintf("unread/%v", bin), CaseOpt{Preempt: true, Delay: true, Bound: c.Pick(3, 4), Split: true}, func() {
			s := newSrv()
			one, two := []byte("get one\r\n"), []byte("get two\r\n")
			if bin {
				one, two = binKey(server.OpcodeGet, "one", 1).bytes, binKey(server.OpcodeGet, "two", 2).bytes
			}
			a, b := s.Open(), s.Open()
			a.Full = true
			a.C.Deliver(one)
			a.C.Deliver(two)
			b.C.Deliver(one)
			b.C.Deliver(two)
			vsched.Idle()
			d := s.Open()
			d.Send(one, two)
			if len(b.Out) == 0 || string(b.Out) != string(d.Out) || s.Ended {
				fail("beside a client that does not read, others were answered %q and %q", b.Out, d.Out)
			}
		})
	}
	// a handler that does not return holds up its own connection only
	for _, bin := range []bool{false, true} {
		bin := bin
		c.Case(fmt.Sprintf("slow/%v", bin), CaseOpt{Preempt: true, Delay: true, Bound: c.Pick(3, 4), Split: true}, func() {
			s := newSrv()
			release := false
			s.Ans = func(r *server.Request) ([]*server.Response, error) {
				if r.Key == "slow" {
					vsched.Block(func() bool { return release }, "slow handler")
				}
				return okAnswer(r), nil
			}
			a, b := s.Open(), s.Open()
			one, two := []byte("get slow\r\n"), []byte("get next\r\n")
			if bin {
				one, two = binKey(server.OpcodeGet, "slow", 1).bytes, binKey(server.OpcodeGet, "next", 2).bytes
			}
			a.C.Deliver(one)
			a.C.Deliver(two)
			b.C.Deliver(two)
			vsched.Idle()
			if len(a.Out) != 0 || len(b.Out) == 0 {
				fail("while one handler call was busy its connection was sent %q and the other one %q", a.Out, b.Out)
			}
			n := s.Open()
			n.Send([]byte("get new\r\n"))
			if string(n.Out) != reply("new") {
				fail("a new connection was answered %q while another one was busy", n.Out)
			}
			release = true
			vsched.Idle()
			if bin {
				fr, bad := frames(a.Out)
				if bad != "" || len(fr) != 2 || fr[0].opq != 1 || fr[1].opq != 2 || fr[0].val != "v-slow" || fr[1].val != "v-next" {
					fail("the slow connection was answered %q", a.Out)
				}
			} else if string(a.Out) != reply("slow")+reply("next") {
				fail("the slow connection was answered %q", a.Out)
			}
		})
	}
}
