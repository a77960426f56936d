package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"go.f110.dev/go-memcached/internal/zverif/fmc"
)

// The conformance check keeps the reference server bound to the real one: it
// sends enumerated wire sequences to both and compares every reply byte
// (CAS values are mapped by order of appearance).

type conformResult struct {
	Server     string   `json:"server"`
	Traces     int      `json:"traces"`
	Requests   int      `json:"requests"`
	Mismatches int      `json:"mismatches"`
	First      []string `json:"first_mismatches,omitempty"`
	Complete   bool     `json:"complete"`
}

type wireCmd struct {
	name string
	// b builds the request given the CAS value the connection saw last.
	b func(cas uint64) []byte
}

func tx(s string) wireCmd {
	return wireCmd{s, func(uint64) []byte { return []byte(s) }}
}

func bin(op byte, key, ex, val string, cas bool) []byte {
	h := make([]byte, 24)
	h[0], h[1] = 0x80, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(ex))
	binary.BigEndian.PutUint32(h[8:], uint32(len(key)+len(ex)+len(val)))
	binary.BigEndian.PutUint32(h[12:], 0xdeadbeef)
	return append(h, ex+key+val...)
}

func bx(name string, op byte, key, ex, val string) wireCmd {
	return wireCmd{name, func(uint64) []byte { return bin(op, key, ex, val, false) }}
}
func bxc(name string, op byte, key, ex, val string) wireCmd {
	return wireCmd{name, func(c uint64) []byte {
		b := bin(op, key, ex, val, false)
		binary.BigEndian.PutUint64(b[16:], c)
		return b
	}}
}

func textAlphabet() []wireCmd {
	return []wireCmd{
		tx("gets a\r\n"), tx("get a b\r\n"), tx("gets b a c a\r\n"),
		tx("set a 0 0 1\r\n5\r\n"), tx("set a 4294967295 0 0\r\n\r\n"), tx("set b 7 100 3\r\nx\ry\r\n"), tx("set a 1 -1 1\r\nz\r\n"),
		tx("add a 3 0 2\r\n10\r\n"), tx("replace a 4 0 2\r\nrr\r\n"),
		{"cas a last", func(c uint64) []byte { return []byte(fmt.Sprintf("cas a 2 0 2 %d\r\n99\r\n", c)) }},
		{"cas a stale", func(c uint64) []byte { return []byte(fmt.Sprintf("cas a 2 0 2 %d\r\n98\r\n", c+100000)) }},
		tx("delete a\r\n"), tx("set noreply 0 0 1\r\n5\r\ndelete noreply\r\n"), tx("set a\u00a0b 0 0 1\r\n5\r\nget a\u00a0b\r\n"), tx("incr a 5\r\n"), tx("decr a 7\r\n"), tx("incr a 18446744073709551615\r\n"), tx("incr a x\r\n"),
		tx("touch a 50\r\n"), tx("touch a -1\r\n"), tx("touch a 0\r\n"), tx("version\r\n"), tx("bogus\r\n"),
		tx("set a 0 0 1\r\n5x\r\n\r\n"),
	}
}

func metaAlphabet() []wireCmd {
	return []wireCmd{
		tx("mg a z\r\n"), tx("ms a 2 x\r\nab\r\n"), tx("ms YQ== 2 b k\r\nab\r\n"), tx("mg YQ== b v k O1\r\n"), tx("mg a b v\r\n"), tx("md YQ== b k\r\n"), tx("md a z\r\n"),
		tx("mg a v f c t\r\n"), tx("mg a v f k c t\r\nmg b v f k c t\r\nmn\r\n"), tx("mg a v f k c t q\r\nmg b q v k\r\nmn\r\n"), tx("mg a s v\r\n"), tx("mg a\r\n"), tx("mg a T30 t\r\n"),
		tx("ms a 1 T0\r\n5\r\n"), tx("ms a 2 T100 F4294967295\r\nab\r\n"), tx("ms b 0 T0 F7\r\n\r\n"), tx("ms a 1 T-1\r\nz\r\n"),
		tx("ms a 1 ME\r\n1\r\n"), tx("ms a 1 MR\r\n2\r\n"),
		{"ms a C last", func(c uint64) []byte { return []byte(fmt.Sprintf("ms a 2 T0 C%d F5\r\n99\r\n", c)) }},
		{"ms a C stale", func(c uint64) []byte { return []byte(fmt.Sprintf("ms a 2 T0 C%d\r\n98\r\n", c+100000)) }},
		tx("md a\r\n"), tx("md a q\r\nmn\r\n"), tx("incr a 5\r\n"), tx("decr a 7\r\n"), tx("add a 1 0 1\r\n8\r\n"), tx("replace a 2 50 1\r\n9\r\n"),
		tx("mn\r\n"), tx("touch a 40\r\n"), tx("md a I T30\r\n"), tx("version\r\n"),
	}
}

func binAlphabet() []wireCmd {
	e8 := func(f, x uint32) string {
		b := make([]byte, 8)
		binary.BigEndian.PutUint32(b, f)
		binary.BigEndian.PutUint32(b[4:], x)
		return string(b)
	}
	e4 := func(x uint32) string { return e8(0, x)[4:] }
	e20 := func(d, i uint64, x uint32) string {
		b := make([]byte, 20)
		binary.BigEndian.PutUint64(b, d)
		binary.BigEndian.PutUint64(b[8:], i)
		binary.BigEndian.PutUint32(b[16:], x)
		return string(b)
	}
	return []wireCmd{
		bx("get a", 0, "a", "", ""), bx("getk a", 0xc, "a", "", ""),
		{"getkq a,b noop", func(uint64) []byte {
			return append(append(bin(0xd, "a", "", "", false), bin(0xd, "b", "", "", false)...), bin(0xa, "", "", "", false)...)
		}},
		bx("set a=5", 1, "a", e8(0, 0), "5"), bx("set a='' flags", 1, "a", e8(0xffffffff, 100), ""), bx("set b", 1, "b", e8(7, 0), "x\r\ny"),
		bx("set a expired", 1, "a", e8(0, 0xffffffff), "z"),
		bxc("set a cas", 1, "a", e8(1, 0), "99"), bx("add a", 2, "a", e8(3, 0), "10"), bx("replace a", 3, "a", e8(4, 0), "rr"),
		bxc("replace a cas", 3, "a", e8(4, 0), "7"),
		bx("delete a", 4, "a", "", ""), bxc("delete a cas", 4, "a", "", ""),
		bx("incr a", 5, "a", e20(5, 1, 0), ""), bx("decr a", 6, "a", e20(7, 1, 50), ""), bx("incr a noinit", 5, "a", e20(5, 1, 0xffffffff), ""), bxc("incr a cas", 5, "a", e20(5, 1, 0), ""),
		bx("touch a", 0x1c, "a", e4(50), ""), bx("touch a expire", 0x1c, "a", e4(0xffffffff), ""), bx("version", 0xb, "", "", ""), bx("noop", 0xa, "", "", ""), bx("bogus", 0x66, "", "", ""),
	}
}

// normCas rewrites CAS values of a reply and reports the last one seen.
func normText(b []byte, cas *uint64, base uint64, meta bool) []byte {
	var out []byte
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return append(out, b...)
		}
		line := b[:i+1]
		b = b[i+1:]
		size := -1
		if bytes.HasPrefix(line, []byte("VALUE ")) {
			var k string
			var f, n uint64
			var c uint64
			if k3, _ := fmt.Sscanf(string(line), "VALUE %s %d %d %d", &k, &f, &n, &c); k3 == 4 {
				*cas = c
				line = []byte(fmt.Sprintf("VALUE %s %d %d #%d\r\n", k, f, n, int64(c-base)))
			}
			size = int(n)
		} else if bytes.HasPrefix(line, []byte("VA ")) {
			w := bytes.Fields(line)
			var n int
			_, _ = fmt.Sscan(string(w[1]), &n)
			size = n
			for i, x := range w {
				if i > 1 && x[0] == 'c' {
					var c uint64
					_, _ = fmt.Sscan(string(x[1:]), &c)
					*cas = c
					w[i] = []byte(fmt.Sprintf("c#%d", int64(c-base)))
				}
			}
			line = append(bytes.Join(w, []byte(" ")), '\r', '\n')
		}
		out = append(out, line...)
		if size >= 0 && len(b) >= size+2 {
			out = append(out, b[:size+2]...)
			b = b[size+2:]
		}
	}
	return out
}

func normBin(b []byte, cas *uint64, base uint64) []byte {
	b = append([]byte(nil), b...)
	for p := 0; p+24 <= len(b); {
		n := int(binary.BigEndian.Uint32(b[p+8:]))
		c := binary.BigEndian.Uint64(b[p+16:])
		if c != 0 {
			*cas = c
			binary.BigEndian.PutUint64(b[p+16:], c-base)
		}
		p += 24 + n
	}
	return b
}

type realConn struct {
	c net.Conn
}

func conform(work, tier string, budget time.Duration) (res conformResult) {
	res.Server = "memcached not available"
	path, err := exec.LookPath("memcached")
	if err != nil {
		return
	}
	dir, err := os.MkdirTemp(work, "mc")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	sock := filepath.Join(dir, "s")
	cmd := exec.Command(path, "-s", sock, "-u", "root", "-t", "1", "-m", "64")
	cmd.Stderr, cmd.Stdout = io.Discard, io.Discard
	if err := cmd.Start(); err != nil {
		return
	}
	defer func() { _ = cmd.Process.Kill(); _ = cmd.Wait() }()
	var probe net.Conn
	for i := 0; i < 200; i++ {
		if probe, err = net.Dial("unix", sock); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		return
	}
	_ = probe.Close()
	if v, err := exec.Command(path, "-V").Output(); err == nil {
		res.Server = string(bytes.TrimSpace(v))
	}
	end := time.Now().Add(budget)
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	res.Complete = true
	for _, p := range []string{"text", "meta", "binary"} {
		var al []wireCmd
		switch p {
		case "text":
			al = textAlphabet()
		case "meta":
			al = metaAlphabet()
		default:
			al = binAlphabet()
		}
		seq := make([]int, depth)
		for done := false; !done; {
			if time.Now().After(end) {
				res.Complete = false
				break
			}
			if d := conformOne(sock, p, al, seq, &res); d != "" {
				res.Mismatches++
				if len(res.First) < 5 {
					res.First = append(res.First, d)
				}
			}
			i := depth - 1
			for ; i >= 0; i-- {
				seq[i]++
				if seq[i] < len(al) {
					break
				}
				seq[i] = 0
			}
			done = i < 0
		}
	}
	return
}

func conformOne(sock, proto string, al []wireCmd, seq []int, res *conformResult) string {
	c, err := net.Dial("unix", sock)
	if err != nil {
		return ""
	}
	defer c.Close()
	st := fmc.NewStore("model", func() int64 { return 1_900_000_000 })
	st.SetCasCounter(1 << 40)
	ms := fmc.NewSession(st)
	// start from an empty store with a known CAS base
	var rbase, mbase uint64
	var reset []byte
	if proto == "binary" {
		reset = append(append(bin(0x14, "a", "", "", false), bin(0x14, "b", "", "", false)...), bin(0x11, "zz", "\x00\x00\x00\x00\x00\x00\x00\x00", "", false)...)
		reset = append(append(reset, bin(0x0, "zz", "", "", false)...), bin(0x14, "zz", "", "", false)...)
		reset = append(reset, bin(0xa, "", "", "", false)...)
	} else {
		reset = []byte("md a q\r\nmd b q\r\nms zz 0 T0 q\r\n\r\nmg zz c v\r\nmd zz q\r\nmn\r\n")
	}
	read := func(want int, endsNoop bool) []byte {
		_ = c.SetReadDeadline(time.Now().Add(5 * time.Second))
		buf := make([]byte, 0, 256)
		tmp := make([]byte, 4096)
		for {
			if endsNoop {
				if proto == "binary" {
					// a complete noop reply at the end
					k := 0
					for p := 0; p+24 <= len(buf); {
						n := int(binary.BigEndian.Uint32(buf[p+8:]))
						if buf[p+1] == 0xa && p+24+n <= len(buf) {
							k++
						}
						p += 24 + n
					}
					if k >= want {
						return buf
					}
				} else if bytes.Count(buf, []byte("MN\r\n")) >= want {
					return buf
				}
			}
			n, err := c.Read(tmp)
			buf = append(buf, tmp[:n]...)
			if err != nil {
				return append(buf, "<"+err.Error()+">"...)
			}
		}
	}
	_, _ = c.Write(reset)
	rr := read(1, true)
	mr := ms.Feed(reset)
	if proto == "binary" {
		normBin(rr, &rbase, 0)
		normBin(mr, &mbase, 0)
	} else {
		normText(rr, &rbase, 0, false)
		normText(mr, &mbase, 0, false)
	}
	rcas, mcas := rbase, mbase
	res.Traces++
	name := proto
	for _, i := range seq {
		res.Requests++
		name += " | " + fmt.Sprintf("%q", al[i].name)
		noop := []byte("mn\r\n")
		if proto == "binary" {
			noop = bin(0xa, "", "", "", false)
		}
		rq := append(al[i].b(rcas), noop...)
		_, _ = c.Write(rq)
		want := bytes.Count(rq, []byte("mn\r\n"))
		if proto == "binary" {
			want = 0
			for p := 0; p+24 <= len(rq); p += 24 + int(binary.BigEndian.Uint32(rq[p+8:])) {
				if rq[p+1] == 0xa {
					want++
				}
			}
		}
		rr := read(want, true)
		mr := ms.Feed(append(al[i].b(mcas), noop...))
		var a, b []byte
		if proto == "binary" {
			a, b = normBin(rr, &rcas, rbase), normBin(mr, &mcas, mbase)
		} else {
			a, b = normText(rr, &rcas, rbase, false), normText(mr, &mcas, mbase, false)
		}
		if bytes.Contains(a, []byte("VERSION ")) || al[i].name == "version" {
			continue
		}
		if !bytes.Equal(a, b) {
			return fmt.Sprintf("%s: memcached %q, model %q", name, a, b)
		}
	}
	return ""
}

func conformMain(args []string) int {
	tier := "quick"
	if len(args) > 0 {
		tier = args[0]
	}
	r := conform(os.TempDir(), tier, 600*time.Second)
	fmt.Printf("%+v\n", r)
	return 0
}
