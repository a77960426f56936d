package fmc

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
)

// Session is one client connection. Feed consumes request bytes and returns
// the reply bytes; Reqs counts complete requests, Replies holds the boundaries.
type Session struct {
	S      *Store
	in     []byte
	proto  int // 0 unknown, 1 ascii, 2 binary
	Closed bool
	Reqs   int
	// swallow is the rest of a data block of a refused set
	swallow int
	scanned int // bytes of in that hold no end of line
}

func NewSession(s *Store) *Session { return &Session{S: s} }

// Buffered is how many bytes of an incomplete request the server holds (or
// still expects, for the data block of a refused store).
func (c *Session) Buffered() int { return len(c.in) + c.swallow }

// Rest is the incomplete request.
func (c *Session) Rest() string { return string(c.in) }

// Partial reports whether an incomplete request is buffered.
func (c *Session) Partial() bool { return len(c.in) > 0 }

func (c *Session) Feed(p []byte) []byte {
	if c.Closed {
		return nil
	}
	c.in = append(c.in, p...)
	var out []byte
	for !c.Closed {
		n, r := c.step()
		if n == 0 {
			break
		}
		c.in, c.scanned = append([]byte(nil), c.in[n:]...), 0
		out = append(out, r...)
	}
	return out
}

func (c *Session) step() (int, []byte) {
	if c.swallow > 0 {
		n := c.swallow
		if n > len(c.in) {
			n = len(c.in)
		}
		c.swallow -= n
		return n, nil
	}
	if len(c.in) == 0 {
		return 0, nil
	}
	if c.proto == 0 {
		c.proto = 1
		if c.in[0] == 0x80 {
			c.proto = 2
		}
	}
	if c.proto == 2 {
		return c.binary()
	}
	return c.text()
}

const (
	badFormat = "CLIENT_ERROR bad command line format\r\n"
)

func num(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func (c *Session) hook(r *Req) ([]byte, bool) {
	c.S.Log = append(c.S.Log, *r)
	if c.S.Hook != nil {
		return c.S.Hook(r)
	}
	return nil, false
}

func (c *Session) text() (int, []byte) {
	i := bytes.IndexByte(c.in[c.scanned:], '\n')
	if i < 0 {
		c.scanned = len(c.in)
		return 0, nil
	}
	i += c.scanned
	n := i + 1
	line := c.in[:i]
	if len(line) > 0 && line[len(line)-1] == '\r' {
		line = line[:len(line)-1]
	} else {
		c.S.bad("line without CR: %q", line)
	}
	for _, b := range line {
		if b < 0x20 || b == 0x7f {
			c.S.bad("control character in the command line %q", line)
			break
		}
	}
	t := words(string(line))
	if strings.Join(t, " ") != string(line) {
		c.S.bad("superfluous white space in the command line %q", line)
	}
	if len(t) == 0 {
		c.Reqs++
		c.S.bad("empty command line")
		return n, []byte("ERROR\r\n")
	}
	noreply := len(t) > 2 && t[len(t)-1] == "noreply"
	quiet := func(s string) []byte {
		if noreply {
			return nil
		}
		return []byte(s)
	}
	r := &Req{Cmd: t[0], Raw: string(line), Quiet: noreply}
	if len(t) > 1 {
		r.Key = t[1]
	}
	longKey := func(k string) bool {
		if len(k) > 250 {
			c.S.bad("key of %d bytes", len(k))
			return true
		}
		return false
	}
	switch t[0] {
	case "get", "gets":
		c.Reqs++
		if len(t) < 2 {
			c.S.bad("%s without key", t[0])
			return n, []byte("ERROR\r\n")
		}
		r.Key = strings.Join(t[1:], " ")
		if b, ok := c.hook(r); ok {
			return n, b
		}
		var out []byte
		for _, k := range t[1:] {
			if longKey(k) {
				return n, []byte(badFormat)
			}
			if e := c.S.Get(k); e != nil {
				if t[0] == "gets" {
					out = append(out, fmt.Sprintf("VALUE %s %d %d %d\r\n", k, e.Flags, len(e.Val), e.Cas)...)
				} else {
					out = append(out, fmt.Sprintf("VALUE %s %d %d\r\n", k, e.Flags, len(e.Val))...)
				}
				out = append(append(out, e.Val...), "\r\n"...)
			}
		}
		return n, append(out, "END\r\n"...)
	case "set", "add", "replace", "append", "prepend", "cas":
		want := 5
		if t[0] == "cas" {
			want = 6
		}
		if noreply {
			want++
		}
		if len(t) != want {
			c.Reqs++
			c.S.bad("%q has %d words", line, len(t))
			return n, []byte("ERROR\r\n")
		}
		fl, e1 := strconv.ParseUint(t[2], 10, 32)
		exp, ok2 := num(t[3])
		size, ok3 := num(t[4])
		if longKey(t[1]) || e1 != nil || !ok2 || !ok3 || size < 0 {
			c.Reqs++
			c.S.bad("bad storage command %q", line)
			return n, []byte(badFormat)
		}
		if t[0] == "cas" {
			v, err := strconv.ParseUint(t[5], 10, 64)
			if err != nil {
				c.Reqs++
				c.S.bad("bad cas value in %q", line)
				return n, []byte(badFormat)
			}
			r.Cas = v
		}
		if exp > 1<<31-1 || exp < -(1<<31) {
			c.S.bad("expiration out of range in %q", line)
		}
		if !c.S.size(t[1], make([]byte, size)) {
			c.Reqs++
			r.Flags, r.Exp = uint32(fl), exp
			if b, ok := c.hook(r); ok {
				c.swallow = int(size) + 2
				return n, b
			}
			c.swallow = int(size) + 2
			delete(c.S.M, t[1])
			return n, []byte("SERVER_ERROR object too large for cache\r\n")
		}
		if len(c.in) < n+int(size)+2 {
			return 0, nil
		}
		c.Reqs++
		val := c.in[n : n+int(size)]
		tail := string(c.in[n+int(size) : n+int(size)+2])
		n += int(size) + 2
		r.Val, r.Flags, r.Exp = string(val), uint32(fl), exp
		if tail != "\r\n" {
			c.S.bad("data block of %q is not followed by CRLF", line)
			return n, quiet("CLIENT_ERROR bad data chunk\r\n")
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		if t[0] == "cas" && r.Cas == 0 {
			if c.S.Get(t[1]) == nil {
				return n, quiet("NOT_FOUND\r\n")
			}
			return n, quiet("EXISTS\r\n")
		}
		res, _ := c.S.SetOp(t[0], t[1], val, uint32(fl), exp, r.Cas)
		switch res {
		case OK:
			return n, quiet("STORED\r\n")
		case NotFound:
			return n, quiet("NOT_FOUND\r\n")
		case Exists:
			return n, quiet("EXISTS\r\n")
		case TooLarge:
			return n, quiet("SERVER_ERROR object too large for cache\r\n")
		}
		return n, quiet("NOT_STORED\r\n")
	case "delete":
		c.Reqs++
		if len(t) != 2 && !(len(t) == 3 && (noreply || t[2] == "0")) {
			c.S.bad("bad delete %q", line)
			return n, []byte("CLIENT_ERROR bad command line format.  Usage: delete <key> [noreply]\r\n")
		}
		if longKey(t[1]) {
			return n, []byte(badFormat)
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		if c.S.DeleteOp(t[1], 0) == OK {
			return n, quiet("DELETED\r\n")
		}
		return n, quiet("NOT_FOUND\r\n")
	case "incr", "decr":
		c.Reqs++
		if len(t) != 3 && !(len(t) == 4 && noreply) {
			c.S.bad("bad %q", line)
			return n, []byte("ERROR\r\n")
		}
		if longKey(t[1]) {
			return n, []byte(badFormat)
		}
		d, err := strconv.ParseUint(t[2], 10, 64)
		r.Delta = d
		if b, ok := c.hook(r); ok {
			return n, b
		}
		if err != nil {
			c.S.bad("bad delta in %q", line)
			return n, []byte("CLIENT_ERROR invalid numeric delta argument\r\n")
		}
		res, v, _ := c.S.Arith(t[0] == "incr", t[1], d, 0)
		switch res {
		case OK:
			return n, quiet(fmt.Sprintf("%d\r\n", v))
		case NotFound:
			return n, quiet("NOT_FOUND\r\n")
		}
		return n, []byte("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n")
	case "touch":
		c.Reqs++
		if len(t) != 3 && !(len(t) == 4 && noreply) {
			c.S.bad("bad %q", line)
			return n, []byte("ERROR\r\n")
		}
		if longKey(t[1]) {
			return n, []byte(badFormat)
		}
		exp, ok := num(t[2])
		r.Exp = exp
		if b, ok := c.hook(r); ok {
			return n, b
		}
		if !ok {
			c.S.bad("bad expiration in %q", line)
			return n, []byte("CLIENT_ERROR invalid exptime argument\r\n")
		}
		if c.S.TouchOp(t[1], exp) == OK {
			return n, quiet("TOUCHED\r\n")
		}
		return n, quiet("NOT_FOUND\r\n")
	case "gat", "gats":
		c.Reqs++
		if len(t) < 3 {
			c.S.bad("bad %q", line)
			return n, []byte("ERROR\r\n")
		}
		exp, ok := num(t[1])
		if !ok {
			c.S.bad("bad %q", line)
			return n, []byte("CLIENT_ERROR invalid exptime argument\r\n")
		}
		r.Key, r.Exp = strings.Join(t[2:], " "), exp
		if b, ok := c.hook(r); ok {
			return n, b
		}
		var out []byte
		for _, k := range t[2:] {
			if e := c.S.Get(k); e != nil {
				out = append(out, fmt.Sprintf("VALUE %s %d %d", k, e.Flags, len(e.Val))...)
				if t[0] == "gats" {
					out = append(out, fmt.Sprintf(" %d", e.Cas)...)
				}
				out = append(append(append(out, "\r\n"...), e.Val...), "\r\n"...)
				c.S.TouchOp(k, exp)
			}
		}
		return n, append(out, "END\r\n"...)
	case "flush_all":
		c.Reqs++
		r.Key = ""
		if b, ok := c.hook(r); ok {
			return n, b
		}
		c.S.FlushOp()
		return n, quiet("OK\r\n")
	case "version":
		c.Reqs++
		if b, ok := c.hook(r); ok {
			return n, b
		}
		return n, []byte("VERSION " + c.S.Version + "\r\n")
	case "verbosity":
		c.Reqs++
		return n, quiet("OK\r\n")
	case "quit":
		c.Reqs++
		c.Closed = true
		return n, nil
	case "mn":
		c.Reqs++
		if b, ok := c.hook(r); ok {
			return n, b
		}
		return n, []byte("MN\r\n")
	case "mg", "ms", "md", "ma":
		return c.meta(n, t, r, line)
	}
	c.Reqs++
	c.S.bad("unknown command %q", line)
	return n, []byte("ERROR\r\n")
}

type mflag struct {
	f   byte
	tok string
}

// metaFlags are the flags a server of version 1.6.24 knows.
const metaFlags = "bcCDfFhIJklLMNOPqRstTuv"

// meta handles mg, ms, md and ma.
func (c *Session) meta(n int, t []string, r *Req, line []byte) (int, []byte) {
	if len(t) < 2 || len(t[1]) > 250 {
		c.Reqs++
		c.S.bad("bad meta command %q", line)
		return n, []byte(badFormat)
	}
	key := t[1]
	rest := t[2:]
	size := 0
	if t[0] == "ms" {
		if len(rest) == 0 {
			c.Reqs++
			c.S.bad("ms without size: %q", line)
			return n, []byte("CLIENT_ERROR bad data chunk\r\n")
		}
		v, ok := num(rest[0])
		if !ok || v < 0 {
			c.Reqs++
			c.S.bad("ms with a bad size: %q", line)
			return n, []byte("CLIENT_ERROR bad data chunk\r\n")
		}
		size = int(v)
		rest = rest[1:]
	}
	var fl []mflag
	seen := map[byte]bool{}
	get := func(f byte) (string, bool) {
		for _, m := range fl {
			if m.f == f {
				return m.tok, true
			}
		}
		return "", false
	}
	for _, w := range rest {
		if seen[w[0]] {
			c.Reqs++
			c.S.bad("duplicate flag in %q", line)
			c.skipData(t[0], size)
			return n, []byte("CLIENT_ERROR duplicate flag\r\n")
		}
		if !strings.ContainsRune(metaFlags, rune(w[0])) {
			c.Reqs++
			c.S.bad("invalid flag in %q", line)
			c.skipData(t[0], size)
			if t[0] == "md" || t[0] == "ma" {
				return n, []byte("CLIENT_ERROR invalid or duplicate flag\r\n")
			}
			return n, []byte("CLIENT_ERROR invalid flag\r\n")
		}
		seen[w[0]] = true
		fl = append(fl, mflag{w[0], w[1:]})
	}
	coded := ""
	if seen['b'] {
		k, err := base64.StdEncoding.DecodeString(key)
		if err != nil {
			c.Reqs++
			c.S.bad("bad key in %q", line)
			c.skipData(t[0], size)
			return n, []byte("CLIENT_ERROR error decoding key\r\n")
		}
		coded, key = key, string(k)
		r.Key = key
	}
	badTok := false
	i64 := func(f byte) int64 {
		s, ok := get(f)
		if !ok {
			return 0
		}
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			badTok = true
		}
		return v
	}
	u64 := func(f byte) uint64 {
		s, ok := get(f)
		if !ok {
			return 0
		}
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			badTok = true
		}
		return v
	}
	_, quiet := get('q')
	r.Quiet = quiet
	ret := func(head string) string {
		for _, m := range fl {
			switch m.f {
			case 'O':
				head += " O" + m.tok
			case 'k':
				if coded != "" {
					head += " k" + coded + " b"
					continue
				}
				head += " k" + key
			}
		}
		return head + "\r\n"
	}
	switch t[0] {
	case "mg":
		c.Reqs++
		exp := i64('T')
		r.Exp = exp
		if badTok {
			c.S.bad("bad token in %q", line)
			return n, []byte("CLIENT_ERROR bad token in command line format\r\n")
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		e := c.S.Get(key)
		if e == nil {
			if quiet {
				return n, nil
			}
			return n, []byte(ret("EN"))
		}
		if _, ok := get('T'); ok {
			e.Exp = c.S.abs(exp)
		}
		head := "HD"
		_, wantV := get('v')
		if wantV {
			head = "VA " + strconv.Itoa(len(e.Val))
		}
		for _, m := range fl {
			switch m.f {
			case 'f':
				head += fmt.Sprintf(" f%d", e.Flags)
			case 'c':
				head += fmt.Sprintf(" c%d", e.Cas)
			case 't':
				head += fmt.Sprintf(" t%d", c.S.TTL(e))
			case 's':
				head += fmt.Sprintf(" s%d", len(e.Val))
			case 'k':
				if e.Coded {
					head += " k" + base64.StdEncoding.EncodeToString([]byte(key)) + " b"
					continue
				}
				head += " k" + key
			case 'O':
				head += " O" + m.tok
			case 'h':
				head += " h1"
			case 'l':
				head += " l0"
			}
		}
		if e.Stale {
			if e.Won {
				head += " X Z"
			} else {
				head += " X W"
				e.Won = true
			}
		}
		out := []byte(head + "\r\n")
		if wantV {
			out = append(append(out, e.Val...), "\r\n"...)
		}
		return n, out
	case "ms":
		if len(c.in) < n+size+2 {
			if !c.S.size(key, make([]byte, size)) {
				c.Reqs++
				if b, ok := c.hook(r); ok {
					c.swallow = size + 2
					return n, b
				}
				c.swallow = size + 2
				delete(c.S.M, key)
				return n, []byte("SERVER_ERROR object too large for cache\r\n")
			}
			return 0, nil
		}
		c.Reqs++
		val := c.in[n : n+size]
		tail := string(c.in[n+size : n+size+2])
		n += size + 2
		fv := u64('F')
		exp := i64('T')
		cas := u64('C')
		r.Val, r.Flags, r.Exp, r.Cas = string(val), uint32(fv), exp, cas
		if badTok || fv > 0xffffffff {
			c.S.bad("bad token in %q", line)
			return n, []byte("CLIENT_ERROR bad token in command line format\r\n")
		}
		if tail != "\r\n" {
			c.S.bad("data block of %q is not followed by CRLF", line)
			return n, []byte("CLIENT_ERROR bad data chunk\r\n")
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		mode := "set"
		if m, ok := get('M'); ok {
			switch m {
			case "E", "e":
				mode = "add"
			case "A", "a":
				mode = "append"
			case "P", "p":
				mode = "prepend"
			case "R", "r":
				mode = "replace"
			case "S", "s":
			default:
				c.S.bad("bad mode in %q", line)
				return n, []byte("CLIENT_ERROR invalid mode for ms\r\n")
			}
		}
		var res Res
		if _, has := get('C'); has && cas == 0 {
			res = Exists
			if c.S.Get(key) == nil {
				res = NotFound
			}
		} else {
			var e *Ent
			if res, e = c.S.SetOp(mode, key, val, uint32(fv), exp, cas); res == OK {
				e.Coded = coded != ""
			}
		}
		switch res {
		case OK:
			if quiet {
				return n, nil
			}
			return n, []byte(ret("HD"))
		case NotFound:
			return n, []byte(ret("NF"))
		case Exists:
			return n, []byte(ret("EX"))
		case TooLarge:
			return n, []byte("SERVER_ERROR object too large for cache\r\n")
		}
		return n, []byte(ret("NS"))
	case "md":
		c.Reqs++
		exp := i64('T')
		cas := u64('C')
		r.Exp, r.Cas = exp, cas
		if badTok {
			c.S.bad("bad token in %q", line)
			return n, []byte("CLIENT_ERROR bad token in command line format\r\n")
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		e := c.S.Get(key)
		if e == nil {
			return n, []byte(ret("NF"))
		}
		if cas != 0 && e.Cas != cas {
			return n, []byte(ret("EX"))
		}
		if _, inv := get('I'); inv {
			e.Stale, e.Won = true, false
			e.Cas = c.S.NextCas()
			if _, ok := get('T'); ok {
				e.Exp = c.S.abs(exp)
			}
		} else {
			delete(c.S.M, key)
		}
		if quiet {
			return n, nil
		}
		return n, []byte(ret("HD"))
	}
	// ma
	c.Reqs++
	d := uint64(1)
	if _, ok := get('D'); ok {
		d = u64('D')
	}
	exp := i64('T')
	if badTok {
		c.S.bad("bad token in %q", line)
		return n, []byte("CLIENT_ERROR bad token in command line format\r\n")
	}
	r.Delta, r.Exp = d, exp
	if b, ok := c.hook(r); ok {
		return n, b
	}
	incr := true
	if m, ok := get('M'); ok {
		switch m {
		case "D", "d", "-":
			incr = false
		}
	}
	res, v, e := c.S.Arith(incr, key, d, u64('C'))
	if res == NotFound {
		if _, ok := get('N'); ok {
			v = u64('J')
			e = c.S.Put(key, []byte(fmt.Sprint(v)), 0, i64('N'))
			res = OK
		}
	} else if res == OK {
		if _, ok := get('T'); ok {
			e.Exp = c.S.abs(exp)
		}
	}
	switch res {
	case NotFound:
		return n, []byte(ret("NF"))
	case Exists:
		return n, []byte(ret("EX"))
	case NonNumeric:
		return n, []byte("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n")
	}
	vs := fmt.Sprint(v)
	head := "HD"
	_, wantV := get('v')
	if wantV {
		head = fmt.Sprintf("VA %d", len(vs))
	}
	for _, m := range fl {
		switch m.f {
		case 't':
			head += fmt.Sprintf(" t%d", c.S.TTL(e))
		case 'c':
			head += fmt.Sprintf(" c%d", e.Cas)
		case 'k':
			head += " k" + key
		case 'O':
			head += " O" + m.tok
		}
	}
	head += "\r\n"
	if wantV {
		head += vs + "\r\n"
	}
	return n, []byte(head)
}

func (c *Session) skipData(cmd string, size int) {
	if cmd == "ms" {
		c.swallow = size + 2
	}
}

// --- binary ---

const (
	bGet = iota
	bSet
	bAdd
	bReplace
	bDelete
	bIncr
	bDecr
	bQuit
	bFlush
	bGetQ
	bNoop
	bVersion
	bGetK
	bGetKQ
	bAppend
	bPrepend
	bStat
	bSetQ
	bAddQ
	bReplaceQ
	bDeleteQ
	bIncrQ
	bDecrQ
	bQuitQ
	bFlushQ
	bAppendQ
	bPrependQ
	bTouch = 0x1c
	bGAT   = 0x1d
	bGATQ  = 0x1e
)

var binNames = map[byte]string{
	bGet: "get", bSet: "set", bAdd: "add", bReplace: "replace", bDelete: "delete", bIncr: "incr", bDecr: "decr", bQuit: "quit",
	bFlush: "flush_all", bGetQ: "get", bNoop: "noop", bVersion: "version", bGetK: "get", bGetKQ: "get", bAppend: "append", bPrepend: "prepend",
	bSetQ: "set", bAddQ: "add", bReplaceQ: "replace", bDeleteQ: "delete", bIncrQ: "incr", bDecrQ: "decr", bQuitQ: "quit", bFlushQ: "flush_all",
	bAppendQ: "append", bPrependQ: "prepend", bTouch: "touch", bGAT: "gat", bGATQ: "gat",
}

var binMsg = map[uint16]string{
	1: "Not found", 2: "Data exists for key.", 3: "Too large.", 4: "Invalid arguments", 5: "Not stored.",
	6: "Non-numeric server-side value for incr or decr", 0x81: "Unknown command", 0x82: "Out of memory",
}

// BinReply encodes a binary response.
func BinReply(op byte, status uint16, opaque uint32, cas uint64, extras, key, val []byte) []byte {
	h := make([]byte, 24, 24+len(extras)+len(key)+len(val))
	h[0], h[1] = 0x81, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(extras))
	binary.BigEndian.PutUint16(h[6:], status)
	binary.BigEndian.PutUint32(h[8:], uint32(len(extras)+len(key)+len(val)))
	binary.BigEndian.PutUint32(h[12:], opaque)
	binary.BigEndian.PutUint64(h[16:], cas)
	h = append(h, extras...)
	h = append(h, key...)
	return append(h, val...)
}

// BinErr is the reply memcached gives for a status.
func BinErr(op byte, status uint16, opaque uint32) []byte {
	return BinReply(op, status, opaque, 0, nil, nil, []byte(binMsg[status]))
}

func u32(v uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

func (c *Session) binary() (int, []byte) {
	if len(c.in) < 24 {
		return 0, nil
	}
	h := c.in[:24]
	if h[0] != 0x80 {
		c.S.bad("binary request with magic %#x", h[0])
		c.Closed = true
		return len(c.in), nil
	}
	op := h[1]
	kl := int(binary.BigEndian.Uint16(h[2:]))
	el := int(h[4])
	body := int(binary.BigEndian.Uint32(h[8:]))
	opaque := binary.BigEndian.Uint32(h[12:])
	cas := binary.BigEndian.Uint64(h[16:])
	if kl+el > body || kl > 250 {
		c.S.bad("binary request with key %d extras %d body %d", kl, el, body)
		c.Closed = true
		return len(c.in), BinErr(op, 4, opaque)
	}
	tooBig := (op == bSet || op == bAdd || op == bReplace) && el == 8 && !c.S.size("", make([]byte, body))
	if !tooBig && len(c.in) < 24+body || len(c.in) < 24+el+kl {
		return 0, nil
	}
	n := 24 + body
	ex := c.in[24 : 24+el]
	key := string(c.in[24+el : 24+el+kl])
	c.Reqs++
	name := binNames[op]
	r := &Req{Cmd: name, Key: key, Cas: cas, Raw: fmt.Sprintf("binary %x", h), Binary: true, Op: op, Opaque: opaque}
	if h[5] != 0 || binary.BigEndian.Uint16(h[6:]) != 0 {
		c.S.bad("binary request with data type %d / vbucket %d", h[5], binary.BigEndian.Uint16(h[6:]))
	}
	invalid := func() (int, []byte) {
		c.S.bad("binary %s (%#x) with key %d extras %d body %d", name, op, kl, el, body)
		c.Closed = true
		return n, BinErr(op, 4, opaque)
	}
	if tooBig {
		if b, ok := c.hook(r); ok {
			c.swallow = body - el - kl
			return 24 + el + kl, b
		}
		delete(c.S.M, key)
		c.swallow = body - el - kl
		return 24 + el + kl, BinErr(op, 3, opaque)
	}
	val := c.in[24+el+kl : n]
	r.Val = string(val)
	rep := func(status uint16, quietOK bool) []byte {
		if status == 0 {
			if quietOK {
				return nil
			}
			return BinReply(op, 0, opaque, 0, nil, nil, nil)
		}
		return BinErr(op, status, opaque)
	}
	base, q := op, false
	switch op {
	case bSetQ, bAddQ, bReplaceQ, bDeleteQ, bIncrQ, bDecrQ, bQuitQ, bFlushQ:
		base, q = op-bSetQ+bSet, true
	case bAppendQ, bPrependQ:
		base, q = op-bAppendQ+bAppend, true
	}
	r.Quiet = q || op == bGetQ || op == bGetKQ
	switch base {
	case bGet, bGetQ, bGetK, bGetKQ:
		if el != 0 || kl == 0 || body != kl {
			return invalid()
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		e := c.S.Get(key)
		wantK := op == bGetK || op == bGetKQ
		if e == nil {
			if op == bGetQ || op == bGetKQ {
				return n, nil
			}
			if wantK {
				return n, BinReply(op, 1, opaque, 0, nil, []byte(key), nil)
			}
			return n, BinErr(op, 1, opaque)
		}
		var k []byte
		if wantK {
			k = []byte(key)
		}
		return n, BinReply(op, 0, opaque, e.Cas, u32(e.Flags), k, e.Val)
	case bGAT, bGATQ:
		if el != 4 || kl == 0 {
			return invalid()
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		e := c.S.Get(key)
		if e == nil {
			if op == bGATQ {
				return n, nil
			}
			return n, BinErr(op, 1, opaque)
		}
		e.Exp = c.S.abs(int64(binary.BigEndian.Uint32(ex)))
		return n, BinReply(op, 0, opaque, e.Cas, u32(e.Flags), nil, e.Val)
	case bSet, bAdd, bReplace:
		if el != 8 || kl == 0 {
			return invalid()
		}
		r.Flags = binary.BigEndian.Uint32(ex)
		r.Exp = int64(binary.BigEndian.Uint32(ex[4:]))
		if b, ok := c.hook(r); ok {
			return n, b
		}
		mode := map[byte]string{bSet: "set", bAdd: "add", bReplace: "replace"}[base]
		res, e := c.S.SetOp(mode, key, val, r.Flags, r.Exp, cas)
		switch res {
		case OK:
			if q {
				return n, nil
			}
			return n, BinReply(op, 0, opaque, e.Cas, nil, nil, nil)
		case NotFound:
			return n, BinErr(op, 1, opaque)
		case Exists:
			return n, BinErr(op, 2, opaque)
		case TooLarge:
			return n, BinErr(op, 3, opaque)
		}
		if base == bAdd {
			return n, BinErr(op, 2, opaque)
		}
		return n, BinErr(op, 1, opaque)
	case bAppend, bPrepend:
		if el != 0 || kl == 0 {
			return invalid()
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		mode := "append"
		if base == bPrepend {
			mode = "prepend"
		}
		res, e := c.S.SetOp(mode, key, val, 0, 0, cas)
		if res == OK {
			if q {
				return n, nil
			}
			return n, BinReply(op, 0, opaque, e.Cas, nil, nil, nil)
		}
		return n, BinErr(op, 5, opaque)
	case bDelete:
		if el != 0 || kl == 0 || body != kl {
			return invalid()
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		switch c.S.DeleteOp(key, cas) {
		case OK:
			return n, rep(0, q)
		case Exists:
			return n, rep(2, q)
		}
		return n, rep(1, q)
	case bIncr, bDecr:
		if el != 20 || kl == 0 || body != kl+el {
			return invalid()
		}
		r.Delta = binary.BigEndian.Uint64(ex)
		init := binary.BigEndian.Uint64(ex[8:])
		exp := binary.BigEndian.Uint32(ex[16:])
		r.Exp = int64(exp)
		if b, ok := c.hook(r); ok {
			return n, b
		}
		res, v, e := c.S.Arith(base == bIncr, key, r.Delta, cas)
		switch res {
		case NotFound:
			if exp == 0xffffffff {
				return n, BinErr(op, 1, opaque)
			}
			e = c.S.Put(key, []byte(fmt.Sprint(init)), 0, r.Exp)
			v = init
		case Exists:
			return n, BinErr(op, 2, opaque)
		case NonNumeric:
			return n, BinErr(op, 6, opaque)
		}
		if q {
			return n, nil
		}
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, v)
		return n, BinReply(op, 0, opaque, e.Cas, nil, nil, b)
	case bTouch:
		if el != 4 || kl == 0 || body != kl+el {
			return invalid()
		}
		r.Exp = int64(binary.BigEndian.Uint32(ex))
		if b, ok := c.hook(r); ok {
			return n, b
		}
		e := c.S.Get(key)
		if e == nil {
			return n, BinErr(op, 1, opaque)
		}
		e.Exp = c.S.abs(r.Exp)
		return n, BinReply(op, 0, opaque, e.Cas, u32(e.Flags), nil, nil)
	case bFlush:
		if kl != 0 || el != 0 && el != 4 || body != el {
			return invalid()
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		c.S.FlushOp()
		return n, rep(0, q)
	case bNoop:
		if body != 0 {
			return invalid()
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		return n, rep(0, false)
	case bVersion:
		if body != 0 {
			return invalid()
		}
		if b, ok := c.hook(r); ok {
			return n, b
		}
		return n, BinReply(op, 0, opaque, 0, nil, nil, []byte(c.S.Version))
	case bQuit:
		c.Closed = true
		return n, rep(0, q)
	}
	c.S.bad("unknown binary opcode %#x", op)
	return n, BinErr(op, 0x81, opaque)
}

// words splits a command line at spaces, and at nothing else.
func words(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' })
}
