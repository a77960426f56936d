package main

import (
	"encoding/binary"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"go.f110.dev/go-memcached/server"
)

// A reference parser of request streams, written from the protocol: it says
// which requests a byte stream holds as long as there is no doubt about it.

var (
	decimal = regexp.MustCompile(`^(0|[1-9][0-9]*)$`)
	signed  = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)
)

func plainKey(k string) bool {
	for i := range []byte(k) {
		if k[i] <= ' ' || k[i] >= 0x7f {
			return false
		}
	}
	return k != "" && len(k) <= 250
}

// parsed is what the reference parser found: the requests; how many at the
// front every server has to accept; and whether nothing else follows but the
// beginning of a request.
type parsed struct {
	reqs  []wire
	must  int
	whole bool
}

func (p *parsed) add(w wire, must bool) {
	if must && p.must == len(p.reqs) {
		p.must++
	}
	p.reqs = append(p.reqs, w)
}

func parse(b []byte) *parsed {
	p := &parsed{}
	if len(b) > 0 && b[0] == 0x80 {
		p.binary(b)
	} else {
		p.text(b)
	}
	return p
}

func (p *parsed) text(b []byte) {
	for {
		n := strings.IndexByte(string(b), '\n')
		if n < 0 {
			p.whole = true // incomplete
			return
		}
		line := string(b[:n])
		must := strings.HasSuffix(line, "\r")
		line = strings.TrimSuffix(line, "\r")
		b = b[n+1:]
		if strings.HasSuffix(line, "\r") {
			return
		}
		tok := strings.Split(line, " ")
		for _, t := range tok {
			if t == "" {
				return
			}
		}
		// block takes the data block of a store; ok is whether it is there,
		// and whether it has to be
		block := func(size string) (string, bool) {
			n, err := strconv.ParseInt(size, 10, 32)
			if err != nil || !decimal.MatchString(size) {
				return "", false
			}
			if int64(len(b)) < n+2 {
				// it may be refused before it is whole
				p.whole = true
				for i, c := range b[min(int(n), len(b)):] {
					if c != "\r\n"[i] {
						p.whole = false
					}
				}
				return "", false
			}
			if string(b[n:n+2]) != "\r\n" {
				return "", false
			}
			v := string(b[:n])
			b = b[n+2:]
			return v, true
		}
		keys := tok[1:]
		plain := true
		for _, k := range keys {
			plain = plain && plainKey(k)
		}
		switch cmd := tok[0]; {
		case (cmd == "get" && len(tok) > 2 || cmd == "gets") && len(tok) > 1:
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeGet, Keys: keys}), must && plain)
		case cmd == "get" && len(tok) == 2:
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeGet, Key: tok[1]}), must && plain)
		case (cmd == "set" || cmd == "add" || cmd == "replace") && len(tok) == 5:
			f, err := strconv.ParseUint(tok[2], 10, 32)
			e, err2 := strconv.ParseInt(tok[3], 10, 32)
			if err != nil || err2 != nil || !decimal.MatchString(tok[2]) || !signed.MatchString(tok[3]) {
				return
			}
			v, ok := block(tok[4])
			if !ok {
				return
			}
			p.add(textStore(cmd, tok[1], uint32(f), int(e), v), must && plainKey(tok[1]))
		case cmd == "delete" && len(tok) == 2:
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeDelete, Key: tok[1], DelOpt: &server.DelOpt{}}), must && plain)
		case cmd == "md" && len(tok) == 2:
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeDelete, Key: tok[1], DelOpt: &server.DelOpt{Meta: true}}), must && plain)
		case (cmd == "incr" || cmd == "decr") && len(tok) == 3:
			d, err := strconv.ParseUint(tok[2], 10, 64)
			if err != nil || !decimal.MatchString(tok[2]) {
				return
			}
			op := map[string]server.Opcode{"incr": server.OpcodeIncrement, "decr": server.OpcodeDecrement}[cmd]
			p.add(textLine(cmd, line, server.Request{Opcode: op, Key: tok[1], Delta: int64(d)}), must && plainKey(tok[1]))
		case cmd == "touch" && len(tok) == 3:
			e, err := strconv.ParseInt(tok[2], 10, 32)
			if err != nil || !signed.MatchString(tok[2]) {
				return
			}
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeTouch, Key: tok[1], Delta: e, SetOpt: &server.SetOpt{Expiration: int(e)}}), must && plainKey(tok[1]))
		case cmd == "mg" && len(tok) > 2:
			had := ""
			for _, t := range tok[2:] {
				if !strings.Contains("cfhklqstvO", t[:1]) || len(t) > 1 && t[0] != 'O' || strings.Contains(had, t[:1]) || len(t) > 33 {
					return
				}
				had += t[:1]
			}
			p.add(metaGet(tok[1], tok[2:]...), must && plain)
		case cmd == "ms" && len(tok) > 2:
			had, o := "", server.SetOpt{}
			for _, t := range tok[3:] {
				if strings.Contains(had, t[:1]) || len(t) > 33 {
					return
				}
				had += t[:1]
				u, err := strconv.ParseUint(t[1:], 10, 64)
				num := err == nil && decimal.MatchString(t[1:])
				switch t[0] {
				case 'C':
					o.Cas, o.CasValue = true, u
				case 'F':
					o.Flag = int32(uint32(u))
					num = num && u < 1<<32
				case 'T':
					e, err := strconv.ParseInt(t[1:], 10, 32)
					o.Expiration = int(e)
					num = err == nil && signed.MatchString(t[1:])
				case 'I':
					o.Invalidate, num = true, len(t) == 1
				case 'k':
					o.Key, num = true, len(t) == 1
				case 'q':
					o.NoReply, num = true, len(t) == 1
				case 'O':
					v, err := strconv.ParseInt(t[1:], 10, 64)
					if err == nil {
						if !num {
							return
						}
						o.Opaque = v
					}
					num = true
				case 'M':
					num = t == "ME" || t == "MR" || t == "MS"
				default:
					num = false
				}
				if !num {
					return
				}
			}
			v, ok := block(tok[2])
			if !ok {
				return
			}
			p.add(metaSet(tok[1], v, o, tok[3:]...), must && plain)
		case cmd == "mn" && len(tok) == 1:
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeNoop}), must)
		case cmd == "flush_all" && (len(tok) == 1 || len(tok) == 2 && tok[1] == "0"):
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeFlush}), must)
		case cmd == "version" && len(tok) == 1:
			p.add(textLine(cmd, line, server.Request{Opcode: server.OpcodeVersion}), must)
		default:
			return
		}
	}
}

func (p *parsed) binary(b []byte) {
	for {
		if len(b) < 24 {
			p.whole = len(b) == 0 || b[0] == 0x80
			return
		}
		if b[0] != 0x80 {
			return
		}
		kl, el, tl := int(binary.BigEndian.Uint16(b[2:])), int(b[4]), int64(binary.BigEndian.Uint32(b[8:]))
		opq, cas := binary.BigEndian.Uint32(b[12:]), binary.BigEndian.Uint64(b[16:])
		op := server.Opcode(b[1])
		must := b[5] == 0 && b[6] == 0 && b[7] == 0
		if tl < int64(kl+el) {
			return
		}
		vl := int(tl) - kl - el
		ext, key, val := map[server.Opcode]int{server.OpcodeSet: 8, server.OpcodeAdd: 8, server.OpcodeReplace: 8, server.OpcodeIncrement: 20, server.OpcodeDecrement: 20, server.OpcodeTouch: 4}[op], true, false
		switch op {
		case server.OpcodeGet, server.OpcodeGetKQ, server.OpcodeDelete, server.OpcodeIncrement, server.OpcodeDecrement, server.OpcodeTouch:
		case server.OpcodeSet, server.OpcodeAdd, server.OpcodeReplace:
			val = true
		case server.OpcodeNoop, server.OpcodeVersion, server.OpcodeFlush:
			key = false
			if op == server.OpcodeFlush && el == 4 {
				ext = 4
			}
		default:
			return
		}
		if el != ext || key != (kl > 0) || !val && (vl > 0 || cas != 0) {
			return
		}
		if int64(len(b)) < 24+tl {
			p.whole = true
			return
		}
		x, k, v := b[24:24+el], string(b[24+el:24+el+kl]), string(b[24+el+kl:24+tl])
		b = b[24+tl:]
		must = must && (!key || plainKey(k))
		switch op {
		case server.OpcodeGet, server.OpcodeGetKQ, server.OpcodeDelete:
			p.add(binKey(op, k, opq), must)
		case server.OpcodeSet, server.OpcodeAdd, server.OpcodeReplace:
			p.add(binStore(op, k, binary.BigEndian.Uint32(x), binary.BigEndian.Uint32(x[4:]), v, opq, cas), must)
		case server.OpcodeIncrement, server.OpcodeDecrement:
			p.add(binArith(op, k, binary.BigEndian.Uint64(x), binary.BigEndian.Uint64(x[8:]), binary.BigEndian.Uint32(x[16:]), opq), must)
		case server.OpcodeTouch:
			p.add(binTouch(k, binary.BigEndian.Uint32(x), opq), must)
		default:
			if el == 4 && binary.BigEndian.Uint32(x) != 0 {
				return
			}
			p.add(binBare(op, x, opq), must)
		}
	}
}

// refused reports whether one of the replies is an error.
func refused(b, out []byte) bool {
	if b[0] != 0x80 {
		return strings.Contains(string(out), "ERROR")
	}
	fr, _ := frames(out)
	for _, f := range fr {
		if f.status != 0 {
			return true
		}
	}
	return false
}

// asParsed compares what the handler saw of a stream, and the replies, with
// what the reference parser found in it.
func asParsed(b []byte, seen []*server.Request, out []byte) {
	p := parse(b)
	for i, r := range seen {
		if i == len(p.reqs) {
			if p.whole {
				fail("%q holds %d requests, the handler saw one more: %+v", short(string(b)), i, *r)
			}
			return
		}
		if d := reqDiff(r, &p.reqs[i]); d != "" {
			if i >= p.must && refused(b, out) {
				return // this is what follows
			}
			fail("request %d of %q: %s", i+1, short(string(b)), d)
		}
	}
	if len(seen) < p.must {
		fail("%q begins with %d well-formed requests, the handler saw %d", short(string(b)), p.must, len(seen))
	}
	if p.whole && len(seen) == len(p.reqs) && p.must == len(p.reqs) {
		if d := replyDiff(p.reqs, okAnswers(p.reqs), out); d != "" {
			fail("%q: %s", short(string(b)), d)
		}
		cx.State(fmt.Sprint("whole", len(p.reqs)))
	}
}
