package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"strings"

	"go.f110.dev/go-memcached/internal/zverif/vnet"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
	"go.f110.dev/go-memcached/server"
)

// Srv is a running server.Server with a programmable handler.
type Srv struct {
	L      *vnet.Lis
	S      *server.Server
	Reqs   []*server.Request
	Ans    func(r *server.Request) ([]*server.Response, error)
	Ended  bool
	EndErr error
	h      *vsched.Handle
	n      int
}

func (s *Srv) ServeRequest(r *server.Request) ([]*server.Response, error) {
	s.Reqs = append(s.Reqs, r)
	if s.Ans == nil {
		return okAnswer(r), nil
	}
	return s.Ans(r)
}

// okAnswer is a plain success; a get finds key=value "v-<key>".
func okAnswer(r *server.Request) []*server.Response {
	switch r.Opcode {
	case server.OpcodeGet:
		keys := r.Keys
		if keys == nil {
			keys = []string{r.Key}
		}
		res := []*server.Response{}
		for _, k := range keys {
			res = append(res, &server.Response{Key: k, Value: []byte("v-" + k), Flags: []byte{0, 0, 0, 7}, Cas: 9, TTL: 30})
		}
		return res
	case server.OpcodeIncrement, server.OpcodeDecrement:
		return []*server.Response{{Value: []byte("12345678")}}
	case server.OpcodeVersion:
		return []*server.Response{{Value: []byte("VERSION 1.2.3")}}
	}
	return []*server.Response{{}}
}

func newSrv() *Srv {
	s := &Srv{L: vnet.NewListener()}
	s.S = &server.Server{Handler: s}
	s.h = vsched.GoNamed("serve", func() {
		s.EndErr = s.S.Serve(s.L)
		s.Ended = true
	})
	return s
}

// SC is the client's view of one raw connection to a Srv.
type SC struct {
	C   *vnet.MConn // the server's end
	Out []byte      // what the server wrote
	// WriteErr makes the server's writes fail.
	WriteErr error
	// Full makes the server's writes wait: the client does not read and takes
	// no more than Window further bytes.
	Full   bool
	Window int
}

func (s *Srv) Open() *SC {
	s.n++
	c := &SC{C: vnet.NewConn(fmt.Sprintf("client%d", s.n))}
	c.C.OnWrite = func(p []byte) (int, error) {
		if c.WriteErr != nil {
			return 0, c.WriteErr
		}
		if c.Full && c.Window < len(p) {
			n := c.Window
			c.Window = 0
			c.Out = append(c.Out, p[:n]...)
			return n, vnet.ErrStall
		}
		if c.Full {
			c.Window -= len(p)
		}
		c.Out = append(c.Out, p...)
		return len(p), nil
	}
	c.C.Room = func() bool { return c.WriteErr != vnet.ErrStall && (!c.Full || c.Window > 0) }
	s.L.Push(c.C)
	return c
}

// Send delivers the chunks and waits until the server has nothing left to do.
func (c *SC) Send(chunks ...[]byte) {
	for _, b := range chunks {
		c.C.Deliver(b)
	}
	vsched.Idle()
}

func (c *SC) EOF() {
	c.C.DeliverEOF(io.EOF)
	vsched.Idle()
}

// wire is one request as bytes, what the handler must see, and what the reply
// to a plain success is.
type wire struct {
	name  string
	bin   bool
	bytes []byte
	want  server.Request
	cmd   string // how the reply is formatted: text name or binary opcode name
	quiet bool
	toks  []string // return flags of a meta request
	opq   uint32
	op    byte
}

func binReq(op byte, key string, extras, val []byte, opaque uint32, cas uint64) []byte {
	h := make([]byte, 24)
	h[0], h[1] = 0x80, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(extras))
	binary.BigEndian.PutUint32(h[8:], uint32(len(key)+len(extras)+len(val)))
	binary.BigEndian.PutUint32(h[12:], opaque)
	binary.BigEndian.PutUint64(h[16:], cas)
	return append(append(append(h, extras...), key...), val...)
}

func be32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }
func be64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }

// reqDiff compares what the handler saw with what was sent.
func reqDiff(got *server.Request, w *wire) string {
	e := &w.want
	if got.Opcode != e.Opcode {
		return fmt.Sprintf("opcode %d, want %d", got.Opcode, e.Opcode)
	}
	if got.Key != e.Key {
		return fmt.Sprintf("key %q, want %q", short(got.Key), short(e.Key))
	}
	if len(e.Keys) > 0 && !reflect.DeepEqual(got.Keys, e.Keys) {
		return fmt.Sprintf("keys %q, want %q", got.Keys, e.Keys)
	}
	if string(got.Value) != string(e.Value) {
		return fmt.Sprintf("value %q, want %q", short(string(got.Value)), short(string(e.Value)))
	}
	if string(got.Flags) != string(e.Flags) {
		return fmt.Sprintf("flags %x, want %x", got.Flags, e.Flags)
	}
	if got.Delta != e.Delta {
		return fmt.Sprintf("delta %d, want %d", got.Delta, e.Delta)
	}
	if e.SetOpt != nil {
		if got.SetOpt == nil {
			return "no SetOpt"
		}
		g, s := *got.SetOpt, *e.SetOpt
		g.Size, s.Size, g.RequestFlag, s.RequestFlag = 0, 0, "", ""
		if g != s {
			return fmt.Sprintf("SetOpt %+v, want %+v", g, s)
		}
	}
	if e.GetOpt != nil {
		if got.GetOpt == nil {
			return "no GetOpt"
		}
		g, s := *got.GetOpt, *e.GetOpt
		g.RequestFlag, s.RequestFlag = "", ""
		if g != s {
			return fmt.Sprintf("GetOpt %+v, want %+v", g, s)
		}
	}
	if e.DelOpt != nil && (got.DelOpt == nil || *got.DelOpt != *e.DelOpt) {
		return fmt.Sprintf("DelOpt %+v, want %+v", got.DelOpt, e.DelOpt)
	}
	return ""
}

const anyText = "\x00<any text>\x00"

// matchText compares got with want, in which anyText stands for the rest of a
// line.
func matchText(got, want string) bool {
	for {
		i := strings.Index(want, anyText)
		if i < 0 {
			return got == want
		}
		if !strings.HasPrefix(got, want[:i]) {
			return false
		}
		got, want = got[i:], want[i+len(anyText):]
		j := strings.Index(got, "\r\n")
		if j < 0 || strings.ContainsAny(got[:j], "\r\n") {
			return false
		}
		got = got[j:]
	}
}

type frame struct {
	op     byte
	status uint16
	opq    uint32
	cas    uint64
	ext    string
	key    string
	val    string
}

func frames(b []byte) ([]frame, string) {
	var out []frame
	for len(b) > 0 {
		if len(b) < 24 {
			return out, fmt.Sprintf("%d stray bytes %q", len(b), b)
		}
		if b[0] != 0x81 {
			return out, fmt.Sprintf("magic %#x", b[0])
		}
		kl, el, tl := int(binary.BigEndian.Uint16(b[2:])), int(b[4]), int(binary.BigEndian.Uint32(b[8:]))
		if b[5] != 0 {
			return out, "data type is not 0"
		}
		if kl+el > tl || len(b) < 24+tl {
			return out, fmt.Sprintf("lengths key %d extras %d body %d of %d bytes", kl, el, tl, len(b)-24)
		}
		body := b[24 : 24+tl]
		out = append(out, frame{b[1], binary.BigEndian.Uint16(b[6:]), binary.BigEndian.Uint32(b[12:]), binary.BigEndian.Uint64(b[16:]),
			string(body[:el]), string(body[el : el+kl]), string(body[el+kl:])})
		b = b[24+tl:]
	}
	return out, ""
}
