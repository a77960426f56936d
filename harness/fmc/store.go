// Package fmc is the reference model of a memcached server: an in-memory store
// with a virtual clock, and wire sessions for the text, meta and binary
// protocols. The model is kept bound to the real server by the conformance
// check (hx conform), which replays enumerated wire traces against memcached.
package fmc

import (
	"fmt"
	"sort"
	"strings"
)

type Ent struct {
	Val   []byte
	Flags uint32
	Exp   int64 // absolute second, 0: never
	Cas   uint64
	Stale bool
	Won   bool
	Coded bool // stored under a base64 key
}

// Req is one well-formed request as the server understood it.
type Req struct {
	Cmd   string
	Key   string
	Val   string
	Flags uint32
	Exp   int64
	Cas   uint64
	Delta uint64
	Quiet bool
	Raw   string
	// Binary requests: the opcode and opaque to answer with.
	Binary bool
	Op     byte
	Opaque uint32
}

func (r Req) String() string { return fmt.Sprintf("%s %q", r.Cmd, r.Key) }

type Store struct {
	Name    string
	M       map[string]*Ent
	casN    uint64
	Now     func() int64
	MaxItem int
	Version string

	// Bad lists protocol violations by the client.
	Bad []string
	Log []Req
	// Hook may answer a request instead of the store.
	Hook func(r *Req) (reply []byte, handled bool)
}

func NewStore(name string, now func() int64) *Store {
	return &Store{Name: name, M: map[string]*Ent{}, Now: now, MaxItem: 1 << 20, Version: "1.6.24"}
}

func (s *Store) bad(f string, a ...interface{}) { s.Bad = append(s.Bad, fmt.Sprintf(f, a...)) }

func (s *Store) NextCas() uint64 { s.casN++; return s.casN }

func (s *Store) SetCasCounter(n uint64) { s.casN = n }

// Get returns the live entry.
func (s *Store) Get(k string) *Ent {
	e := s.M[k]
	if e == nil {
		return nil
	}
	if e.Exp != 0 && e.Exp <= s.Now() {
		delete(s.M, k)
		return nil
	}
	return e
}

const thirtyDays = 60 * 60 * 24 * 30

func (s *Store) abs(exp int64) int64 {
	switch {
	case exp == 0:
		return 0
	case exp < 0:
		return s.Now()
	case exp > thirtyDays:
		return exp
	}
	return s.Now() + exp
}

func (s *Store) Put(k string, v []byte, flags uint32, exp int64) *Ent {
	e := &Ent{Val: append([]byte(nil), v...), Flags: flags, Exp: s.abs(exp), Cas: s.NextCas()}
	s.M[k] = e
	return e
}

func (s *Store) TTL(e *Ent) int64 {
	if e.Exp == 0 {
		return -1
	}
	return e.Exp - s.Now()
}

// Dump is a canonical rendering of the live contents without CAS values.
func (s *Store) Dump() string {
	ks := make([]string, 0, len(s.M))
	for k := range s.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		if e := s.Get(k); e != nil {
			fmt.Fprintf(&sb, "%q=%q f%d t%d", k, abbr(e.Val), e.Flags, s.TTL(e))
			if e.Stale {
				sb.WriteString(" stale")
			}
			sb.WriteString(";")
		}
	}
	return sb.String()
}

func abbr(b []byte) string {
	if len(b) <= 64 {
		return string(b)
	}
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%s..(%d bytes, hash %x)", b[:16], len(b), h)
}

// Result of an operation on the store.
type Res int

const (
	OK Res = iota
	NotFound
	Exists
	NotStored
	TooLarge
	NonNumeric
	BadDelta
)

// Store semantics shared by the three protocols.

func (s *Store) size(k string, v []byte) bool { return len(k)+len(v)+64 <= s.MaxItem }

func (s *Store) SetOp(mode string, k string, v []byte, flags uint32, exp int64, cas uint64) (Res, *Ent) {
	if !s.size(k, v) {
		delete(s.M, k)
		return TooLarge, nil
	}
	e := s.Get(k)
	if cas != 0 {
		if e == nil {
			return NotFound, nil
		}
		if e.Cas != cas {
			return Exists, nil
		}
	}
	switch mode {
	case "add":
		if e != nil {
			return NotStored, nil
		}
	case "replace":
		if e == nil {
			return NotStored, nil
		}
	case "append", "prepend":
		if e == nil {
			return NotStored, nil
		}
		if mode == "append" {
			e.Val = append(append([]byte(nil), e.Val...), v...)
		} else {
			e.Val = append(append([]byte(nil), v...), e.Val...)
		}
		e.Cas = s.NextCas()
		return OK, e
	}
	return OK, s.Put(k, v, flags, exp)
}

func (s *Store) DeleteOp(k string, cas uint64) Res {
	e := s.Get(k)
	if e == nil {
		return NotFound
	}
	if cas != 0 && e.Cas != cas {
		return Exists
	}
	delete(s.M, k)
	return OK
}

func parseU64(b []byte) (uint64, bool) {
	// memcached uses strtoull and accepts trailing white space
	t := strings.TrimRight(string(b), " ")
	if t == "" || len(t) > 20 {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(t); i++ {
		c := t[i]
		if c < '0' || c > '9' {
			return 0, false
		}
		d := uint64(c - '0')
		if n > (^uint64(0)-d)/10 {
			return 0, false
		}
		n = n*10 + d
	}
	return n, true
}

func (s *Store) Arith(incr bool, k string, delta uint64, cas uint64) (Res, uint64, *Ent) {
	e := s.Get(k)
	if e == nil {
		return NotFound, 0, nil
	}
	if len(e.Val) == 0 {
		return NonNumeric, 0, nil
	}
	if cas != 0 && e.Cas != cas {
		return Exists, 0, nil
	}
	n, ok := parseU64(e.Val)
	if !ok {
		return NonNumeric, 0, nil
	}
	if incr {
		n += delta
	} else if n < delta {
		n = 0
	} else {
		n -= delta
	}
	t := fmt.Sprint(n)
	if incr || len(t) >= len(e.Val) {
		if len(t) < len(e.Val) && incr {
			// an increment that wrapped is stored like any other result
			t += strings.Repeat(" ", len(e.Val)-len(t))
		}
	} else {
		t += strings.Repeat(" ", len(e.Val)-len(t))
	}
	e.Val = []byte(t)
	e.Cas = s.NextCas()
	return OK, n, e
}

func (s *Store) TouchOp(k string, exp int64) Res {
	e := s.Get(k)
	if e == nil {
		return NotFound
	}
	e.Exp = s.abs(exp)
	return OK
}

func (s *Store) FlushOp() {
	s.M = map[string]*Ent{}
}
