package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/internal/zverif/fmc"
	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func sortStrings(s []string) { sort.Strings(s) }

// KV is what the operations of this library look like from outside.
type KV interface {
	Get(key string) (*client.Item, error)
	GetMulti(keys ...string) ([]*client.Item, error)
	Set(item *client.Item) error
	Add(item *client.Item) error
	Replace(item *client.Item) error
	Delete(key string) error
	Increment(key string, delta int, expiration int) (int64, error)
	Decrement(key string, delta int, expiration int) (int64, error)
}

type toucher interface {
	Touch(key string, expiration int) error
}
type flusher interface{ Flush() error }

// Op is one step of a history.
type Op struct {
	K     string // get multi set add replace cas casold delete incr decr touch flush version wait
	Key   string
	Keys  []string
	Val   string
	Flags []byte
	Exp   int
	Delta int
}

func (o Op) String() string {
	switch o.K {
	case "get", "delete", "rmw":
		return o.K + " " + o.Key
	case "multi":
		return "multi " + strings.Join(o.Keys, ",")
	case "incr", "decr":
		return fmt.Sprintf("%s %s %d", o.K, o.Key, o.Delta)
	case "touch":
		return fmt.Sprintf("touch %s %d", o.Key, o.Exp)
	case "wait":
		return fmt.Sprintf("wait %ds", o.Exp)
	case "flush", "version":
		return o.K
	}
	v := o.Val
	if len(v) > 12 {
		v = fmt.Sprintf("%s..%d", v[:4], len(v))
	}
	s := fmt.Sprintf("%s %s=%q", o.K, o.Key, v)
	if o.Flags != nil {
		s += fmt.Sprintf(" f%x", o.Flags)
	}
	if o.Exp != 0 {
		s += fmt.Sprintf(" t%d", o.Exp)
	}
	return s
}

// Out is the outcome of a step, as the caller sees it.
type Out struct {
	Err   string // "", notfound, exists, error
	Raw   error
	Items []Got
	N     int64
	Str   string
}

type Got struct {
	Key   string
	Val   string
	Flags uint32
	FlagN int
	Exp   int
	Cas   uint64
}

func (o Out) String() string {
	if o.Err != "" {
		if o.Raw != nil {
			return fmt.Sprintf("%s(%v)", o.Err, o.Raw)
		}
		return o.Err
	}
	s := "ok"
	for _, g := range o.Items {
		v := g.Val
		if len(v) > 24 {
			v = fmt.Sprintf("%s..(%d, %x)", v[:8], len(v), hash(v))
		}
		s += fmt.Sprintf(" {%s %q f%d t%d c%d}", g.Key, v, g.Flags, g.Exp, g.Cas)
	}
	if o.N != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	return s + o.Str
}

func classify(err error) string {
	switch {
	case err == nil:
		return ""
	case err == error(merrors.ItemNotFound):
		return "notfound"
	case err == error(merrors.ItemExists):
		return "exists"
	}
	if m, ok := err.(*merrors.MemcachedError); ok {
		switch m.Status {
		case merrors.ItemNotFound.Status:
			return "notfound"
		case merrors.ItemExists.Status:
			return "exists"
		}
	}
	return "error"
}

func errOut(err error) Out { return Out{Err: classify(err), Raw: err} }

func got(it *client.Item) Got {
	g := Got{Key: it.Key, Val: string(it.Value), FlagN: len(it.Flags), Exp: it.Expiration, Cas: it.Cas}
	if len(it.Flags) == 4 {
		g.Flags = binary.BigEndian.Uint32(it.Flags)
	}
	return g
}

// Runner applies steps to the real code. tok remembers the CAS tokens a
// caller has seen, newest last.
type Runner struct {
	KV    KV
	tok   map[string][]uint64
	items map[string]*client.Item
	keep  *[]*client.Item
}

func NewRunner(kv KV) *Runner {
	return &Runner{KV: kv, tok: map[string][]uint64{}, items: map[string]*client.Item{}}
}

func (r *Runner) see(it *client.Item) {
	if r.keep != nil {
		*r.keep = append(*r.keep, it)
	}
	r.items[it.Key] = it
	t := r.tok[it.Key]
	if len(t) == 0 || t[len(t)-1] != it.Cas {
		r.tok[it.Key] = append(t, it.Cas)
	}
}

func (r *Runner) item(o Op) *client.Item {
	it := &client.Item{Key: o.Key, Value: []byte(o.Val), Expiration: o.Exp}
	if o.Flags != nil {
		it.Flags = append([]byte(nil), o.Flags...)
	}
	return it
}

// DoKeep is Do that also hands out the items themselves.
func (r *Runner) DoKeep(o Op, items *[]*client.Item) Out {
	r.keep = items
	out := r.Do(o)
	r.keep = nil
	return out
}

func (r *Runner) Do(o Op) Out {
	switch o.K {
	case "get":
		it, err := r.KV.Get(o.Key)
		if err != nil {
			return errOut(err)
		}
		if it == nil {
			return Out{Err: "nil item without error"}
		}
		r.see(it)
		return Out{Items: []Got{got(it)}}
	case "multi":
		its, err := r.KV.GetMulti(o.Keys...)
		if err != nil {
			return errOut(err)
		}
		out := Out{}
		for _, it := range its {
			if it == nil {
				return Out{Err: "nil item in the result"}
			}
			r.see(it)
			out.Items = append(out.Items, got(it))
		}
		return out
	case "set":
		return errOut(r.KV.Set(r.item(o)))
	case "cas", "casold":
		it := r.item(o)
		t := r.tok[o.Key]
		if len(t) == 0 {
			return Out{Str: " skipped"}
		}
		it.Cas = t[len(t)-1]
		if o.K == "casold" {
			it.Cas = t[0]
		}
		return errOut(r.KV.Set(it))
	case "rmw":
		it := r.items[o.Key]
		if it == nil {
			return Out{Str: " skipped"}
		}
		cp := *it
		return errOut(r.KV.Set(&cp))
	case "add":
		return errOut(r.KV.Add(r.item(o)))
	case "replace":
		return errOut(r.KV.Replace(r.item(o)))
	case "delete":
		return errOut(r.KV.Delete(o.Key))
	case "incr":
		n, err := r.KV.Increment(o.Key, o.Delta, o.Exp)
		if err != nil {
			return errOut(err)
		}
		return Out{N: n}
	case "decr":
		n, err := r.KV.Decrement(o.Key, o.Delta, o.Exp)
		if err != nil {
			return errOut(err)
		}
		return Out{N: n}
	case "touch":
		return errOut(r.KV.(toucher).Touch(o.Key, o.Exp))
	case "flush":
		return errOut(r.KV.(flusher).Flush())
	case "version":
		switch v := r.KV.(type) {
		case interface{ Version() (string, error) }:
			s, err := v.Version()
			if err != nil {
				return errOut(err)
			}
			return Out{Str: " " + s}
		}
	case "wait":
		vsched.Sleep(int64(o.Exp) * int64(time.Second))
		return Out{}
	}
	panic("unknown op " + o.K)
}

// Model is the reference: a map with versions, what the user is promised.
type Model struct {
	Proto string // how the contract of this access path differs, see expect*
	M     map[string]*ment
	ver   uint64
	tok   map[string][]uint64
	last  map[string]ment
}

type ment struct {
	val   string
	flags uint32
	exp   int64
	ver   uint64
	at    int64 // when it was read
}

func NewModel(proto string) *Model {
	return &Model{Proto: proto, M: map[string]*ment{}, tok: map[string][]uint64{}, last: map[string]ment{}}
}

func (m *Model) Clone() *Model {
	c := NewModel(m.Proto)
	c.ver = m.ver
	for k, e := range m.M {
		x := *e
		c.M[k] = &x
	}
	for k, t := range m.tok {
		c.tok[k] = append([]uint64(nil), t...)
	}
	for k, l := range m.last {
		c.last[k] = l
	}
	return c
}

func (m *Model) get(k string) *ment {
	e := m.M[k]
	if e != nil && e.exp != 0 && e.exp <= nowSec() {
		delete(m.M, k)
		return nil
	}
	return e
}

// absExp is when an item given expiration e expires.
func (m *Model) absExp(e int) int64 {
	if m.Proto == "binary" {
		e = int(uint32(e)) // the field is unsigned
	}
	switch {
	case e == 0:
		return 0
	case e < 0:
		return nowSec()
	case e > 60*60*24*30:
		return int64(e)
	}
	return nowSec() + int64(e)
}

func (m *Model) put(k, v string, f uint32, exp int64) {
	m.ver++
	m.M[k] = &ment{val: v, flags: f, exp: exp, ver: m.ver}
}

func flagsOf(b []byte) uint32 {
	if len(b) == 4 {
		return binary.BigEndian.Uint32(b)
	}
	return 0
}

// Want is what the contract allows for one step.
type Want struct {
	Err   string // allowed error classes separated by '|'; "ok" is success
	Items []ment
	Keys  []string
	N     int64
	HasN  bool
	Skip  bool
}

func (m *Model) see(k string, e *ment) {
	t := m.tok[k]
	if len(t) == 0 || t[len(t)-1] != e.ver {
		m.tok[k] = append(t, e.ver)
	}
	l := *e
	l.at = nowSec()
	m.last[k] = l
}

func (m *Model) Do(o Op) Want {
	switch o.K {
	case "get":
		e := m.get(o.Key)
		if e == nil {
			return Want{Err: "notfound"}
		}
		m.see(o.Key, e)
		return Want{Err: "ok", Items: []ment{*e}, Keys: []string{o.Key}}
	case "multi":
		w := Want{Err: "ok"}
		seen := map[string]bool{}
		for _, k := range o.Keys {
			if e := m.get(k); e != nil {
				if !seen[k] {
					m.see(k, e)
				}
				seen[k] = true
				w.Items = append(w.Items, *e)
				w.Keys = append(w.Keys, k)
			}
		}
		return w
	case "set":
		m.put(o.Key, o.Val, flagsOf(o.Flags), m.absExp(o.Exp))
		return Want{Err: "ok"}
	case "cas", "casold":
		t := m.tok[o.Key]
		if len(t) == 0 {
			return Want{Err: "ok", Skip: true}
		}
		v := t[len(t)-1]
		if o.K == "casold" {
			v = t[0]
		}
		e := m.get(o.Key)
		if e == nil {
			return Want{Err: "notfound"}
		}
		if e.ver != v {
			return Want{Err: "exists"}
		}
		m.put(o.Key, o.Val, flagsOf(o.Flags), m.absExp(o.Exp))
		return Want{Err: "ok"}
	case "rmw":
		l, ok := m.last[o.Key]
		if !ok {
			return Want{Err: "ok", Skip: true}
		}
		e := m.get(o.Key)
		if e == nil {
			return Want{Err: "notfound"}
		}
		if e.ver != l.ver {
			return Want{Err: "exists"}
		}
		exp := int64(0)
		if ttlReported(m.Proto) && l.exp != 0 {
			exp = l.exp
			if left := l.exp - l.at; left <= 60*60*24*30 {
				exp = nowSec() + left // counted from the store again
			}
		}
		m.put(o.Key, l.val, l.flags, exp)
		return Want{Err: "ok"}
	case "add":
		if m.get(o.Key) != nil {
			return Want{Err: "exists"}
		}
		m.put(o.Key, o.Val, flagsOf(o.Flags), m.absExp(o.Exp))
		return Want{Err: "ok"}
	case "replace":
		if m.get(o.Key) == nil {
			return Want{Err: "notfound"}
		}
		m.put(o.Key, o.Val, flagsOf(o.Flags), m.absExp(o.Exp))
		return Want{Err: "ok"}
	case "delete":
		if m.get(o.Key) == nil {
			if m.Proto == "meta" {
				return Want{Err: "ok|notfound"}
			}
			return Want{Err: "notfound"}
		}
		delete(m.M, o.Key)
		return Want{Err: "ok"}
	case "incr", "decr":
		e := m.get(o.Key)
		if e == nil {
			if m.Proto == "binary" && o.Exp != -1 {
				// all ones tell the server not to create the counter
				m.put(o.Key, "1", 0, m.absExp(o.Exp))
				return Want{Err: "ok", N: 1, HasN: true}
			}
			return Want{Err: "notfound"}
		}
		n, ok := parseNum(e.val)
		if !ok {
			return Want{Err: "error"}
		}
		if o.K == "incr" {
			n += uint64(o.Delta)
		} else if n < uint64(o.Delta) {
			n = 0
		} else {
			n -= uint64(o.Delta)
		}
		t := fmt.Sprint(n)
		for len(t) < len(e.val) {
			t += " "
		}
		m.put(o.Key, t, e.flags, e.exp)
		return Want{Err: "ok", N: int64(n), HasN: true}
	case "touch":
		e := m.get(o.Key)
		if e == nil {
			return Want{Err: "notfound"}
		}
		e.exp = m.absExp(o.Exp)
		return Want{Err: "ok"}
	case "flush":
		m.M = map[string]*ment{}
		return Want{Err: "ok"}
	case "version", "wait":
		return Want{Err: "ok"}
	}
	panic("unknown op " + o.K)
}

func parseNum(s string) (uint64, bool) {
	s = strings.TrimRight(s, " ")
	if s == "" {
		return 0, false
	}
	var n uint64
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
		d := uint64(c - '0')
		if n > (^uint64(0)-d)/10 {
			return 0, false
		}
		n = n*10 + d
	}
	return n, true
}

func allowed(set, got string) bool {
	if got == "" {
		got = "ok"
	}
	for _, s := range strings.Split(set, "|") {
		if s == got || s == "error" && (got == "notfound" && false) {
			return true
		}
	}
	return false
}

// ttlReported says whether items read over this path carry the remaining time.
func ttlReported(proto string) bool { return proto == "meta" }

// Compare returns "" when out is allowed by want.
func Compare(proto string, o Op, out Out, w Want) string {
	if w.Skip {
		return ""
	}
	if !allowed(w.Err, out.Err) {
		return fmt.Sprintf("%v: got %v, allowed: %s", o, out, w.Err)
	}
	if out.Err != "" {
		return ""
	}
	if w.HasN && out.N != w.N {
		return fmt.Sprintf("%v: got counter value %d, want %d", o, out.N, w.N)
	}
	if o.K == "get" || o.K == "multi" {
		if len(out.Items) != len(w.Items) {
			return fmt.Sprintf("%v: got %d items (%v), want %d (%v)", o, len(out.Items), out, len(w.Items), w.Keys)
		}
		used := make([]bool, len(w.Items))
	items:
		for _, g := range out.Items {
			why := "no such item requested"
			for i, e := range w.Items {
				if used[i] || w.Keys[i] != g.Key {
					continue
				}
				why = itemDiff(proto, g, e)
				if why == "" {
					used[i] = true
					continue items
				}
			}
			return fmt.Sprintf("%v: item %q: %s", o, g.Key, why)
		}
	}
	return ""
}

func itemDiff(proto string, g Got, e ment) string {
	if g.Val != e.val {
		return fmt.Sprintf("got value %q, want %q", short(g.Val), short(e.val))
	}
	if g.FlagN != 4 || g.Flags != e.flags {
		return fmt.Sprintf("got flags %#x (%d bytes), want %#x", g.Flags, g.FlagN, e.flags)
	}
	if g.Cas == 0 {
		return "got no CAS token"
	}
	if e.exp == 0 {
		if g.Exp != 0 {
			return fmt.Sprintf("got expiration %d for an item that does not expire", g.Exp)
		}
	} else if e.exp > 0 && ttlReported(proto) {
		want := int(e.exp - nowSec())
		if want > 60*60*24*30 {
			want = int(e.exp)
		}
		if g.Exp < want || g.Exp > want+int(expSlack) {
			return fmt.Sprintf("got expiration %d, want %d", g.Exp, want)
		}
	}
	return ""
}

func short(s string) string {
	if len(s) <= 40 {
		return s
	}
	return fmt.Sprintf("%s..%s (%d bytes)", s[:16], s[len(s)-8:], len(s))
}

// expSlack is by how many seconds an expiry may be later than the model's.
var expSlack int64

// storeDiff compares the contents of a reference server with the model.
func storeDiff(s *fmc.Store, m *Model, keys []string) string {
	for _, k := range keys {
		e, w := s.Get(k), m.get(k)
		switch {
		case e == nil && w == nil:
		case e == nil:
			return fmt.Sprintf("server lost %q", k)
		case w == nil:
			return fmt.Sprintf("server still holds %q=%q", k, short(string(e.Val)))
		case string(e.Val) != w.val:
			return fmt.Sprintf("server holds %q=%q, want %q", k, short(string(e.Val)), short(w.val))
		case e.Flags != w.flags:
			return fmt.Sprintf("server holds %q with flags %#x, want %#x", k, e.Flags, w.flags)
		case w.exp >= 0 && (e.Exp < w.exp || e.Exp > w.exp+expSlack):
			return fmt.Sprintf("server holds %q with expiry %d, want %d (now %d)", k, e.Exp, w.exp, nowSec())
		case e.Stale:
			return fmt.Sprintf("server holds %q marked stale", k)
		}
	}
	return ""
}
