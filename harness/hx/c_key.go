package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/internal/zverif/fmc"
)

func init() {
	register("C22", c22, "one case = one key (every byte at every position, every length, keys shaped like commands) x operation x protocol, with the key present and absent, on a server that holds an item under every piece of the key; the requests the server sees, its contents, the result and the connection are judged")
}

// legalEverywhere is the set of keys no protocol has a reason to refuse.
func legalEverywhere(k string) bool {
	if len(k) == 0 || len(k) > 250 {
		return false
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= ' ' || k[i] == 0x7f {
			return false
		}
	}
	return true
}

type namedKey struct{ name, key string }

func allKeys(c *Ctx) []namedKey {
	var ks []namedKey
	add := func(n, k string) { ks = append(ks, namedKey{n, k}) }
	for b := 0; b < 256; b++ {
		x := string([]byte{byte(b)})
		add(fmt.Sprintf("b%02x", b), x)
		add(fmt.Sprintf("first%02x", b), x+"bc")
		add(fmt.Sprintf("mid%02x", b), "a"+x+"c")
		add(fmt.Sprintf("last%02x", b), "ab"+x)
	}
	for n := 0; n <= c.Pick(262, 600); n++ {
		add(fmt.Sprintf("len%d", n), strings.Repeat("k", n))
	}
	for _, n := range []int{511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 65546, 65536 + 250, 70000, 131072} {
		add(fmt.Sprintf("long%d", n), strings.Repeat("k", n))
	}
	for i, k := range []string{
		"a b", "a  b", " a", "a ", "a\r\nb", "a\nb", "a\rb", "\r\n", "a\r\n", "a\r\ndelete b", "a\r\ndelete b\r\n", "a\r\nflush_all\r\n", "a\r\nflush_all\r\nget a",
		"a 0 0 1\r\nx\r\nset b 0 0 1\r\ny\r\nget b", "a 1", "a noreply", "a 0 noreply", "a v", "a q", "a T0", "a 5 I", "a 1\r\nx\r\nmd b", "a b c", "a 0 0 1 noreply", "a 0 0 0\r\n\r\ndelete", "a\tb", "a\x00b", "a\x00\r\nb",
		"noreply", "END", "get", "set", "0", "-1", "q", "k", "v", "a\x7fb", "a\u00a0b", "a\u0085b", "a\u3000b", "a\u2028b", "\u00a0", "a\vb", "a\fb", "日本語", "%s", "%d%n%!", "\xff\xfe", "\x80\x00\x00\x01", "\x81", "mn", "EN", "HD", "VA", "a\r\nmn", "a\r\nmn\r\n", "a\r\n\r\n", "\n", "\r", "a\x01b", "b\r\nb", "a:b", "\"a\"", "'a'", "\\", "a\\r\\nb",
	} {
		add(fmt.Sprintf("shape%d", i), k)
	}
	if c.Thorough() {
		// every pair of bytes which have a meaning somewhere
		meaning := []byte{0, 1, '\t', '\n', '\v', '\f', '\r', ' ', '!', '0', '1', 'a', 'b', 'k', 'q', 'v', 0x7f, 0x80, 0x81, 0x85, 0xa0, 0xc2, 0xff}
		for _, x := range meaning {
			for _, y := range meaning {
				add(fmt.Sprintf("pair%02x%02x", x, y), "a"+string([]byte{x, y})+"b")
				add(fmt.Sprintf("two%02x%02x", x, y), string([]byte{x, y}))
			}
		}
	}
	return ks
}

// pieces of a key that must not be touched in its place.
func pieces(k string) []string {
	set := map[string]bool{"a": true, "b": true, "c": true, "ok": true}
	for _, f := range strings.FieldsFunc(k, func(r rune) bool { return r <= ' ' || r == 0x7f }) {
		if len(f) <= 250 {
			set[f] = true
		}
	}
	if len(k) <= 8 {
		for i := range []byte(k) {
			for j := i + 1; j <= len(k); j++ {
				set[k[i:j]] = true
			}
		}
	}
	if len(k) > 250 {
		for _, n := range []int{1, 127, 128, 249, 250, 251, 255, 256, len(k) & 0xff, len(k) & 0xffff, len(k) - 65536} {
			if n > 0 && n < len(k) {
				set[k[:n]] = true
			}
		}
	}
	delete(set, k)
	delete(set, "")
	var out []string
	for p := range set {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func keyOps(k string) []Op {
	return []Op{
		{K: "get", Key: k}, {K: "multi", Keys: []string{k}}, {K: "multi", Keys: []string{k, "ok"}}, {K: "multi", Keys: []string{"ok", k}}, {K: "multi", Keys: []string{"b", k, "c"}},
		{K: "set", Key: k, Val: "new", Flags: []byte{0, 0, 0, 1}}, {K: "set", Key: k, Val: "get a\r\n\r\nflush_all\r\n"}, {K: "add", Key: k, Val: "new"}, {K: "replace", Key: k, Val: "new", Exp: 30}, {K: "cas", Key: k, Val: "new"},
		{K: "delete", Key: k}, {K: "incr", Key: k, Delta: 2}, {K: "decr", Key: k, Delta: 3}, {K: "touch", Key: k, Exp: 33},
	}
}

func sameKeys(st *fmc.Store, m *Model) string {
	var ks []string
	for k := range st.M {
		ks = append(ks, k)
	}
	for k := range m.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return storeDiff(st, m, ks)
}

func c22(c *Ctx) {
	for _, nk := range allKeys(c) {
		nk := nk
		if nk.key == probeKey {
			continue
		}
		for _, p := range protos {
			p := p
			for oi, op := range keyOps(nk.key) {
				op := op
				for _, present := range []bool{false, true} {
					present := present
					if present && len(nk.key) == 0 {
						continue
					}
					if op.K == "cas" && !present {
						continue
					}
					if len(nk.key) > 300 && present {
						continue
					}
					c.Plain(fmt.Sprintf("%s/%s/%d%s/%v", nk.name, p, oi, op.K, present), func() { oneKey(p, nk.key, op, present) })
				}
			}
		}
	}
	// among many keys
	for _, nk := range allKeys(c) {
		nk := nk
		if nk.key == probeKey || len(nk.key) > 300 || strings.HasPrefix(nk.name, "len") && len(nk.key) > 0 && len(nk.key) < 249 || strings.HasPrefix(nk.name, "first") || strings.HasPrefix(nk.name, "last") {
			continue
		}
		for _, p := range protos {
			p := p
			for _, n := range []int{2, 10, 50, 51, 100, 101, 120} {
				for _, at := range []int{0, 1, n / 2, 49, 50, 51, 99, 100, n - 2, n - 1} {
					if at >= n || at < 0 || !c.Thorough() && n != 51 && n != 120 {
						continue
					}
					var keys []string
					for i := 0; i < n; i++ {
						keys = append(keys, fmt.Sprintf("ok-%d", i))
					}
					keys[at] = nk.key
					c.Plain(fmt.Sprintf("among/%s/%s/%d/%d", nk.name, p, n, at), func() { oneKey(p, nk.key, Op{K: "multi", Keys: keys}, len(nk.key) > 0) })
				}
			}
		}
	}
	// through the pools: the key also decides where to go
	for _, nk := range allKeys(c) {
		nk := nk
		if len(nk.key) > 300 && !c.Thorough() && !strings.HasPrefix(nk.name, "long6553") {
			continue
		}
		for oi, op := range keyOps(nk.key) {
			op := op
			if op.K == "cas" {
				continue
			}
			for _, kind := range []string{"single", "replica"} {
				kind := kind
				if op.K == "touch" && kind == "replica" {
					continue
				}
				c.Plain(fmt.Sprintf("pool-%s/%s/%d%s", nk.name, kind, oi, op.K), func() { poolKey(kind, nk.key, op) })
			}
		}
	}
}

func usesKey(op Op, k string) bool {
	if op.K == "multi" {
		for _, x := range op.Keys {
			if x == k {
				return true
			}
		}
		return false
	}
	return op.Key == k
}

// judge compares a result with the operation on exactly that key, or with a
// refusal. It returns the model afterwards.
func judgeKey(p string, m *Model, op Op, out Out, key string) *Model {
	m1 := m.Clone()
	want := m1.Do(op)
	if !legalEverywhere(key) && out.Err == "error" {
		return m
	}
	if d := Compare(p, op, out, want); d != "" {
		fail("key %q: %s", short(key), d)
	}
	return m1
}

func seen(log []string, op Op) {
	ok := map[string]bool{op.Key: true}
	for _, k := range op.Keys {
		ok[k] = true
	}
	if op.K == "multi" {
		ok[strings.Join(op.Keys, " ")] = true
	}
	for _, r := range log {
		i := strings.IndexByte(r, 0)
		cmd, k := r[:i], r[i+1:]
		if cmd == "mn" || cmd == "noop" || ok[k] {
			continue
		}
		if len(op.Keys) > 3 && allIn(ok, strings.Split(k, " ")) {
			continue // a part of the keys
		}
		fail("for %v the server was asked to %s %q", op.K, cmd, short(k))
	}
}

func allIn(set map[string]bool, l []string) bool {
	for _, k := range l {
		if !set[k] {
			return false
		}
	}
	return true
}

func oneKey(p, key string, op Op, present bool) {
	o := newOne(p, time.Second)
	for i, k := range pieces(key) {
		v := fmt.Sprint(100 + i)
		o.st.Put(k, []byte(v), uint32(i), 0)
		o.m.put(k, v, uint32(i), 0)
	}
	if present {
		e := o.st.Put(key, []byte("55"), 9, 90)
		o.m.put(key, "55", 9, nowSec()+90)
		o.r.tok[key] = []uint64{e.Cas}
		o.m.tok[key] = []uint64{o.m.M[key].ver}
	}
	var log []string
	o.st.Hook = func(r *fmc.Req) ([]byte, bool) {
		log = append(log, r.Cmd+"\x00"+r.Key)
		return nil, false
	}
	out := o.r.Do(op)
	o.m = judgeKey(p, o.m, op, out, key)
	seen(log, op)
	if d := sameKeys(o.st, o.m); d != "" {
		fail("%v of key %q: %s", op.K, short(key), d)
	}
	o.st.Hook = nil
	o.settle([]string{"a", "b"})
	// and works on with another key
	o.run([]Op{{K: "set", Key: "ok", Val: "fine"}, {K: "get", Key: "ok"}}, []string{"ok"})
	if d := sameKeys(o.st, o.m); d != "" {
		fail("after %v of key %q: %s", op.K, short(key), d)
	}
	cx.Trans(1)
	cx.State(p + o.st.Dump())
}

func poolKey(kind, key string, op Op) {
	var w *World
	var kv KV
	var names []string
	if kind == "single" {
		w = NewWorld("n1:11211", "n2:11211", "n3:11211")
		names = []string{"n1:11211", "n2:11211", "n3:11211"}
		var ss []client.Server
		for i, n := range names {
			ss = append(ss, MustConnect(protos[i%len(protos)], n, n, time.Second))
		}
		pool, err := client.NewSinglePool(ss...)
		if err != nil {
			fail("NewSinglePool: %v", err)
		}
		kv = pool
	} else {
		r := newRep(2, 2, time.Second)
		w, kv, names = r.w, r.pool, append(append([]string(nil), r.pn...), r.sn...)
	}
	expSlack = 0
	owners := func(k string) []string {
		if kind == "single" {
			return []string{ownerOfKey(names, k)}
		}
		return []string{ownerOfKey(names[:2], k), ownerOfKey(names[2:], k)}
	}
	proto := "meta"
	if kind == "single" {
		for i, n := range names {
			if n == owners(key)[0] {
				proto = protos[i%len(protos)]
			}
		}
	}
	m := NewModel(proto)
	for i, k := range append(pieces(key), "ok") {
		v := fmt.Sprint(100 + i)
		for _, n := range owners(k) {
			w.Stores[n].Put(k, []byte(v), 0, 0)
		}
		m.put(k, v, 0, 0)
	}
	r := NewRunner(kv)
	out := r.Do(op)
	if op.K == "multi" && out.Err == "" {
		m.Proto = "pool" // several protocols may have answered
		for i := range out.Items {
			out.Items[i].Exp = 0
		}
	}
	m = judgePoolKey(proto, m, op, out, key)
	want := map[string]bool{}
	for k, e := range m.M {
		for _, n := range owners(k) {
			want[n+"\x00"+k] = true
			x := w.Stores[n].Get(k)
			if x == nil || string(x.Val) != e.val {
				fail("%v of key %q: %s should hold %q=%q, holds %v", op.K, short(key), n, short(k), e.val, x)
			}
		}
	}
	for _, n := range names {
		for k := range w.Stores[n].M {
			if !want[n+"\x00"+k] && !(kind == "replica" && proto == "binary") {
				fail("%v of key %q: %s holds %q", op.K, short(key), n, short(k))
			}
		}
	}
	if b := w.Bad(); len(b) > 0 {
		fail("the server was sent a malformed request: %s", b[0])
	}
	for _, l := range w.Links {
		if n := l.C.Pending(); n > 0 && !l.C.Closed() {
			fail("%d bytes of replies were never read", n)
		}
	}
	// every member goes on
	for i := 0; i < 8; i++ {
		k := fmt.Sprintf("on%d", i)
		if err := kv.Set(&client.Item{Key: k, Value: []byte(k), Flags: []byte{0, 0, 0, 0}}); err != nil {
			fail("after %v of key %q, Set of %q: %v", op.K, short(key), k, err)
		}
		if it, err := kv.Get(k); err != nil || string(it.Value) != k {
			fail("after %v of key %q, Get of %q: %v %v", op.K, short(key), k, it, err)
		}
	}
	cx.Trans(1)
}

func judgePoolKey(p string, m *Model, op Op, out Out, key string) *Model {
	if op.K == "multi" && out.Err == "" {
		m1 := m.Clone()
		want := m1.Do(op)
		got := map[string]string{}
		for _, g := range out.Items {
			got[g.Key] = g.Val
		}
		if len(out.Items) != len(want.Items) {
			fail("key %q: %v returned %d items, want %d", short(key), op, len(out.Items), len(want.Items))
		}
		for i, k := range want.Keys {
			if v, ok := got[k]; !ok || v != want.Items[i].val {
				fail("key %q: %v returned %v for %q", short(key), op, v, k)
			}
		}
		return m
	}
	return judgeKey(p, m, op, out, key)
}
