package main

import (
	"crypto/sha1"
	"fmt"
	"hash/crc32"
	"sort"
	"strings"
)

// The placement rule of C11, written from its text: an independent oracle.

type rpoint struct {
	h    uint32
	name string
}

var ringCache = map[string][]rpoint{}

func ringPoints(names []string) []rpoint {
	key := strings.Join(names, "\x00")
	if ps, ok := ringCache[key]; ok {
		return ps
	}
	var ps []rpoint
	defer func() { ringCache[key] = ps }()
	for _, n := range names {
		for i := 0; i < 200; i++ {
			s := sha1.Sum([]byte(fmt.Sprintf("%s/%d", n, i)))
			ps = append(ps, rpoint{uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3]), n})
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].h < ps[j].h })
	return ps
}

// ownerOf returns the owner of hash h; every owner when points coincide.
func ownersOf(ps []rpoint, h uint32) []string {
	best := sort.Search(len(ps), func(i int) bool { return ps[i].h > h }) - 1
	if best < 0 {
		best = 0
	}
	var o []string
	for best > 0 && ps[best-1].h == ps[best].h {
		best--
	}
	for i := best; i < len(ps) && ps[i].h == ps[best].h; i++ {
		o = append(o, ps[i].name)
	}
	return o
}

func ownerOfKey(names []string, key string) string {
	return ownersOf(ringPoints(names), crc32.ChecksumIEEE([]byte(key)))[0]
}

// keyWithHash constructs a key of legal characters whose CRC-32 is h: CRC-32
// is affine, so the free low bits of 7 characters are solved for.
func keyWithHash(h uint32, prefix string) string {
	base := []byte(prefix + "@@@@@@@")
	n := len(prefix)
	crc := func(b []byte) uint32 { return crc32.ChecksumIEEE(b) }
	c0 := crc(base)
	type row struct {
		v uint32
		m uint64
	}
	var basis [32]row
	for bit := 0; bit < 35; bit++ {
		b := append([]byte(nil), base...)
		b[n+bit/5] ^= 1 << (bit % 5)
		r := row{crc(b) ^ c0, 1 << bit}
		for k := 31; k >= 0 && r.v != 0; k-- {
			if r.v>>k&1 == 0 {
				continue
			}
			if basis[k].v == 0 {
				basis[k] = r
				break
			}
			r.v ^= basis[k].v
			r.m ^= basis[k].m
		}
	}
	want := h ^ c0
	var mask uint64
	for k := 31; k >= 0; k-- {
		if want>>k&1 == 1 {
			if basis[k].v == 0 {
				panic("keyWithHash: no solution")
			}
			want ^= basis[k].v
			mask ^= basis[k].m
		}
	}
	for bit := 0; bit < 35; bit++ {
		if mask>>bit&1 == 1 {
			base[n+bit/5] ^= 1 << (bit % 5)
		}
	}
	if crc(base) != h {
		panic("keyWithHash: wrong")
	}
	return string(base)
}

// keysFor returns n legal keys owned by name.
func keysFor(names []string, name string, n int) []string {
	ps := ringPoints(names)
	var out []string
	for i := 0; len(out) < n; i++ {
		k := fmt.Sprintf("k%d", i)
		if o := ownersOf(ps, crc32.ChecksumIEEE([]byte(k))); len(o) == 1 && o[0] == name {
			out = append(out, k)
		}
	}
	return out
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

// orders returns every order of up to 5 names; of more the rotations, forwards and backwards.
func orders(n int) [][]int {
	if n <= 5 {
		return perms(n)
	}
	var out [][]int
	for r := 0; r < n; r++ {
		f, b := make([]int, n), make([]int, n)
		for i := 0; i < n; i++ {
			f[i] = (r + i) % n
			b[i] = (r + n - i) % n
		}
		out = append(out, f, b)
	}
	return out
}
