package main

import (
	"os"
	"strings"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

// In the race build (see vsched/race.go) every execution is also judged by the
// race detector. Its reports go to a file, and one counts when both accesses
// were made by the code under test (or by the standard library on its behalf);
// the harness's own bookkeeping is not synchronised and not judged.

type raceLog struct {
	f    *os.File
	off  int64
	seen int
	Read int // reports read
}

var races raceLog

func raceInit(path string) {
	if !vsched.RaceOn || path == "" {
		return
	}
	races.f, _ = os.Open(path)
	races.seen = vsched.RaceErrors()
	vsched.RaceHook = func() string {
		for _, r := range strings.Split(races.fresh(path), "WARNING: DATA RACE\n") {
			if m := raceOf(r); m != "" {
				return m
			}
		}
		return ""
	}
	vsched.RaceSkip = func() { races.fresh(path) }
}

func (l *raceLog) fresh(path string) string {
	n := vsched.RaceErrors()
	if n == l.seen {
		return ""
	}
	l.Read += n - l.seen
	l.seen = n
	if l.f == nil {
		if l.f, _ = os.Open(path); l.f == nil {
			return ""
		}
	}
	fi, err := l.f.Stat()
	if err != nil || fi.Size() <= l.off {
		return ""
	}
	b := make([]byte, fi.Size()-l.off)
	k, _ := l.f.ReadAt(b, l.off)
	l.off += int64(k)
	return string(b[:k])
}

// raceOf describes the race of one report ("" if a side is not the code under
// test's).
func raceOf(report string) string {
	var sides []string
	lines := strings.Split(report, "\n")
	for i := 0; i < len(lines) && len(sides) < 2; i++ {
		l := lines[i]
		if !strings.Contains(l, " at 0x") || !strings.Contains(l, " by ") {
			continue
		}
		kind := strings.ToLower(l[:strings.Index(l, " at 0x")])
		side := ""
		for i++; i+1 < len(lines) && strings.HasPrefix(lines[i], "  "); i += 2 {
			fn := strings.TrimSuffix(strings.TrimSpace(lines[i]), "()")
			if strings.Contains(fn, "/vsched.Keys[") || strings.Contains(fn, "/vsched.Entr") {
				continue // a map range of the code under test
			}
			if strings.HasPrefix(fn, "main.") || strings.Contains(fn, "/internal/zverif/") {
				return ""
			}
			if strings.HasPrefix(fn, "go.f110.dev/go-memcached/") {
				at := strings.Fields(strings.TrimSpace(lines[i+1]))
				where := ""
				if len(at) > 0 {
					where = at[0][strings.LastIndexByte(at[0], '/')+1:]
				}
				side = kind + " in " + strings.TrimPrefix(fn, "go.f110.dev/go-memcached/") + " (" + where + ")"
				break
			}
		}
		if side == "" {
			return ""
		}
		sides = append(sides, side)
	}
	if len(sides) < 2 {
		return ""
	}
	return "data race between unsynchronised goroutines: " + sides[0] + "; " + sides[1]
}
