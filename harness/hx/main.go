package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

type checkDef struct {
	run   func(c *Ctx)
	note  string // what one case is
	assum []string
	race  bool // also runs in the race build
}

var checks = map[string]checkDef{}

// racy checks have cases that are also explored in the race build; see check.sh.
var racy = map[string]bool{"C08": true, "C09": true, "C10": true, "C12": true, "C13": true, "C18": true, "C19": true, "C23": true}

func register(id string, run func(c *Ctx), note string, assum ...string) {
	checks[id] = checkDef{run, note, assum, racy[id]}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hx worker|check|list|conform ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(orchestrate(os.Args[2:]))
	case "conform":
		os.Exit(conformMain(os.Args[2:]))
	case "list":
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		os.Exit(2)
	}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("check", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 1, "")
	secs := fs.Int("secs", 0, "")
	out := fs.String("out", "", "")
	only := fs.String("only", "", "")
	choices := fs.String("choices", "", "")
	verbose := fs.Bool("v", false, "")
	dev := fs.Bool("dev", false, "")
	rlog := fs.String("racelog", "", "where the race detector reports (without the process id)")
	_ = fs.Parse(args)
	if *rlog != "" {
		raceInit(fmt.Sprintf("%s.%d", *rlog, os.Getpid()))
	}
	runtime.GOMAXPROCS(1)
	log.SetOutput(io.Discard)
	c := &Ctx{ID: *id, Tier: *tier, Shard: *shard, N: *n, Only: *only, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, maxViol: 6}
	if *dev {
		c.maxViol = 1
	}
	if *secs > 0 {
		c.Deadline = time.Now().Add(time.Duration(*secs) * time.Second)
	}
	if *choices != "" {
		if err := json.Unmarshal([]byte(*choices), &c.OnlyCh); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if c.OnlyCh == nil {
			c.OnlyCh = []int{}
		}
	}
	write := func() {
		c.finish()
		b, _ := json.Marshal(&c.R)
		if *out == "" {
			if *verbose {
				c.R.States, c.R.Outcomes = nil, nil
				b, _ = json.MarshalIndent(&c.R, "", " ")
			}
			fmt.Println(string(b))
			return
		}
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if *out != "" {
		c.curFile, _ = os.Create(*out + ".cur")
	}
	c.watchdog(write)
	def, ok := checks[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(2)
	}
	cx = c
	def.run(c)
	c.R.Done = true
	write()
}
