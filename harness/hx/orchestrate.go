package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type finding struct{ prop, key, raw string }

// loadFindings reads lines "known: property=<id> case=<prefix> <what>".
func loadFindings(path, id string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		f := strings.Fields(l)
		for _, w := range f {
			if strings.HasPrefix(w, "case=") {
				out = append(out, finding{id, strings.TrimPrefix(w, "case="), strings.Join(f[1:], " ")})
			}
		}
	}
	return out
}

func orchestrate(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	secs := fs.Int("secs", 0, "")
	work := fs.String("work", "", "scratch directory")
	nWorkers := fs.Int("workers", 8, "worker processes")
	dev := fs.Bool("dev", false, "for trying out changes: stop at the first violation, no conformance run")
	_ = fs.Parse(args)
	start := time.Now()
	def, ok := checks[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		return 2
	}
	n := *nWorkers
	if *secs == 0 {
		*secs = 500
		if *tier == "thorough" {
			*secs = 700
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	self, _ := os.Executable()

	var conf conformResult
	var confWG sync.WaitGroup
	confWG.Add(1)
	go func() {
		defer confWG.Done()
		if *dev {
			return
		}
		conf = conform(*work, *tier, 20*time.Second)
	}()
	confWG.Wait()

	reps := make([]Report, n)
	fails := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			reps[i], fails[i] = runWorker(self, *work, fmt.Sprintf("w%d", i), time.Duration(*secs+150)*time.Second,
				"-check", *id, "-tier", *tier, "-shard", fmt.Sprint(i), "-n", fmt.Sprint(n), "-secs", fmt.Sprint(*secs), fmt.Sprintf("-dev=%v", *dev))
		}(i)
	}
	wg.Wait()
	// the same check's concurrent cases once more, judged by the race detector
	raceCases, raceExecs, raceCapped := 0, 0, false
	raced := filepath.Join(*work, "hxr")
	if _, err := os.Stat(raced); err == nil && def.race {
		rl := filepath.Join(*work, "race")
		rs := 150
		if *tier == "thorough" {
			rs = 600
		}
		rreps, rfails := make([]Report, n), make([]string, n)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rreps[i], rfails[i] = runWorker(raced, *work, fmt.Sprintf("w%d", n+i), time.Duration(rs+100)*time.Second,
					"-check", *id, "-tier", *tier, "-shard", fmt.Sprint(i), "-n", fmt.Sprint(n), "-secs", fmt.Sprint(rs), fmt.Sprintf("-dev=%v", *dev), "-racelog", rl)
			}(i)
		}
		wg.Wait()
		for i, r := range rreps {
			raceCases += r.Cases
			raceExecs += r.Execs
			raceCapped = raceCapped || r.Capped
			r.Capped = false
			for j := range r.Violations {
				r.Violations[j].Race = true
			}
			rreps[i] = r
		}
		reps, fails = append(reps, rreps...), append(fails, rfails...)
	}

	var viol []Violation
	var notes []string
	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	groups := map[string]int{}
	execs, cases, trans, decs, skipped := 0, 0, 0, 0, 0
	capped := false
	var samples []string
	for i, r := range reps {
		if fails[i] != "" {
			notes = append(notes, fmt.Sprintf("worker %d: %s", i, fails[i]))
			capped = true
			if strings.Contains(fails[i], "fatal error:") || strings.Contains(fails[i], "panic:") || strings.Contains(fails[i], "killed") {
				viol = append(viol, Violation{Case: "worker-crash", Message: "the process running the code under test died: " + fails[i]})
			}
			continue
		}
		viol = append(viol, r.Violations...)
		for _, v := range r.Flaky {
			notes = append(notes, "not reproducible: "+v.Case+": "+v.Message)
		}
		notes = append(notes, r.Internal...)
		for _, s := range r.States {
			states[s] = struct{}{}
		}
		for _, s := range r.Outcomes {
			outcomes[s] = struct{}{}
		}
		for g, k := range r.Groups {
			groups[g] += k
		}
		execs += r.Execs
		cases += r.Cases
		trans += r.Transitions
		decs += r.Decisions
		skipped += r.Skipped
		capped = capped || r.Capped
		if len(samples) < 6 {
			samples = append(samples, r.Samples...)
		}
	}
	sort.Slice(viol, func(i, j int) bool {
		if len(viol[i].Choices) != len(viol[j].Choices) {
			return len(viol[i].Choices) < len(viol[j].Choices)
		}
		return len(viol[i].Case) < len(viol[j].Case)
	})

	// a hang or a crash is believed only when a new process shows it again
	var confirmed []Violation
	for _, v := range viol {
		if len(confirmed) >= 4 {
			break
		}
		if v.Case == "worker-crash" {
			if w, ok := bisectCrash(self, *work, *id, *tier, fails, n); ok {
				confirmed = append(confirmed, w)
			} else {
				notes = append(notes, "crash not reproduced: "+v.Message)
			}
			continue
		}
		if strings.HasPrefix(v.Message, "hang:") {
			bin := self
			if v.Race {
				bin = raced
			}
			r, f := runWorker(bin, *work, "confirm", 120*time.Second, "-check", *id, "-tier", *tier, "-only", v.Case)
			if f == "" && len(r.Violations) == 0 {
				notes = append(notes, "hang not reproduced: "+v.Case)
				continue
			}
		}
		confirmed = append(confirmed, v)
	}

	known := loadFindings(filepath.Join(*verif, "known_findings.txt"), *id)
	exit := 0
	nviol := 0
	printed := map[string]bool{}
	for _, v := range confirmed {
		isKnown := false
		for _, k := range known {
			if v.Case == k.key {
				isKnown = true
				if !printed[k.raw] {
					printed[k.raw] = true
					fmt.Printf("KNOWN-FINDING: %s\n", k.raw)
				}
			}
		}
		if isKnown {
			continue
		}
		nviol++
		if exit == 0 {
			exit = 1
			dir := filepath.Join(*verif, "replays")
			_ = os.MkdirAll(dir, 0o755)
			rp := filepath.Join(dir, fmt.Sprintf("%s-%x.json", *id, hash(v.Case+fmt.Sprint(v.Choices))))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": *id, "tier": *tier, "case": v.Case, "choices": v.Choices,
				"race": v.Race, "message": v.Message, "observations": v.Obs, "replay": fmt.Sprintf("sh /verif/replay.sh %s", rp)}, "", " ")
			_ = os.WriteFile(rp, b, 0o644)
			fmt.Printf("case: %s\nchoices: %v\n%s\n", v.Case, v.Choices, v.Message)
			for _, o := range tail(v.Obs, 30) {
				fmt.Println("  |", o)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *id, rp)
		}
	}
	smp := make([]interface{}, 0)
	for i, s := range samples {
		if i < 6 {
			smp = append(smp, s)
		}
	}
	if trans == 0 {
		trans = decs + execs
	}
	cov := map[string]interface{}{
		"states":                               len(states) + len(outcomes),
		"transitions":                          trans,
		"traces_validated_against_impl":        execs,
		"cases":                                cases,
		"scheduling_and_environment_decisions": decs,
		"distinct_observed_outcomes":           len(outcomes),
		"executions_by_group":                  groups,
		"rule":                                 def.note,
		"samples":                              smp,
		"exhaustive":                           !capped && skipped == 0,
		"cases_skipped":                        skipped,
		"race_detector_cases":                  raceCases,
		"race_detector_executions":             raceExecs,
		"race_detector_capped":                 raceCapped,
		"reference_model_conformance":          conf,
	}
	if len(notes) > 0 {
		cov["notes"] = tail(notes, 20)
	}
	ev := map[string]interface{}{
		"property": *id, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{
			"goroutine switches happen at synchronisation, channel, timer and connection operations, and in the groups named stmt also between any two statements; memory is sequentially consistent",
			"the peer is the reference memcached model (package fmc), replayed against the real memcached binary as listed under reference_model_conformance",
		}, def.assum...),
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d executions, %d transitions, %d states, %d outcomes, exhaustive=%v, conformance traces %d (mismatches %d), %.1fs\n",
		*id, *tier, cases, execs, trans, len(states), len(outcomes), !capped && skipped == 0, conf.Traces, conf.Mismatches, time.Since(start).Seconds())
	for _, x := range tail(notes, 5) {
		fmt.Println("note:", x)
	}
	return exit
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runWorker(self, work, name string, limit time.Duration, args ...string) (Report, string) {
	var r Report
	out := filepath.Join(work, name+".json")
	_ = os.Remove(out)
	cmd := exec.Command(self, append(append([]string{"worker"}, args...), "-out", out)...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOTRACEBACK=all",
		"GORACE=exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(work, "race"))
	if err := cmd.Start(); err != nil {
		return r, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = cmd.Process.Kill()
		<-done
		return r, "worker timed out"
	}
	b, e2 := os.ReadFile(out)
	if e2 != nil {
		msg := eb.String()
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		return r, fmt.Sprintf("no report (%v): %s", err, msg)
	}
	if err := json.Unmarshal(b, &r); err != nil {
		return r, "unreadable report: " + err.Error()
	}
	return r, ""
}

// bisectCrash finds the case whose execution ends the process: workers note
// the case they are in, and a new process runs just that one.
func bisectCrash(self, work, id, tier string, fails []string, nw int) (Violation, bool) {
	for i, f := range fails {
		if f == "" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("w%d.json.cur", i)))
		if err != nil {
			continue
		}
		cs := strings.TrimRight(string(b), "\x00")
		bin := self
		if i >= len(fails)/2 && len(fails) > nw {
			bin = filepath.Join(work, "hxr")
		}
		_, f2 := runWorker(bin, work, "confirm", 120*time.Second, "-check", id, "-tier", tier, "-only", cs)
		if f2 != "" && f2 != "worker timed out" {
			return Violation{Case: cs, Message: "the process running the code under test dies: " + f2}, true
		}
	}
	return Violation{}, false
}
