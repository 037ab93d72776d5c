package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"verif/props"
)

type sitesFile struct {
	Level    string            `json:"level"`
	Packages map[string]string `json:"packages"`
	Sites    []string          `json:"sites"`
}

func loadSites() sitesFile {
	var s sitesFile
	if b, err := os.ReadFile(*sitesF); err == nil {
		json.Unmarshal(b, &s)
	}
	return s
}

const runLimit = 40 * time.Second

func self(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	must(err)
	all := append([]string{"-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-known", *knownF}, args...)
	c := exec.Command(exe, all...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	return c
}

// runFresh executes a replay in a fresh process. ended is "" for a normal end.
func runFresh(r *Replay, limit time.Duration) (v *Violation, ended string) {
	in := filepath.Join(*scratch, "replay-in.json")
	out := filepath.Join(*scratch, "replay-out.json")
	os.Remove(out)
	writeJSON(in, r)
	c := self("-mode", "run", "-in", in, "-out", out)
	var eb bytes.Buffer
	c.Stderr = &eb
	must(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return nil, "crash: " + tail(eb.String())
		}
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		return nil, "hang"
	}
	v = &Violation{}
	readJSON(out, v)
	return v, ""
}

func tail(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > 6 {
		ls = ls[:6]
	}
	return strings.Join(ls, " | ")
}

func drive(k *props.Check) int {
	start := time.Now()
	n := *runs
	if n == 0 {
		n = k.Quick
		if *tier == "thorough" {
			n = k.Thorough
		}
	}
	if *budget == 0 {
		*budget = 150 * time.Second
		if *tier == "thorough" {
			*budget = 700 * time.Second
		}
	}
	prog := filepath.Join(*scratch, "progress")
	os.Remove(prog)
	pr := openProgress(prog, *workers)
	atomic.StoreUint64(pr.limit(), ^uint64(0))
	type wk struct {
		cmd  *exec.Cmd
		out  string
		err  bytes.Buffer
		done chan error
		end  bool
		hang bool
		fail error
		last uint64
	}
	var ws []*wk
	for i := 0; i < *workers; i++ {
		w := &wk{out: filepath.Join(*scratch, fmt.Sprintf("worker%d.json", i)), done: make(chan error, 1)}
		os.Remove(w.out)
		w.cmd = self("-mode", "worker", "-runs", fmt.Sprint(n), "-workers", fmt.Sprint(*workers), "-from", fmt.Sprint(i),
			"-stride", fmt.Sprint(*workers), "-slot", fmt.Sprint(i), "-progress", prog, "-out", w.out, "-budget", budget.String())
		w.cmd.Stderr = &w.err
		must(w.cmd.Start())
		go func() { w.done <- w.cmd.Wait() }()
		ws = append(ws, w)
	}
	for left := len(ws); left > 0; {
		for i, w := range ws {
			if w.end {
				continue
			}
			select {
			case w.fail = <-w.done:
				w.end = true
				left--
				w.last = atomic.LoadUint64(pr.at(i, 0))
				continue
			default:
			}
			at := int64(atomic.LoadUint64(pr.at(i, 1)))
			if atomic.LoadUint64(pr.at(i, 0)) != 0 && at != 0 && time.Since(time.Unix(0, at)) > runLimit && !w.hang {
				w.hang = true
				w.cmd.Process.Kill()
			}
		}
		time.Sleep(20 * time.Millisecond)
	}

	tot := WorkerResult{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
	cov := map[int]bool{}
	hashes := map[uint64]struct{}{}
	var best *Violation
	var abnormal string
	consider := func(v *Violation) {
		if best == nil || v.Index < best.Index {
			best = v
		}
	}
	for i, w := range ws {
		if w.hang || w.fail != nil {
			idx := int64(w.last) - 1
			if idx < 0 {
				fmt.Fprintf(os.Stderr, "simcheck: worker %d failed outside a run: %v %s\n", i, w.fail, w.err.String())
				return 2
			}
			// confirm in a fresh process, alone or after the runs before it
			r := &Replay{Property: *prop, Seed: *seed, Index: idx, Tier: *tier}
			v, ended := runFresh(r, runLimit)
			if ended == "" && v.Class == "" && !w.hang {
				r.Warm = warm(idx, 1<<40)
				v, ended = runFresh(r, 300*time.Second)
			}
			switch {
			case ended != "":
				class := strings.SplitN(ended, ":", 2)[0]
				consider(&Violation{Index: idx, Class: class, Detail: ended})
			case v.Class != "":
				consider(v)
			default:
				abnormal = fmt.Sprintf("worker %d ended abnormally at run %d, which does not reproduce: %v %s", i, idx, w.fail, tail(w.err.String()))
			}
			continue
		}
		var r WorkerResult
		readJSON(w.out, &r)
		tot.Runs += r.Runs
		tot.Nontrivial += r.Nontrivial
		tot.Steps += r.Steps
		tot.Switches += r.Switches
		tot.SimTime += r.SimTime
		tot.Rechecked += r.Rechecked
		tot.Mismatch += r.Mismatch
		tot.MismatchAt = append(tot.MismatchAt, r.MismatchAt...)
		tot.Capped = tot.Capped || r.Capped
		tot.Samples = append(tot.Samples, r.Samples...)
		for f, x := range r.Faults {
			tot.Faults[f] += x
		}
		for f, x := range r.Probes {
			tot.Probes[f] += x
		}
		for f, x := range r.Known {
			tot.Known[f] += x
		}
		for _, s := range r.Cov {
			cov[s] = true
		}
		b, err := os.ReadFile(w.out + ".hash")
		must(err)
		for ; len(b) >= 8; b = b[8:] {
			hashes[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
		if r.Violation != nil {
			consider(r.Violation)
		}
	}
	searchWall := time.Since(start)
	for _, f := range loadKnown() {
		if tot.Known[f.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
		}
	}
	code := 0
	nviol := 0
	if best != nil {
		if best.Harness {
			fmt.Fprintf(os.Stderr, "simcheck: the harness failed in run %d: %s\n", best.Index, best.Detail)
			code = 2
		} else {
			if *bare {
				fmt.Printf("violation of %s at run %d: %s: %s\n", *prop, best.Index, best.Class, best.Detail)
				os.Exit(1)
			}
			code = report(k, best)
			if code == 1 {
				nviol = 1
			}
		}
	} else if abnormal != "" {
		fmt.Fprintln(os.Stderr, "simcheck:", abnormal)
		code = 2
	}
	for _, f := range k.Foreign {
		if n := tot.Probes["foreign:"+f]; n > 0 {
			fmt.Printf("%s: %d runs ended early with %q, which breaks another property\n", *prop, n, f)
		}
	}
	evidence(k, &tot, cov, hashes, searchWall, time.Since(start), nviol)
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial) in %.1fs, %d violations\n", *prop, *tier, tot.Runs, len(hashes), time.Since(start).Seconds(), nviol)
	if tot.Mismatch > 0 {
		fmt.Printf("%s: %d of %d re-executed runs differed from their first execution: %v\n", *prop, tot.Mismatch, tot.Rechecked, tot.MismatchAt)
	}
	return code
}

// warm lists up to n runs of the same worker before index i.
func warm(i, n int64) []int64 {
	var r []int64
	st := int64(*workers)
	for j := i - st; j >= 0 && int64(len(r)) < n; j -= st {
		r = append(r, j)
	}
	for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
		r[a], r[b] = r[b], r[a]
	}
	return r
}

// report confirms, minimises and writes a violation.
func report(k *props.Check, v *Violation) int {
	r := &Replay{Property: *prop, Seed: *seed, Index: v.Index, Tier: *tier, Class: v.Class, Detail: v.Detail,
		Hash: v.Hash, Level: loadSites().Level, Choices: v.Choices, Original: len(v.Choices)}
	must(os.MkdirAll(*rpDir, 0o755))
	path := filepath.Join(*rpDir, fmt.Sprintf("%s-%d-%d.json", *prop, *seed, v.Index))
	same := func() bool {
		x, ended := runFresh(r, 3*runLimit)
		if ended != "" {
			return strings.HasPrefix(ended, r.Class)
		}
		if x.Class == r.Class && !x.Harness {
			r.Detail, r.Hash, r.Log = x.Detail, x.Hash, x.Log
			return true
		}
		return false
	}
	ok := same()
	if !ok {
		// the violation may need what earlier runs left behind in the library
		all := warm(v.Index, 1<<40)
		for n := int64(1); ; n *= 4 {
			r.Warm = warm(v.Index, n)
			if ok = same(); ok || int64(len(all)) <= n {
				break
			}
		}
	}
	if !ok {
		fmt.Fprintf(os.Stderr, "simcheck: run %d failed (%s: %s) but does not reproduce\n", v.Index, v.Class, v.Detail)
		return 2
	}
	if r.Class != "crash" && r.Class != "hang" && len(r.Warm) < 2000 && len(r.Choices) > 0 {
		in := filepath.Join(*scratch, "shrink-in.json")
		out := filepath.Join(*scratch, "shrink-out.json")
		os.Remove(out)
		writeJSON(in, r)
		b := 15 * time.Second
		if *tier == "thorough" {
			b = 60 * time.Second
		}
		c := self("-mode", "shrink", "-in", in, "-out", out, "-budget", b.String())
		must(c.Start())
		t := time.AfterFunc(b+10*time.Second, func() { c.Process.Kill() })
		c.Wait()
		t.Stop()
		if x, err := os.ReadFile(out); err == nil {
			var ch []uint32
			if json.Unmarshal(x, &ch) == nil && len(ch) <= len(r.Choices) {
				old := *r
				r.Choices, r.Minimal = ch, true
				if ch == nil {
					r.Choices = []uint32{}
				}
				if !same() {
					*r = old
					same()
				}
			}
		}
	}
	b, err := json.MarshalIndent(r, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
	// say which lines a data race is about
	sf := loadSites()
	named := regexp.MustCompile(`site \d+`).ReplaceAllStringFunc(r.Detail, func(x string) string {
		n := 0
		if fmt.Sscanf(x, "site %d", &n); n < len(sf.Sites) {
			return sf.Sites[n]
		}
		return x
	})
	fmt.Printf("violation of %s at run %d: %s: %s\n", *prop, v.Index, r.Class, named)
	for i, l := range r.Log {
		if i > 60 {
			fmt.Println("  ...")
			break
		}
		if len(l) > 400 {
			l = l[:400] + "..."
		}
		fmt.Println("  ", l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	return 1
}

func replayCmd(k *props.Check) int {
	var r Replay
	readJSON(*replayF, &r)
	v, ended := runFresh(&r, 3*runLimit)
	if ended != "" {
		fmt.Println(ended)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, *replayF)
		return 1
	}
	for _, l := range v.Log {
		fmt.Println("  ", l)
	}
	if v.Class == "" {
		fmt.Println("the run ends without a violation")
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	exact := v.Hash == r.Hash && v.Detail == r.Detail
	fmt.Printf("exact reproduction: %v\n", exact)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, *replayF)
	return 1
}

func evidence(k *props.Check, t *WorkerResult, cov map[int]bool, hashes map[uint64]struct{}, search, wall time.Duration, nviol int) {
	if *evDir == "" {
		return
	}
	must(os.MkdirAll(*evDir, 0o755))
	sf := loadSites()
	perPkg := map[string][2]int{}
	for i, s := range sf.Sites {
		p := strings.SplitN(s, "/", 2)[0]
		x := perPkg[p]
		x[1]++
		if cov[i] {
			x[0]++
		}
		perPkg[p] = x
	}
	cs := map[string]string{}
	for p, x := range perPkg {
		cs[p] = fmt.Sprintf("%d of %d statements reached", x[0], x[1])
	}
	if len(t.Samples) == 0 {
		t.Samples = []string{"(no non-trivial run was sampled)"}
	}
	hours := search.Hours()
	coverage := map[string]any{
		"evaluations":           t.Runs,
		"distinct_nontrivial":   len(hashes),
		"rule":                  k.Rule,
		"samples":               t.Samples,
		"nontrivial_runs":       t.Nontrivial,
		"runs_per_hour":         int64(float64(t.Runs) / hours),
		"seed_rule":             "seed of run i = Mix(VERIF_SEED, property, i); one seed is one execution",
		"simulated_time_s":      t.SimTime.Seconds(),
		"library_steps":         t.Steps,
		"thread_switches":       t.Switches,
		"faults_injected":       t.Faults,
		"situations_reached":    t.Probes,
		"distinct_measure":      "64-bit hash over every thread switch (thread, site), the bytes exchanged and the observed results",
		"site_coverage":         cs,
		"instrumentation":       sf.Packages,
		"components_real":       k.Real,
		"components_stub":       k.Stub,
		"reexecuted_runs":       t.Rechecked,
		"reexecution_mismatch":  t.Mismatch,
		"stopped_by_time_limit": t.Capped,
		"known_findings_hit":    t.Known,
		"workers":               *workers,
	}
	e := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage":    coverage,
		"assumptions": []string{"the simulator, the instrumenter and the independent MQTT model are correct", "statements are the unit of preemption; read-modify-write and map accesses are split, weaker hardware memory orders are not modelled"},
		"wall_s":      wall.Seconds(), "violations": nviol,
	}
	b, err := json.MarshalIndent(e, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*evDir, *prop+".json"), b, 0o644))
}
