// Command simcheck decides one property by seeded search over simulated runs.
//
//	simcheck -prop C01 -tier quick -seed 1 ...     search (driver)
//	simcheck -prop C01 -replay FILE                replay one violation
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/props"
	"verif/simrt"
)

var (
	mode    = flag.String("mode", "drive", "drive, worker, shrink, run")
	prop    = flag.String("prop", "", "property")
	tier    = flag.String("tier", "quick", "quick or thorough")
	seed    = flag.Uint64("seed", 1, "seed")
	runs    = flag.Int64("runs", 0, "number of runs (0: the property's)")
	workers = flag.Int("workers", 8, "worker processes")
	budget  = flag.Duration("budget", 0, "wall-clock cap of the search")
	evDir   = flag.String("evidence", "", "evidence directory")
	rpDir   = flag.String("replays", "", "replay directory")
	scratch = flag.String("scratch", "", "scratch directory")
	knownF  = flag.String("known", "", "known-findings file")
	sitesF  = flag.String("sites", "", "sites file of the instrumenter")
	replayF = flag.String("replay", "", "replay file")
	from    = flag.Int64("from", 0, "first index (worker)")
	stride  = flag.Int64("stride", 1, "stride (worker)")
	slot    = flag.Int("slot", 0, "slot (worker)")
	progF   = flag.String("progress", "", "progress file (worker)")
	outF    = flag.String("out", "", "result file (worker, shrink)")
	bare    = flag.Bool("bare", false, "report a violation without confirming and minimising it (for measurements)")
	inF     = flag.String("in", "", "input file (shrink, run)")
)

// Violation found by a worker.
type Violation struct {
	Index   int64    `json:"index"`
	Class   string   `json:"class"`
	Detail  string   `json:"detail"`
	Harness bool     `json:"harness,omitempty"`
	Hash    uint64   `json:"hash"`
	Choices []uint32 `json:"choices"`
	Log     []string `json:"log,omitempty"`
}

// Replay file.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Index    int64    `json:"index"`
	Tier     string   `json:"tier"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Hash     uint64   `json:"hash"`
	Level    string   `json:"instrumentation"`
	Minimal  bool     `json:"minimised"`
	Original int      `json:"original_choices"`
	Choices  []uint32 `json:"choices"`
	// Warm lists runs to be executed before, in the same process, when the
	// violation needs state that earlier runs left in the library
	Warm []int64  `json:"warm,omitempty"`
	Log  []string `json:"trace,omitempty"`
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simcheck:", err)
		os.Exit(2)
	}
}

// finding is a listed known finding.
type finding struct {
	ID, Prop, Class, Match, What string
}

func loadKnown() []finding {
	var r []finding
	if *knownF == "" {
		return nil
	}
	b, err := os.ReadFile(*knownF)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C05 id=K1 class=... match="..." what
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var f finding
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		for {
			k, v, ok := strings.Cut(rest, "=")
			if !ok || strings.ContainsAny(k, " \"") {
				break
			}
			if strings.HasPrefix(v, "\"") {
				v, rest, _ = strings.Cut(v[1:], "\"")
			} else {
				v, rest, _ = strings.Cut(v, " ")
			}
			rest = strings.TrimSpace(rest)
			switch k {
			case "property":
				f.Prop = v
			case "id":
				f.ID = v
			case "class":
				f.Class = v
			case "match":
				f.Match = v
			}
		}
		f.What = rest
		if f.Prop == *prop {
			r = append(r, f)
		}
	}
	return r
}

func knownFn(fs []finding) func(class, detail string) string {
	if len(fs) == 0 {
		return nil
	}
	return func(class, detail string) string {
		for _, f := range fs {
			if f.Class == class && strings.Contains(detail, f.Match) {
				return f.ID
			}
		}
		return ""
	}
}

func propNum() uint64 {
	var x uint64
	for _, c := range *prop {
		x = x*131 + uint64(c)
	}
	return x
}

func one(k *props.Check, index int64, log bool, known func(string, string) string) (simrt.Result, *props.Ctx) {
	src := simrt.NewSource(simrt.Mix(*seed, propNum(), uint64(index)))
	return k.Run(src, index, true, log, *tier == "thorough", known)
}

func writeJSON(f string, v any) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(f, b, 0o644))
}

func readJSON(f string, v any) {
	b, err := os.ReadFile(f)
	must(err)
	must(json.Unmarshal(b, v))
}

func silence() {
	// the library prints panics it recovered from
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
}

func main() {
	flag.Parse()
	k := props.Checks[*prop]
	if k == nil {
		fmt.Fprintf(os.Stderr, "simcheck: no check for %q\n", *prop)
		os.Exit(2)
	}
	switch *mode {
	case "det":
		detMode(k)
	case "worker":
		silence()
		debug.SetGCPercent(400)
		debug.SetMemoryLimit(2 << 30)
		worker(k)
	case "shrink":
		silence()
		debug.SetMemoryLimit(2 << 30)
		shrink(k)
	case "run":
		silence()
		runFile(k)
	case "drive":
		if *replayF != "" {
			os.Exit(replayCmd(k))
		}
		os.Exit(drive(k))
	}
}

// runFile executes a replay file in this process and writes what happened.
func runFile(k *props.Check) {
	var r Replay
	readJSON(*inF, &r)
	*seed, *tier = r.Seed, r.Tier
	known := knownFn(loadKnown())
	for _, i := range r.Warm {
		one(k, i, false, known)
	}
	var res simrt.Result
	if r.Choices == nil {
		res, _ = one(k, r.Index, true, known)
	} else {
		src := simrt.NewReplay(r.Choices)
		res, _ = k.Run(src, r.Index, false, true, r.Tier == "thorough", known)
	}
	writeJSON(*outF, violationOf(r.Index, res))
}

func violationOf(i int64, res simrt.Result) *Violation {
	v := &Violation{Index: i, Hash: res.Hash, Choices: res.Choices, Log: res.Log}
	if f := res.Failure; f != nil {
		v.Class, v.Detail, v.Harness = f.Class, f.Detail, f.Harness
	}
	return v
}

// shrink minimises the choice sequence of a violation.
func shrink(k *props.Check) {
	var r Replay
	readJSON(*inF, &r)
	known := knownFn(loadKnown())
	for _, i := range r.Warm {
		one(k, i, false, known)
	}
	dl := time.Now().Add(*budget)
	best := r.Choices
	try := func(c []uint32) bool {
		if time.Now().After(dl) {
			return false
		}
		res, _ := k.Run(simrt.NewReplay(c), r.Index, false, false, r.Tier == "thorough", known)
		if res.Failure == nil || res.Failure.Harness || res.Failure.Class != r.Class {
			return false
		}
		rec := res.Choices
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if len(rec) > len(best) {
			return false
		}
		if len(rec) == len(best) {
			smaller := false
			for i := range rec {
				if rec[i] != best[i] {
					smaller = rec[i] < best[i]
					break
				}
			}
			if !smaller {
				return false
			}
		}
		best = append([]uint32(nil), rec...)
		writeJSON(*outF, best)
		return true
	}
	for progress := true; progress && time.Now().Before(dl); {
		progress = false
		for n := len(best) / 2; n >= 1; n /= 2 { // truncate
			for n <= len(best) && try(best[:len(best)-n]) {
				progress = true
			}
		}
		for n := len(best) / 2; n >= 1; n /= 2 { // delete
			for i := 0; i+n <= len(best); {
				c := append(append([]uint32(nil), best[:i]...), best[i+n:]...)
				if try(c) {
					progress = true
				} else {
					i += n
				}
				if time.Now().After(dl) {
					break
				}
			}
		}
		for n := len(best) / 2; n >= 1; n /= 2 { // zero
			for i := 0; i+n <= len(best); i += n {
				c := append([]uint32(nil), best...)
				nz := false
				for j := i; j < i+n; j++ {
					nz = nz || c[j] != 0
					c[j] = 0
				}
				if nz && try(c) {
					progress = true
				}
				if time.Now().After(dl) {
					break
				}
			}
		}
		for i := 0; i < len(best) && time.Now().Before(dl); i++ { // reduce
			for _, d := range []uint32{2, 1} {
				for i < len(best) && best[i] > 0 {
					c := append([]uint32(nil), best...)
					if d == 2 {
						c[i] /= 2
					} else {
						c[i]--
					}
					if !try(c) {
						break
					}
					progress = true
				}
			}
		}
	}
	writeJSON(*outF, best)
}

func sorted(m map[string]int64) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
