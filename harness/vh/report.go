package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Report collects what a check observed and its verdict.
type Report struct {
	Prop, Tier, Rule, Level string
	Seed                    int64
	Assumptions             []string

	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	samples  []interface{}
	sampleN  map[string]int
	counts   map[string]int
	viol     []string
	start    time.Time
	fatal    string
	floors   map[string]int
	dir      string
}

// NewReport starts a report for a property.
func NewReport(prop, rule string) *Report {
	r := &Report{Prop: prop, Rule: rule, Level: "exploration", Tier: os.Getenv("VERIF_TIER"), start: time.Now(),
		distinct: map[uint64]struct{}{}, counts: map[string]int{}, sampleN: map[string]int{}, floors: map[string]int{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		r.Seed = 1
	}
	r.dir = os.Getenv("VH_EVIDENCE")
	if r.dir == "" {
		r.dir = "/verif/evidence"
	}
	return r
}

// Thorough tells whether the thorough tier runs.
func (r *Report) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *Report) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Rand returns a PRNG for the named stream.
func (r *Report) Rand(stream string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", r.Prop, stream, r.Seed)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

// Case records one evaluated case; key identifies it, nontrivial tells whether it counts.
func (r *Report) Case(key string, nontrivial bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.distinct[h.Sum64()] = struct{}{}
	}
}

// Sample keeps up to three written-out cases per kind.
func (r *Report) Sample(kind string, v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampleN[kind] >= 2 || len(r.samples) >= 40 {
		return
	}
	r.sampleN[kind]++
	r.samples = append(r.samples, map[string]interface{}{"kind": kind, "case": v})
}

// Count adds to a named monitor counter.
func (r *Report) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

// Max keeps the maximum of a named observation.
func (r *Report) Max(name string, n int) {
	r.mu.Lock()
	if n > r.counts[name] {
		r.counts[name] = n
	}
	r.mu.Unlock()
}

// Get returns a counter.
func (r *Report) Get(name string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

// Floor demands that a counter reached n, else the run is inconclusive.
func (r *Report) Floor(name string, n int) {
	r.mu.Lock()
	r.floors[name] = n
	r.mu.Unlock()
}

// Violations returns the number so far.
func (r *Report) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

// Violation records a violation with its witness.
func (r *Report) Violation(what string, witness interface{}) {
	r.mu.Lock()
	n := len(r.viol)
	if n >= 10 {
		r.viol = append(r.viol, what)
		r.mu.Unlock()
		return
	}
	dir := filepath.Join(r.dir, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop, n))
	r.viol = append(r.viol, what)
	r.mu.Unlock()
	b, err := json.MarshalIndent(map[string]interface{}{"property": r.Prop, "seed": r.Seed, "tier": r.Tier, "what": what, "witness": witness}, "", " ")
	if err != nil {
		b, _ = json.MarshalIndent(map[string]interface{}{"property": r.Prop, "seed": r.Seed, "tier": r.Tier, "what": what, "witness": fmt.Sprintf("%+v", witness)}, "", " ")
	}
	os.WriteFile(path, b, 0o644)
	fmt.Printf("%s: %s\n", r.Prop, strings.Map(func(c rune) rune {
		if c < ' ' || c == 0x7f {
			return ' '
		}
		return c
	}, strings.ToValidUTF8(what, "?")))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	if n == 0 { // a broken tree may make everything else slow: the verdict is there, so end soon
		go func() { time.Sleep(3 * time.Minute); r.Finish() }()
	}
}

// TooMany tells a check to stop early.
func (r *Report) TooMany() bool { return r.Violations() >= 5 }

// Inconclusive marks the run as an error of the check (unless violations were found).
func (r *Report) Inconclusive(why string) {
	r.mu.Lock()
	if r.fatal == "" {
		r.fatal = why
	}
	r.mu.Unlock()
}

// Finish writes the evidence and exits.
func (r *Report) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for n, min := range r.floors {
		if r.counts[n] < min && r.fatal == "" {
			r.fatal = fmt.Sprintf("observed only %d of %d %s", r.counts[n], min, n)
		}
	}
	if r.evals == 0 && r.fatal == "" {
		r.fatal = "nothing was observed"
	}
	cov := map[string]interface{}{
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": r.samples,
	}
	if r.samples == nil {
		cov["samples"] = []interface{}{}
	}
	if len(r.counts) > 0 {
		cov["monitors"] = r.counts
	}
	if r.fatal != "" {
		cov["inconclusive"] = r.fatal
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": float64(int(time.Since(r.start).Seconds()*100)) / 100, "violations": len(r.viol),
	}
	if r.Assumptions != nil {
		ev["assumptions"] = r.Assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(2)
	}
	os.MkdirAll(r.dir, 0o755)
	if err := os.WriteFile(filepath.Join(r.dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(2)
	}
	if len(r.viol) > 0 {
		fmt.Printf("%s: %d violations\n", r.Prop, len(r.viol))
		os.Exit(1)
	}
	if r.fatal != "" {
		fmt.Printf("%s: inconclusive: %s\n", r.Prop, r.fatal)
		os.Exit(2)
	}
	fmt.Printf("%s: held on %d evaluations, %d distinct (%s tier, seed %d, %.1fs) %v\n", r.Prop, r.evals, len(r.distinct), r.Tier, r.Seed, time.Since(r.start).Seconds(), r.counts)
	os.Exit(0)
}
