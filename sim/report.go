package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/builder"
	"verifsim/zzsim"
)

// violation is one broken run.
type violation struct {
	Class  string // what kind of violation; minimisation preserves it
	Detail string // for people
	Run    int
	Case   interface{}
	Sig    string // identifies a known finding
}

type replayFile struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Detail   string          `json:"detail"`
	Seed     uint64          `json:"verif_seed"`
	Run      int             `json:"run"`
	Case     json.RawMessage `json:"case"`
	Log      []string        `json:"trace,omitempty"`
}

// check is the state of one property's check.
type check struct {
	prop     string
	tier     string
	seed     uint64
	start    time.Time
	deadline time.Time
	lanes    int
	built    *builder.Built
	scratch  string
	verif    string
	repo     string
	std      []zzsim.Node

	mu       sync.Mutex
	evals    int
	faults   map[string]int
	states   map[uint64]struct{}
	distinct map[uint64]struct{}
	samples  []interface{}
	simNanos int64
	ticks    int64
	probes   map[string]int
	viol     []*violation
	fatal    error
	extra    map[string]interface{}
	assume   []string
	rule     string
}

func (c *check) quick() bool { return c.tier != "thorough" }

func (c *check) expired() bool { return time.Now().After(c.deadline) }

// trouble records a defect of the harness: the check ends with status 2.
func (c *check) trouble(err error) {
	c.mu.Lock()
	if c.fatal == nil {
		c.fatal = err
	}
	c.mu.Unlock()
}

func (c *check) probe(name string, n int) {
	c.mu.Lock()
	c.probes[name] += n
	c.mu.Unlock()
}

func (c *check) addFault(name string, n int) {
	c.mu.Lock()
	c.faults[name] += n
	c.mu.Unlock()
}

func (c *check) report(v *violation) {
	c.mu.Lock()
	c.viol = append(c.viol, v)
	c.mu.Unlock()
}

func (c *check) sample(x interface{}) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, x)
	}
	c.mu.Unlock()
}

// known reads the findings that are recorded rather than repaired.
func (c *check) known() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+c.prop && strings.HasPrefix(f[1], "sig=") {
			m[strings.TrimPrefix(f[1], "sig=")] = f[2]
		}
	}
	return m
}

// finish minimises, writes the evidence and returns the exit status.
func (c *check) finish(minimise func(*violation) (*violation, []string)) int {
	if c.fatal != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", c.fatal)
		return 2
	}
	sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].Run < c.viol[j].Run })
	known := c.known()
	seen := map[string]bool{}
	var fresh []*violation
	for _, v := range c.viol {
		if what, ok := known[v.Sig]; ok && v.Sig != "" {
			if !seen[v.Sig] {
				seen[v.Sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, what)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	status := 0
	byClass := map[string]bool{}
	for _, v := range fresh {
		if byClass[v.Class] || len(byClass) >= 3 {
			continue
		}
		byClass[v.Class] = true
		status = 1
		var log []string
		if minimise != nil {
			v, log = minimise(v)
		}
		raw, _ := json.MarshalIndent(v.Case, "  ", " ")
		rf := replayFile{Property: c.prop, Class: v.Class, Detail: v.Detail, Seed: c.seed, Run: v.Run, Case: raw, Log: log}
		dir := filepath.Join(c.verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.prop, c.seed, v.Run))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s\n", legible(clip(v.Class+": "+v.Detail, 3000)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	}
	if c.fatal != nil { // the minimiser met trouble
		fmt.Fprintln(os.Stderr, "ERROR:", c.fatal)
		if status == 0 {
			return 2
		}
	}
	wall := time.Since(c.start).Seconds()
	cov := map[string]interface{}{
		"evaluations":              c.evals,
		"distinct_nontrivial":      len(c.distinct),
		"rule":                     c.rule,
		"samples":                  c.samples,
		"runs_per_hour":            int(float64(c.evals) / wall * 3600),
		"simulated_seconds":        float64(c.simNanos) / 1e9,
		"step_clock_ticks":         c.ticks,
		"faults_fired":             c.faults,
		"distinct_states":          len(c.states),
		"distinct_states_measure":  "distinct fingerprints of a run (for in-process runs the set of consecutive instrumented-site pairs; for script runs the order of scheduler events)",
		"rare_condition_probes":    c.probes,
		"tree":                     c.built.TreeID,
		"known_findings_seen":      len(seen),
		"violations_before_dedupe": len(c.viol),
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration",
		"coverage": cov, "assumptions": c.assume, "wall_s": wall, "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d runs, %d distinct, %d states, %d violations, %.1f s\n", c.prop, c.tier, c.seed, c.evals, len(c.distinct), len(c.states), len(fresh), wall)
	return status
}

// shrinkLoop greedily applies the first candidate that keeps the violation.
func shrinkLoop[T any](start T, limit time.Duration, candidates func(T) []T, same func(T) bool) T {
	end := time.Now().Add(limit)
	cur := start
	for time.Now().Before(end) {
		improved := false
		for _, cand := range candidates(cur) {
			if time.Now().After(end) {
				break
			}
			if same(cand) {
				cur = cand
				improved = true
				break
			}
		}
		if !improved {
			break
		}
	}
	return cur
}
