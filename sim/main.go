// vsim decides the properties of /verif/properties.jsonl by deterministic
// simulation of TypeShell; see /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"time"

	"verifsim/builder"
)

// property is one decided property.
type property struct {
	run    func(c *check) int
	replay func(c *check, raw json.RawMessage, class string) (bool, string, []string, error) // reproduced, detail, trace
}

var properties = map[string]property{}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vsim check PROPERTY | vsim replay FILE | vsim gen N")
	os.Exit(2)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func newCheck(prop string) (*check, func(), error) {
	c := &check{prop: prop, tier: envOr("VERIF_TIER", "quick"), verif: envOr("VERIF_DIR", "/verif"), repo: envOr("VERIF_REPO", "/repo"), start: time.Now(),
		faults: map[string]int{}, states: map[uint64]struct{}{}, distinct: map[uint64]struct{}{}, probes: map[string]int{}, extra: map[string]interface{}{}}
	s, err := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		return nil, nil, err
	}
	c.seed = s
	c.lanes = runtime.NumCPU()
	c.scratch, err = os.MkdirTemp("", "vsim-")
	if err != nil {
		return nil, nil, err
	}
	c.scratch, _ = filepath.EvalSymlinks(c.scratch)
	clean := func() { os.RemoveAll(c.scratch) }
	c.built, err = builder.Build(c.repo, filepath.Join(c.verif, "sim"), filepath.Join(c.scratch, "build"))
	if err != nil {
		clean()
		return nil, nil, err
	}
	return c, clean, nil
}

func main() {
	flag.Usage = usage
	flag.Parse()
	args := flag.Args()
	if len(args) < 2 {
		usage()
	}
	switch args[0] {
	case "check":
		p, ok := properties[args[1]]
		if !ok {
			usage()
		}
		c, clean, err := newCheck(args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			os.Exit(2)
		}
		fmt.Printf("%s seed=%d tier=%s tree=%s\n", c.prop, c.seed, c.tier, c.built.TreeID)
		st := p.run(c)
		clean()
		os.Exit(st)
	case "replay":
		b, err := os.ReadFile(args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			os.Exit(2)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			os.Exit(2)
		}
		p, ok := properties[rf.Property]
		if !ok {
			fmt.Fprintln(os.Stderr, "ERROR: unknown property", rf.Property)
			os.Exit(2)
		}
		c, clean, err := newCheck(rf.Property)
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			os.Exit(2)
		}
		c.seed = rf.Seed
		got, detail, trace, err := p.replay(c, rf.Case, rf.Class)
		clean()
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			os.Exit(2)
		}
		for _, l := range trace {
			fmt.Println("  ", legible(l))
		}
		if got {
			fmt.Printf("reproduced: %s: %s\nVIOLATION property=%s replay=%s\n", rf.Class, legible(clip(detail, 3000)), rf.Property, args[1])
			os.Exit(1)
		}
		fmt.Println("not reproduced:", legible(detail))
	case "gen":
		n, _ := strconv.Atoi(args[1])
		c, clean, err := newCheck("C13")
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			os.Exit(2)
		}
		devGen(c, n)
		clean()
	default:
		usage()
	}
}
