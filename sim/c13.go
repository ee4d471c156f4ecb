package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/zzsim"
)

// C13: transpilation is total. Each run is a simulated process that transpiles
// a batch of inputs from the simulated disk, with the faults the plan orders;
// the step clock, the operation counter and the process's own death are the
// watchdogs.

func init() {
	properties["C13"] = property{run: runC13, replay: replayC13}
}

const (
	c13Steps = 150_000_000 // step clock limit of one transpilation
	c13Ops   = 60_000      // disk operations of one transpilation
	c13Epoch = 4096
)

var libErrnos = []string{"ENOENT", "EACCES", "EIO", "EINTR", "EMFILE", "ENFILE", "ENOMEM", "ESTALE", "ELOOP", "ENOTDIR", "EISDIR", "ENAMETOOLONG", "EPERM", "ENODEV", "EAGAIN"}

// fsFaults draws a fault plan over the given paths.
func fsFaults(r *rng, paths []string, n int) []zzsim.Fault {
	var out []zzsim.Fault
	for ; n > 0; n-- {
		f := zzsim.Fault{Nth: 1 + r.n(3), Op: pick(r, []string{"stat", "open", "read", "fstat", "", "readlink"})}
		if r.p(60) && len(paths) > 0 {
			f.Path = pick(r, paths)
		} else if r.p(60) {
			f.Nth = 1 + r.n(30)
		}
		switch r.n(8) {
		case 0:
			f.Op, f.Kind, f.Arg = "read", "short", int64(r.n(7))
		case 1:
			f.Op, f.Kind, f.Arg = "read", "flip", int64(r.n(4000))
		case 2:
			m := &zzsim.Mutation{Path: pick(r, paths)}
			switch r.n(5) {
			case 0:
				m.Kind = "rm"
			case 1:
				m.Kind = "mkdir"
			case 2:
				m.Kind, m.Data = "write", []byte(soup(r, r.n(30)))
			case 3:
				m.Kind, m.Data = "overwrite", []byte(garbage(r, r.n(60)))
			case 4:
				m.Kind, m.Mode = "chmod", uint32(pick(r, []int{0, 0o200, 0o644}))
			}
			f.Kind, f.Mut = "mut", m
		default:
			f.Kind = pick(r, libErrnos)
			f.Sticky = r.p(30)
		}
		out = append(out, f)
	}
	return out
}

// importGraph makes files whose imports need not be valid or acyclic.
func importGraph(r *rng, cyclic bool) []zzsim.Node {
	n := 1 + r.n(7)
	var nodes []zzsim.Node
	name := func(i int) string {
		if i == 0 {
			return "main.tsh"
		}
		return fmt.Sprintf("f%d.tsh", i)
	}
	for i := 0; i < n; i++ {
		var sb strings.Builder
		k := r.n(4)
		if i == 0 && k == 0 {
			k = 1
		}
		multi := k != 1 || r.p(30)
		if k > 0 {
			if multi {
				sb.WriteString("import (\n")
			} else {
				sb.WriteString("import ")
			}
		}
		for ; k > 0; k-- {
			target := ""
			switch x := r.n(20); {
			case x == 0:
				target = "missing.tsh"
			case x == 1:
				target = pick(r, []string{"", ".", "..", "/", "dir", "dir/", "/src", "./main.tsh", "../src/main.tsh", "loop.tsh", "dirlink", "self.tsh", "f1.tsh/x", "\x00", strings.Repeat("n", 300), "strings.tsh", "strings", "os", "../std/strings", "fifo"})
			case x < 5:
				target = "/src/" + name(r.n(n))
			case cyclic:
				target = name(r.n(n))
			case i+1 < n:
				target = name(i + 1 + r.n(n-i-1))
			default:
				target = "strings"
			}
			alias := fmt.Sprintf("a%d ", r.n(6))
			if r.p(15) {
				alias = ""
			}
			fmt.Fprintf(&sb, "%s%q\n", alias, target)
		}
		if multi {
			sb.WriteString(")\n")
		}
		fmt.Fprintf(&sb, "func F%d() int {\nreturn %d\n}\nx := F%d()\n", i, i, i)
		if r.p(40) {
			fmt.Fprintf(&sb, "a%d.F%d()\n", r.n(6), r.n(n))
		}
		if r.p(10) {
			sb.Reset()
			sb.WriteString(soup(r, 20))
		}
		nodes = append(nodes, zzsim.Node{Path: "/src/" + name(i), Data: []byte(sb.String())})
	}
	nodes = append(nodes, zzsim.Node{Path: "/src/dir", Kind: "d"},
		zzsim.Node{Path: "/src/loop.tsh", Kind: "l", Data: []byte("loop.tsh")},
		zzsim.Node{Path: "/src/dirlink", Kind: "l", Data: []byte("/src/dir")},
		zzsim.Node{Path: "/src/self.tsh", Kind: "l", Data: []byte("main.tsh")})
	return nodes
}

// ladder is a chain of n files each importing the next one k times, or
// importing all later ones.
func ladder(r *rng, n, k int, all bool) []zzsim.Node {
	var nodes []zzsim.Node
	for i := 0; i < n; i++ {
		var sb strings.Builder
		if i+1 < n {
			sb.WriteString("import (\n")
			for j := 0; j < k; j++ {
				fmt.Fprintf(&sb, "a%d \"f%d.tsh\"\n", j, i+1)
			}
			if all {
				for j := i + 2; j < n; j++ {
					fmt.Fprintf(&sb, "b%d \"f%d.tsh\"\n", j, j)
				}
			}
			sb.WriteString(")\n")
		}
		fmt.Fprintf(&sb, "func F() int {\nreturn %d\n}\n", i)
		if i+1 < n {
			sb.WriteString("print(a0.F())\n")
		}
		p := fmt.Sprintf("/src/f%d.tsh", i)
		if i == 0 {
			p = "/src/main.tsh"
		}
		nodes = append(nodes, zzsim.Node{Path: p, Data: []byte(sb.String())})
	}
	return nodes
}

func bothTargets(main string) []zzsim.Step {
	return []zzsim.Step{{Kind: "transpile", Main: main, Target: "bash"}, {Kind: "transpile", Main: main, Target: "batch"}}
}

type c13Entry struct {
	text string
	disk []zzsim.Node // the other files
}

// variants puts many main files into one scenario.
func variants(sc *zzsim.Scenario, r *rng, texts []string) {
	var steps []zzsim.Step
	for i, t := range texts {
		p := fmt.Sprintf("/src/v%d.tsh", i)
		sc.Disk = append(sc.Disk, zzsim.Node{Path: p, Data: []byte(t)})
		steps = append(steps, zzsim.Step{Kind: "transpile", Main: p, Target: pick(r, []string{"bash", "batch"}), Obj: i})
	}
	sc.Tasks = append(sc.Tasks, steps)
}

// genC13 makes run i.
func genC13(c *check, i int, corpus []c13Entry) (*zzsim.Scenario, string, *c13Entry) {
	r := newRng(c.seed, hashString("C13"), uint64(i))
	sc := &zzsim.Scenario{Seed: r.u64(), Clock: int64(r.u64() >> 2), Pid: 2 + r.n(30000), Cwd: "/src", Disk: stdDisk(c), Budget: c13Steps, OpBudget: c13Ops, NoScript: true}
	base := func(files, size int, std bool) ([]*module, *zzsim.Node) {
		ms := genModules(r, files, size, std)
		sc.Disk = append(sc.Disk, moduleDisk("/src", ms)...)
		return ms, &sc.Disk[len(sc.Disk)-len(ms)]
	}
	mode := r.n(100)
	switch {
	case mode < 8: // a whole program, no faults
		base(1+r.n(4), 10+r.n(120), true)
		sc.Tasks = [][]zzsim.Step{bothTargets("/src/main.tsh")}
		return sc, "program", nil
	case mode < 40: // near misses of one program
		ms, _ := base(1+r.n(2)*r.n(2), 5+r.n(40), r.p(10))
		var ts []string
		for k := 0; k < 24; k++ {
			switch r.n(5) {
			case 0, 1:
				ts = append(ts, mutateLines(r, ms[0].text, 1+r.n(3)))
			case 2:
				ts = append(ts, mutateTokens(r, mutateLines(r, ms[0].text, 1), 1))
			default:
				ts = append(ts, mutateTokens(r, ms[0].text, 1+r.n(2)))
			}
		}
		variants(sc, r, ts)
		return sc, "token-and-line-edits", nil
	case mode < 45: // the same in an imported file
		ms, _ := base(2+r.n(2), 5+r.n(30), r.p(10))
		k := 1 + r.n(len(ms)-1)
		n := &sc.Disk[len(sc.Disk)-len(ms)+k]
		switch x := r.n(10); {
		case x < 4:
			n.Data = []byte(mutateTokens(r, ms[k].text, 1+r.n(2)))
		case x < 7:
			n.Data = []byte(mutateLines(r, ms[k].text, 1+r.n(2)))
		default:
			n.Data = []byte(mutateBytes(r, ms[k].text, 1+r.n(4)))
		}
		sc.Tasks = [][]zzsim.Step{bothTargets("/src/main.tsh")}
		return sc, "import-edits", nil
	case mode < 53: // bytes
		ms, _ := base(1, 5+r.n(30), r.p(10))
		var ts []string
		for k := 0; k < 24; k++ {
			switch r.n(6) {
			case 0:
				ts = append(ts, garbage(r, r.n(200)))
			case 1:
				ts = append(ts, soup(r, r.n(40)))
			default:
				ts = append(ts, mutateBytes(r, ms[0].text, 1+r.n(6)))
			}
		}
		variants(sc, r, ts)
		return sc, "bytes", nil
	case mode < 63:
		sc.Disk = append(sc.Disk, importGraph(r, r.p(50))...)
		sc.Tasks = [][]zzsim.Step{bothTargets(pick(r, []string{"/src/main.tsh", "/src/main.tsh", "/src/main.tsh", "main.tsh", "../src/main.tsh", "self.tsh", "loop.tsh", "dir", "", "nope.tsh", "dir/../main.tsh"}))}
		if r.p(25) {
			sc.Faults = fsFaults(r, []string{"/src/main.tsh", "/src/f1.tsh", "/src/f2.tsh", "/opt/typeshell/std/strings.tsh", "/proc/self/exe"}, 1+r.n(2))
		}
		return sc, "import-graph", nil
	case mode < 75: // disk faults under a valid program
		ms, _ := base(1+r.n(4), 10+r.n(50), true)
		var ps []string
		for _, m := range ms {
			ps = append(ps, "/src/"+m.path)
		}
		ps = append(ps, "/opt/typeshell/std/strings.tsh", "/proc/self/exe")
		sc.Faults = fsFaults(r, ps, 1+r.n(3))
		sc.Tasks = [][]zzsim.Step{append(bothTargets("/src/main.tsh"), bothTargets("/src/main.tsh")...)}
		return sc, "disk-faults", nil
	case mode < 80: // amplification
		text := ""
		switch r.n(8) {
		case 0:
			text = layered(r, 2+r.n(24), 1+r.n(4))
		case 1:
			sc.Disk = append(sc.Disk, ladder(r, 2+r.n(22), 1+r.n(3), r.p(30))...)
			sc.Tasks = [][]zzsim.Step{bothTargets("/src/main.tsh")[:1]}
			return sc, "ladder", nil
		case 2: // nests of several shapes
			for k := 1 + r.n(4); k > 0; k-- {
				text += nest(pick(r, nested), r.n(12))
			}
		default:
			n := pick(r, []int{3, 40, 300, 1200, 2500})
			text = nest(pick(r, nested), n)
		}
		sc.Disk = append(sc.Disk, zzsim.Node{Path: "/src/main.tsh", Data: []byte(text)})
		sc.Tasks = [][]zzsim.Step{{{Kind: "transpile", Main: "/src/main.tsh", Target: pick(r, []string{"bash", "batch"})}}}
		return sc, "amplified", nil
	default: // guided by coverage
		var e c13Entry
		if len(corpus) == 0 || r.p(5) {
			ms := genModules(r, 1, 5+r.n(30), false)
			e.text = ms[0].text
		} else {
			// Recent entries reached something new: prefer them.
			k := len(corpus) - 1 - r.n(1+r.n(len(corpus)))
			e = corpus[k]
			switch r.n(8) {
			case 0, 1, 2:
				e.text = mutateTokens(r, e.text, 1+r.n(4))
			case 5, 6, 7:
				e.text = mutateLines(r, e.text, 1+r.n(4))
			case 3:
				e.text = mutateBytes(r, e.text, 1+r.n(4))
			case 4: // splice
				a, b := tokenise(e.text), tokenise(pick(r, corpus).text)
				e.text = strings.Join(a[:r.n(len(a)+1)], "") + strings.Join(b[r.n(len(b)+1):], "")
			}
		}
		if len(e.text) > 6000 {
			e.text = e.text[:6000]
		}
		sc.Disk = append(sc.Disk, zzsim.Node{Path: "/src/main.tsh", Data: []byte(e.text)})
		sc.Tasks = [][]zzsim.Step{bothTargets("/src/main.tsh")}
		sc.Cover = true
		return sc, "guided", &e
	}
}

// judgeC13 is the oracle for one transpilation.
func judgeC13(x *zzsim.Result) (string, string) {
	switch {
	case x.Panic != "":
		return "panic", x.Panic
	case x.Abort != "":
		return "unbounded", x.Abort
	case !x.IsErr && x.Len == 0:
		return "neither a script nor an error", ""
	case x.IsErr && x.Len > 0:
		return "a script and an error", x.Err
	case x.IsErr && strings.TrimSpace(x.Err) == "":
		return "empty error", fmt.Sprintf("%q", x.Err)
	}
	return "", ""
}

func judgeDeath(d *died) (string, string) {
	if d.stalled {
		return "unbounded", "no answer at all (a loop outside the instrumented code)"
	}
	cl := "crash"
	if strings.Contains(d.fatal, "stack") {
		cl = "stack overflow"
	}
	return cl, d.fatal + "\n" + firstFrames(d.stderr)
}

func firstFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, ".go:") && strings.HasPrefix(l, "/") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "zzsim") {
			out = append(out, l)
			if len(out) == 6 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// onlyStep keeps one transpilation of a scenario.
func onlyStep(sc *zzsim.Scenario, task, step int) *zzsim.Scenario {
	n := *sc
	n.Tasks = [][]zzsim.Step{{sc.Tasks[task][step]}}
	n.Switches = nil
	return &n
}

// tryC13 runs a scenario and returns the first violation.
func tryC13(w *worker, sc *zzsim.Scenario) (*zzsim.Outcome, string, string, *zzsim.Scenario, error) {
	o, d, err := w.run(sc)
	if err != nil {
		return nil, "", "", nil, err
	}
	if d != nil {
		// Find the transpilation that brought the process down.
		for t := range sc.Tasks {
			for s := range sc.Tasks[t] {
				if sc.Tasks[t][s].Kind != "transpile" {
					continue
				}
				one := onlyStep(sc, t, s)
				o, d2, err := w.run(one)
				if err != nil {
					return nil, "", "", nil, err
				}
				if d2 != nil {
					cl, detail := judgeDeath(d2)
					return nil, cl, detail, one, nil
				}
				for i := range o.Results {
					if cl, detail := judgeC13(&o.Results[i]); cl != "" {
						return o, cl, detail, one, nil
					}
				}
			}
		}
		cl, detail := judgeDeath(d)
		return nil, cl, detail, sc, nil
	}
	for i := range o.Results {
		x := &o.Results[i]
		if cl, detail := judgeC13(x); cl != "" {
			one := onlyStep(sc, x.Task, x.Step)
			if o2, d2, err := w.run(one); err == nil && d2 == nil && len(o2.Results) == 1 {
				if cl2, _ := judgeC13(&o2.Results[0]); cl2 == cl {
					return o, cl, detail, one, nil
				}
			}
			return o, cl, detail, sc, nil
		}
	}
	return o, "", "", nil, nil
}

func (c *check) absorb(o *zzsim.Outcome) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.simNanos += o.SimNanos
	c.ticks += o.Ticks
	c.states[o.State] = struct{}{}
	for k, v := range o.Fired {
		c.faults[k] += v
	}
	if o.Switched > 0 {
		c.probes["preemptions"] += o.Switched
	}
}

func runC13(c *check) int {
	n, secs := 40_000, 200
	if !c.quick() {
		n, secs = 4_000_000, 3000
	}
	c.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	c.rule = "Runs are drawn from: whole generated programs; 1-2 token edits and byte edits of generated programs (main or imported file); arbitrary bytes and token soup; import graphs with cycles, missing files, directories and links; disk faults during a valid program's transpilation; nested, layered and laddered shapes; and coverage-guided mutation of a corpus kept from earlier epochs. A transpilation is non-trivial when its (error text without positions, script length, step count) triple has not been seen before."
	c.assume = []string{"bounded time is taken as 150M instrumented steps and 60k disk operations for one transpilation of an input of at most a few 100 kB", "Windows code paths are not built"}
	ws := make([]*worker, c.lanes)
	for i := range ws {
		ws[i] = &worker{path: c.built.Worker, seed: uint64(i) + 1}
		defer ws[i].stop()
	}
	var corpus []c13Entry
	covered := map[uint32]bool{}
	var mu sync.Mutex
	var maxTicks, maxOps int64
	kinds := map[string]int{}
	inputs, accepted := 0, 0
	done := 0
	// The deep shapes come first: each one is a run of its own.
	deep := []*zzsim.Scenario{}
	deepShapes := []int{0, 1, 2, 3, 4, 6, 7, 9, 11, 13, 18, 19, 20, 24}
	for k, s := range deepShapes {
		text := nest(nested[s], 300_000)
		sc := &zzsim.Scenario{Seed: uint64(k), Cwd: "/src", Disk: append(stdDisk(c), zzsim.Node{Path: "/src/main.tsh", Data: []byte(text)}), Budget: c13Steps, OpBudget: c13Ops, NoScript: true,
			Tasks: [][]zzsim.Step{{{Kind: "transpile", Main: "/src/main.tsh", Target: pick(newRng(c.seed, uint64(k)), []string{"bash", "batch"})}}}}
		deep = append(deep, sc)
	}
	note := func(o *zzsim.Outcome, kind string) {
		c.absorb(o)
		mu.Lock()
		kinds[kind]++
		for i := range o.Results {
			x := &o.Results[i]
			inputs++
			if !x.IsErr {
				accepted++
			}
			if x.Ticks > maxTicks {
				maxTicks = x.Ticks
			}
			if x.Ops > maxOps {
				maxOps = x.Ops
			}
			c.distinct[mix(hashString(stripPos(x.Err)), uint64(x.Len), uint64(x.Ticks))] = struct{}{}
		}
		mu.Unlock()
	}
	bad := func(v *violation) bool {
		c.report(v)
		c.mu.Lock()
		defer c.mu.Unlock()
		return len(c.viol) < 40
	}
	parallel(c.lanes, len(deep), func(lane, i int) bool {
		o, cl, detail, min, err := tryC13(ws[lane], deep[i])
		if err != nil {
			c.trouble(err)
			return false
		}
		c.mu.Lock()
		c.evals++
		c.mu.Unlock()
		if o != nil {
			note(o, "deep")
		}
		if cl != "" {
			return bad(&violation{Class: classC13(cl, detail), Detail: detail, Run: -len(deep) + i, Case: min})
		}
		return true
	})
	for epoch := 0; done < n && !c.expired() && c.fatal == nil && len(c.viol) < 40; epoch++ {
		type found struct {
			run   int
			entry c13Entry
			cover []uint32
		}
		var news []found
		base := epoch * c13Epoch
		parallel(c.lanes, c13Epoch, func(lane, k int) bool {
			if c.expired() {
				return false
			}
			i := base + k
			sc, kind, entry := genC13(c, i, corpus)
			o, cl, detail, min, err := tryC13(ws[lane], sc)
			if err != nil {
				c.trouble(fmt.Errorf("run %d: %w", i, err))
				return false
			}
			c.mu.Lock()
			c.evals++
			c.mu.Unlock()
			if o != nil {
				note(o, kind)
				if entry != nil {
					fresh := false
					mu.Lock()
					for _, s := range o.Cover {
						if !covered[s] {
							fresh = true
						}
					}
					if fresh {
						news = append(news, found{i, *entry, o.Cover})
					}
					mu.Unlock()
				}
				if i%4099 == 7 {
					c.sample(map[string]interface{}{"run": i, "kind": kind, "input": clip(string(sc.Disk[len(sc.Disk)-1].Data), 300), "result": clip(fmt.Sprintf("%+v", o.Results[0]), 300)})
				}
			}
			if cl != "" {
				return bad(&violation{Class: classC13(cl, detail), Detail: detail, Run: i, Case: min})
			}
			return true
		})
		sort.Slice(news, func(a, b int) bool { return news[a].run < news[b].run })
		for _, f := range news {
			fresh := false
			for _, s := range f.cover {
				if !covered[s] {
					fresh = true
					covered[s] = true
				}
			}
			if fresh {
				corpus = append(corpus, f.entry)
			}
		}
		done += c13Epoch
	}
	c.extra["transpilations"] = inputs
	c.extra["accepted"] = accepted
	c.extra["runs_by_kind"] = kinds
	c.extra["max_steps_seen"] = maxTicks
	c.extra["max_disk_operations_seen"] = maxOps
	c.extra["corpus"] = len(corpus)
	c.extra["sites_covered_by_guided_runs"] = len(covered)
	c.extra["sites_instrumented"] = c.built.Sites
	c.extra["real_components"] = "lexer, parser, transpiler, both converters, Go os/filepath packages"
	c.extra["stubs"] = "kernel file system, clock, process identity, randomness"
	c.selfTest(ws[0], 60, func(i int) *zzsim.Scenario { sc, _, _ := genC13(c, i, nil); return sc })
	return c.finish(func(v *violation) (*violation, []string) { return minimiseC13(c, v) })
}

// classC13 adds the place of a panic.
func classC13(cl, detail string) string {
	if cl != "panic" {
		return cl
	}
	for _, l := range strings.Split(detail, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/repo/"); i >= 0 && strings.Contains(l, ".go:") {
			return "panic at " + l[i+6:]
		}
	}
	return "panic"
}

func stripPos(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c < '0' || c > '9' {
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func minimiseC13(c *check, v *violation) (*violation, []string) {
	w := &worker{path: c.built.Worker, seed: 99}
	defer w.stop()
	sc := v.Case.(*zzsim.Scenario)
	detail := v.Detail
	same := func(s *zzsim.Scenario) bool {
		_, cl, d, _, err := tryC13(w, s)
		if err != nil || cl == "" || classC13(cl, d) != v.Class {
			return false
		}
		detail = d
		return true
	}
	sc = shrinkScenario(sc, same, 25*time.Second)
	fin := *sc
	fin.Trace = true
	nv := *v
	nv.Detail = detail
	for _, n := range sc.Disk {
		if !strings.HasPrefix(n.Path, "/opt/typeshell") {
			nv.Detail += fmt.Sprintf("\n%s: %q", n.Path, clip(string(n.Data), 400))
		}
	}
	nv.Case = sc
	var log []string
	if o, _, err := w.run(&fin); err == nil && o != nil {
		log = o.Log
	}
	return &nv, log
}

// shrinkScenario drops faults, files, steps, switches, lines and tokens while
// the violation stays.
func shrinkScenario(sc *zzsim.Scenario, same func(*zzsim.Scenario) bool, limit time.Duration) *zzsim.Scenario {
	return shrinkLoop(sc, limit, func(s *zzsim.Scenario) []*zzsim.Scenario {
		var out []*zzsim.Scenario
		add := func(f func(*zzsim.Scenario)) {
			n := cloneScenario(s)
			f(n)
			out = append(out, n)
		}
		if len(s.Faults) > 0 {
			add(func(n *zzsim.Scenario) { n.Faults = nil })
			for i := range s.Faults {
				i := i
				add(func(n *zzsim.Scenario) { n.Faults = append(n.Faults[:i], n.Faults[i+1:]...) })
			}
		}
		for _, frac := range []int{1, 2, 4, 8} {
			if len(s.Switches) >= frac {
				for k := 0; k < frac; k++ {
					lo, hi := k*len(s.Switches)/frac, (k+1)*len(s.Switches)/frac
					if lo < hi {
						add(func(n *zzsim.Scenario) { n.Switches = append(n.Switches[:lo], n.Switches[hi:]...) })
					}
				}
			}
		}
		if len(s.Switches) <= 12 {
			for k := range s.Switches {
				k := k
				add(func(n *zzsim.Scenario) { n.Switches = append(n.Switches[:k], n.Switches[k+1:]...) })
			}
		}
		for t := range s.Tasks {
			for i := range s.Tasks[t] {
				t, i := t, i
				add(func(n *zzsim.Scenario) {
					n.Tasks[t] = append(n.Tasks[t][:i], n.Tasks[t][i+1:]...)
				})
			}
		}
		for i := range s.Disk {
			i := i
			if s.Disk[i].Path != simExe {
				add(func(n *zzsim.Scenario) { n.Disk = append(n.Disk[:i], n.Disk[i+1:]...) })
			}
		}
		for i := range s.Disk {
			i := i
			d := string(s.Disk[i].Data)
			if s.Disk[i].Kind != "" || d == "" || strings.HasPrefix(s.Disk[i].Path, "/opt/typeshell") {
				continue
			}
			for _, cand := range shrinkText(d) {
				cand := cand
				add(func(n *zzsim.Scenario) { n.Disk[i].Data = []byte(cand) })
			}
		}
		return out
	}, same)
}

// shrinkText proposes smaller texts: chunks of lines, then chunks of tokens.
func shrinkText(d string) []string {
	var out []string
	parts := strings.SplitAfter(d, "\n")
	chunk := func(ps []string) {
		for size := len(ps) / 2; size >= 1; size /= 2 {
			for lo := 0; lo+size <= len(ps) && len(out) < 4000; lo += size {
				out = append(out, strings.Join(ps[:lo], "")+strings.Join(ps[lo+size:], ""))
			}
		}
	}
	chunk(parts)
	if len(d) < 20000 {
		chunk(tokenise(d))
	}
	return out
}

func cloneScenario(s *zzsim.Scenario) *zzsim.Scenario {
	n := *s
	n.Disk = append([]zzsim.Node(nil), s.Disk...)
	n.Faults = append([]zzsim.Fault(nil), s.Faults...)
	n.Switches = append([]zzsim.Switch(nil), s.Switches...)
	n.Tasks = nil
	for _, t := range s.Tasks {
		n.Tasks = append(n.Tasks, append([]zzsim.Step(nil), t...))
	}
	return &n
}

func replayC13(c *check, raw json.RawMessage, class string) (bool, string, []string, error) {
	sc := &zzsim.Scenario{}
	if err := json.Unmarshal(raw, sc); err != nil {
		return false, "", nil, err
	}
	w := &worker{path: c.built.Worker, seed: 99}
	defer w.stop()
	sc.Trace = true
	o, cl, detail, _, err := tryC13(w, sc)
	if err != nil {
		return false, "", nil, err
	}
	var log []string
	if o != nil {
		log = o.Log
	}
	if cl != "" {
		cl = classC13(cl, detail)
	}
	return cl == class, cl + " " + detail, log, nil
}

// selfTest runs scenarios again in fresh processes and compares event logs.
func (c *check) selfTest(w *worker, n int, gen func(i int) *zzsim.Scenario) {
	if c.fatal != nil {
		return
	}
	b := &worker{path: c.built.Worker, seed: 4242}
	defer b.stop()
	diff := 0
	for i := 0; i < n; i++ {
		sc := gen(i)
		o1, d1, err1 := w.run(sc)
		o2, d2, err2 := b.run(sc)
		if err1 != nil || err2 != nil || d1 != nil || d2 != nil {
			continue
		}
		if o1.LogHash != o2.LogHash || o1.State != o2.State {
			diff++
		}
	}
	c.extra["determinism_self_test"] = map[string]int{"runs_repeated_in_another_process": n, "different_event_logs": diff}
}
