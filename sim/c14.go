package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"time"

	"verifsim/zzsim"
)

// C14: transpilation is a pure, repeatable function of content and target. A
// run is a history of Transpile calls in one fresh simulated process: several
// source trees at several places, one or several transpiler objects, one to
// three tasks preempted at instrumented steps, contents that change between
// calls, failing calls and disk faults. Every returned script is compared with
// what a fresh process returns for the same tree at a canonical place.

func init() {
	properties["C14"] = property{run: runC14, replay: replayC14}
}

type c14Tree struct {
	Files []zzsim.Node `json:"files"` // relative paths; main.tsh is the main file
}

type c14Step struct {
	Kind   string `json:"k"` // transpile, change
	Place  int    `json:"p"`
	Tree   int    `json:"tree,omitempty"` // change: what the place holds from now on
	Target string `json:"t,omitempty"`
	Obj    int    `json:"o,omitempty"`
	Spell  int    `json:"s,omitempty"`
	How    int    `json:"h,omitempty"` // change: 0 every file anew, 1 the differing files anew, 2 the differing files in place with their old times
}

type c14Place struct {
	Root string `json:"root"`
	Tree int    `json:"tree"`
}

type c14Case struct {
	Seed     uint64
	Clock    int64
	Pid      int
	Cwd      string
	Exe      string
	Arg0     string       `json:",omitempty"`
	Near     []zzsim.Node `json:",omitempty"` // files nothing refers to
	Unset    []string
	Env      map[string]string
	Trees    []c14Tree
	Places   []c14Place
	Tasks    [][]c14Step
	Faults   []zzsim.Fault
	Switches []zzsim.Switch
	Args     []string `json:",omitempty"` // a tsh process instead of library calls
	std      []zzsim.Node
}

type c14Want struct {
	tree   int
	target string
	mayErr bool
}

// build makes the explicit scenario and what each transpilation must return.
func (k *c14Case) build() (*zzsim.Scenario, map[[2]int]c14Want) {
	sc := &zzsim.Scenario{Seed: k.Seed, Clock: k.Clock, Pid: k.Pid, Cwd: k.Cwd, Exe: k.Exe, Arg0: k.Arg0, Env: k.Env, Unset: k.Unset, Budget: c13Steps, OpBudget: c13Ops, Faults: k.Faults, Switches: k.Switches}
	exeDir := strings.TrimSuffix(k.Exe, "/tsh")
	for _, n := range k.std {
		n.Path = exeDir + strings.TrimPrefix(n.Path, "/opt/typeshell")
		sc.Disk = append(sc.Disk, n)
	}
	holds := make([]int, len(k.Places))
	for i, p := range k.Places {
		holds[i] = p.Tree
		for _, f := range k.Trees[p.Tree].Files {
			f.Path = p.Root + "/" + f.Path
			sc.Disk = append(sc.Disk, f)
		}
		sc.Disk = append(sc.Disk, zzsim.Node{Path: fmt.Sprintf("/links/l%d", i), Kind: "l", Data: []byte(p.Root)})
	}
	sc.Disk = append(sc.Disk, k.Near...)
	faulty := func(place int) bool {
		for _, f := range k.Faults {
			if f.Kind == "short" || f.Kind == "EINTR" {
				continue
			}
			if f.Path == "" || !strings.HasPrefix(f.Path, "/p") || strings.HasPrefix(f.Path, k.Places[place].Root+"/") {
				return true
			}
		}
		return false
	}
	want := map[[2]int]c14Want{}
	for t, steps := range k.Tasks {
		var out []zzsim.Step
		for _, s := range steps {
			root := k.Places[s.Place].Root
			if s.Kind == "change" {
				old := map[string][]byte{}
				next := map[string]bool{}
				for _, f := range k.Trees[s.Tree].Files {
					next[f.Path] = true
				}
				for _, f := range k.Trees[holds[s.Place]].Files {
					if s.How > 0 && next[f.Path] {
						old[f.Path] = f.Data
						continue
					}
					out = append(out, zzsim.Step{Kind: "mut", Mut: &zzsim.Mutation{Kind: "rm", Path: root + "/" + f.Path}})
				}
				holds[s.Place] = s.Tree
				for _, f := range k.Trees[s.Tree].Files {
					kind := "write"
					if o, ok := old[f.Path]; ok {
						if bytes.Equal(o, f.Data) {
							continue
						}
						if s.How == 2 {
							kind = "overwrite"
						}
					}
					out = append(out, zzsim.Step{Kind: "mut", Mut: &zzsim.Mutation{Kind: kind, Path: root + "/" + f.Path, Data: f.Data}})
				}
				continue
			}
			main := root + "/main.tsh"
			switch s.Spell {
			case 1:
				main = relPath(strings.Trim(k.Cwd, "/")+"/x", strings.TrimPrefix(main, "/"))
			case 2:
				main = root + "//./main.tsh"
			case 3:
				main = fmt.Sprintf("/links/l%d/main.tsh", s.Place)
			case 4:
				main = root + "/../" + root[strings.LastIndexByte(root, '/')+1:] + "/main.tsh"
			}
			want[[2]int{t, len(out)}] = c14Want{holds[s.Place], s.Target, faulty(s.Place)}
			out = append(out, zzsim.Step{Kind: "transpile", Main: main, Target: s.Target, Obj: s.Obj})
		}
		sc.Tasks = append(sc.Tasks, out)
	}
	return sc, want
}

type c14Ref struct {
	ok     bool
	panics bool
	script []byte
	ticks  int64
	err    string
}

// ref is the canonical result: a fresh process, one call, the tree at /src.
func (k *c14Case) ref(w *worker, tree int, target string) (c14Ref, error) {
	sc := &zzsim.Scenario{Seed: 1, Pid: 100, Clock: 1_700_000_000_000_000_000, Cwd: "/", Budget: c13Steps, OpBudget: c13Ops}
	sc.Disk = append(sc.Disk, k.std...)
	for _, f := range k.Trees[tree].Files {
		f.Path = "/src/" + f.Path
		sc.Disk = append(sc.Disk, f)
	}
	sc.Tasks = [][]zzsim.Step{{{Kind: "transpile", Main: "/src/main.tsh", Target: target}}}
	w.stop()
	o, d, err := w.run(sc)
	if err != nil {
		return c14Ref{}, err
	}
	if d != nil {
		return c14Ref{panics: true}, nil
	}
	x := o.Results[0]
	return c14Ref{ok: !x.IsErr, panics: x.Panic != "" || x.Abort != "", script: x.Script, ticks: x.Ticks, err: x.Err}, nil
}

func genC14(c *check, i int) *c14Case {
	r := newRng(c.seed, hashString("C14"), uint64(i))
	k := &c14Case{Seed: r.u64(), Clock: int64(r.u64() >> 2), Pid: 2 + r.n(30000), std: stdDisk(c), Env: map[string]string{}}
	k.Cwd = pick(r, []string{"/", "/home/u", "/p0", "/p1/x", "/tmp"})
	k.Exe = pick(r, []string{simExe, simExe, "/usr/bin/tsh", "/home/u/bin dir/tsh"})
	for n := r.n(3); n > 0; n-- {
		k.Env[pick(r, []string{"HOME", "PWD", "TMPDIR", "LANG", "GODEBUG_X", "TSH", "USER", "PATH"})] = pick(r, []string{"", "/home/u", "C", "1", "/p0"})
	}
	if r.p(50) {
		k.Unset = envValues(r)
	}
	k.Arg0 = r.arg0(k.Exe)
	for n := r.n(5) * r.n(2); n > 0; n-- {
		d := pick(r, []string{k.Cwd, k.Cwd, "/home/u", "/", "/src", "/usr/local/bin", "/usr/lib/typeshell", "/home/u/.typeshell", "/p0"})
		f := pick(r, []string{"std/strings.tsh", "std/strings.tsh", "std/strings", "strings.tsh.tsh", "std/main.tsh", ".tsh", "tsh.json", "tsh.env", "std.tsh"})
		k.Near = append(k.Near, zzsim.Node{Path: strings.TrimSuffix(d, "/") + "/" + f, Data: []byte(pick(r, []string{"", "print(\"near\")\n", "func Contains(s string, t string) bool {\n\treturn true\n}\n"}))})
	}
	nt := 1 + r.n(4)
	for t := 0; t < nt; t++ {
		var tr c14Tree
		if t > 0 && r.p(45) {
			// A close relative of another tree: one file differs.
			base := k.Trees[r.n(t)]
			tr.Files = append(tr.Files, base.Files...)
			f := r.n(len(tr.Files))
			if f == 0 && r.p(70) {
				f = r.n(len(tr.Files)) // rather an imported file
			}
			text := string(tr.Files[f].Data)
			switch r.n(5) {
			case 0:
				text = mutateLines(r, text, 1)
			case 1:
				text = mutateTokens(r, text, 1)
			case 2: // same length
				text = strings.NewReplacer("0", "7", "hello", "hallo", "true", "true").Replace(text)
			default:
				text = strings.TrimRight(text, "\r\n") + "\nprint(\"changed\")\n"
			}
			tr.Files[f].Data = []byte(text)
		} else {
			ms := genModules(r, 1+r.n(7)*r.n(2), 8+r.n(60), r.p(30))
			for _, m := range ms {
				tr.Files = append(tr.Files, zzsim.Node{Path: m.path, Data: []byte(m.text)})
			}
		}
		if r.p(6) {
			tr.Files = append(tr.Files[:0:0], zzsim.Node{Path: "main.tsh", Data: []byte(pick(r, []string{"x := \n", "import \"gone.tsh\"\n", "switch 1 {\ncase 1:\nbreak\n}\n", "", "\"", "var a int = true\n", "import \"main.tsh\"\n"}))})
		}
		k.Trees = append(k.Trees, tr)
	}
	tasks := 1
	if r.p(45) {
		tasks = 2 + r.n(2)
	}
	np := nt + r.n(3)
	for p := 0; p < np; p++ {
		k.Places = append(k.Places, c14Place{fmt.Sprintf(pick(r, []string{"/p%d", "/p%d/deep/er", "/p%d x", "/p%d/0abc", "/p%d/std", "/p%d/a.b"}), p), r.n(nt)})
	}
	near := k.Near[:0]
	for _, n := range k.Near {
		in := false
		for _, p := range k.Places {
			in = in || p.Root == path.Dir(n.Path) && strings.HasSuffix(p.Root, "/std")
		}
		if !in {
			near = append(near, n)
		}
	}
	k.Near = near
	for t := 0; t < tasks; t++ {
		var steps []c14Step
		n := 2 + r.n(6)
		if tasks > 1 {
			n = 1 + r.n(4)
		}
		for ; n > 0; n-- {
			// Places from `tasks` on belong to one task, which may change them.
			p := r.n(np)
			if p >= tasks && p%tasks != t {
				p = r.n(min(tasks, np))
			}
			if p >= tasks && r.p(25) || tasks == 1 && r.p(20) {
				ch := c14Step{Kind: "change", Place: p, Tree: r.n(nt), How: r.n(3)}
				if r.p(40) {
					// The same call once before and once after the change.
					st := c14Step{Kind: "transpile", Place: p, Target: pick(r, []string{"bash", "batch"}), Obj: 10 + t, Spell: r.n(5) * r.n(2)}
					steps = append(steps, st, ch, st)
					continue
				}
				steps = append(steps, ch)
			}
			obj := 0
			switch r.n(4) {
			case 0:
				obj = 10 + t
			case 1:
				obj = 100 + r.n(1000)
			}
			steps = append(steps, c14Step{Kind: "transpile", Place: p, Target: pick(r, []string{"bash", "batch"}), Obj: obj, Spell: r.n(5) * r.n(2)})
		}
		k.Tasks = append(k.Tasks, steps)
	}
	if r.p(35) {
		for n := 1 + r.n(3); n > 0; n-- {
			f := zzsim.Fault{Nth: 1 + r.n(4), Op: pick(r, []string{"stat", "open", "read", "fstat", "readlink", ""})}
			if r.p(75) {
				p := k.Places[r.n(np)]
				f.Path = p.Root + "/" + pick(r, k.Trees[p.Tree].Files).Path
			} else {
				f.Nth = 1 + r.n(60)
			}
			if r.p(30) {
				f.Op, f.Kind, f.Arg = "read", "short", 1+int64(r.n(50))
				f.Sticky = r.p(70)
			} else {
				f.Kind = pick(r, []string{"EACCES", "EIO", "EINTR", "EMFILE", "ENFILE", "ENOMEM", "ESTALE", "EPERM", "EAGAIN"})
				f.Sticky = r.p(20)
			}
			k.Faults = append(k.Faults, f)
		}
	}
	return k
}

// plan adds the preemptions once the lengths of the calls are known.
func (k *c14Case) plan(r *rng, total int64) {
	if len(k.Tasks) < 2 || total <= 0 {
		return
	}
	n := 1 + r.n(6)
	if r.p(40) {
		n = 10 + r.n(60)
	}
	at := make([]int64, n)
	for i := range at {
		at[i] = 1 + int64(r.u64()%uint64(total))
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && at[j] < at[j-1]; j-- {
			at[j], at[j-1] = at[j-1], at[j]
		}
	}
	for _, a := range at {
		k.Switches = append(k.Switches, zzsim.Switch{At: a, Task: r.n(len(k.Tasks))})
	}
}

type c14Refs map[string]c14Ref

func (k *c14Case) refs(w *worker) (c14Refs, int64, error) {
	refs := c14Refs{}
	_, want := k.build()
	total := int64(0)
	for _, x := range want {
		key := fmt.Sprintf("%d/%s", x.tree, x.target)
		if _, ok := refs[key]; !ok {
			ref, err := k.ref(w, x.tree, x.target)
			if err != nil {
				return nil, 0, err
			}
			refs[key] = ref
		}
		total += refs[key].ticks
	}
	return refs, total, nil
}

func firstDiff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: got %q, a fresh process gives %q", i+1, clip(x, 200), clip(y, 200))
		}
	}
	return "no difference"
}

// tryC14 runs one case.
func tryC14(w *worker, k *c14Case, refs c14Refs) (*zzsim.Outcome, string, string, error) {
	if refs == nil {
		var err error
		if refs, _, err = k.refs(w); err != nil {
			return nil, "", "", err
		}
	}
	sc, want := k.build()
	w.stop() // every history starts in a fresh process
	w.seed = k.Seed
	o, d, err := w.run(sc)
	if err != nil {
		return nil, "", "", err
	}
	if d != nil && len(sc.Switches) > 0 && (d.stalled || strings.Contains(d.fatal, "asleep")) {
		// A task was preempted while it held a lock another one waits for: the
		// simulator cannot go on, which says nothing about the code.
		sc.Switches = nil
		w.stop()
		o, d, err = w.run(sc)
		if err != nil {
			return nil, "", "", err
		}
	}
	if d != nil {
		for _, x := range want {
			if refs[fmt.Sprintf("%d/%s", x.tree, x.target)].panics {
				return nil, "", "", nil // C13's business
			}
		}
		cl, detail := judgeDeath(d)
		return nil, "process died", cl + " " + detail, nil
	}
	for i := range o.Results {
		x := &o.Results[i]
		wt := want[[2]int{x.Task, x.Step}]
		ref := refs[fmt.Sprintf("%d/%s", wt.tree, wt.target)]
		if ref.panics {
			continue // C13's business
		}
		at := fmt.Sprintf("task %d step %d (tree %d, %s): ", x.Task, x.Step, wt.tree, wt.target)
		switch {
		case x.Panic != "" || x.Abort != "":
			return o, "no result where a fresh process has one", at + x.Panic + x.Abort, nil
		case x.IsErr && (wt.mayErr || !ref.ok):
			if len(x.Script) > 0 {
				return o, "a script and an error", at + x.Err, nil
			}
		case x.IsErr:
			return o, "rejected, but a fresh process accepts", at + x.Err, nil
		case !ref.ok && wt.mayErr:
			return o, "accepted under faults, but a fresh process rejects", at + ref.err, nil
		case !ref.ok:
			return o, "accepted, but a fresh process rejects", at + ref.err, nil
		case !bytes.Equal(x.Script, ref.script):
			return o, "a different script", at + firstDiff(x.Script, ref.script), nil
		}
	}
	return o, "", "", nil
}

// tshCase turns a case into a command execution: both targets in one process.
func (k *c14Case) tshCase(r *rng) (*procRun, int) {
	n := *k
	n.Tasks, n.Faults, n.Switches = nil, nil, nil
	sc, _ := n.build()
	p := r.n(len(k.Places))
	sc.Disk = append(sc.Disk, zzsim.Node{Path: "/result", Kind: "d"})
	pairs := [][]string{{"-i", k.Places[p].Root + "/main.tsh"}, {"-o", "/result"}, {"-t", "bash"}, {"-t", "batch"}}
	if r.p(30) {
		pairs = append(pairs, []string{"-t", pick(r, []string{"bash", "batch"})})
	}
	shuffle(r, pairs)
	pr := &procRun{Sc: sc}
	for _, x := range pairs {
		pr.Args = append(pr.Args, x...)
	}
	return pr, k.Places[p].Tree
}

// tryC14Tsh runs the command and compares its files with the fresh results.
func tryC14Tsh(c *check, w *worker, k *c14Case, pr *procRun, tree int) (string, string, error) {
	rb, err := k.ref(w, tree, "bash")
	if err != nil {
		return "", "", err
	}
	rw, err := k.ref(w, tree, "batch")
	if err != nil {
		return "", "", err
	}
	if !rb.ok || !rw.ok || rb.panics || rw.panics {
		return "", "", nil
	}
	res, err := c.runTsh(pr)
	if err != nil {
		return "", "", err
	}
	for f, ref := range map[string]c14Ref{"/result/main.sh": rb, "/result/main.bat": rw} {
		if n, ok := res.final[f]; !ok || !bytes.Equal(n.Data, ref.script) {
			return "the command gives a different script", fmt.Sprintf("tsh %q: exit status %d, %s: %s", pr.Args, res.exit, f, firstDiff(n.Data, ref.script)), nil
		}
	}
	return "", "", nil
}

type c14TshCase struct {
	Tsh  *procRun
	Tree int
	Case *c14Case
}

func runC14(c *check) int {
	n, secs := 12_000, 170
	if !c.quick() {
		n, secs = 3_000_000, 3000
	}
	c.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	c.rule = "One run is one fresh simulated process with a history of Transpile calls over 1-4 source trees (unrelated, or equal but for one file) at several places, on one or several transpiler objects, both targets, 1-3 preempted tasks, contents that change between calls, rejected programs and disk faults, and random map seeds, clock, pid, inode numbers, environment, working directory and executable path; every fifth run also runs the tsh command with both targets. Non-trivial: distinct (scripts returned in order) sequences."
	c.assume = []string{"tasks are preempted at function, branch and loop entries only, so data races between two such points are not explored", "a converter instance is fresh for each call"}
	ws := make([]*worker, c.lanes)
	for i := range ws {
		ws[i] = &worker{path: c.built.Worker, seed: uint64(i) + 1}
		defer ws[i].stop()
	}
	var calls, scripts, histTasks, changes, tsh int
	parallel(c.lanes, n, func(lane, i int) bool {
		if c.expired() || c.fatal != nil {
			return false
		}
		w := ws[lane]
		k := genC14(c, i)
		refs, total, err := k.refs(w)
		if err != nil {
			c.trouble(fmt.Errorf("run %d: %w", i, err))
			return false
		}
		k.plan(newRng(c.seed, hashString("C14s"), uint64(i)), total)
		o, cl, detail, err := tryC14(w, k, refs)
		if err != nil {
			c.trouble(fmt.Errorf("run %d: %w", i, err))
			return false
		}
		if o != nil {
			c.absorb(o)
			h := uint64(0)
			c.mu.Lock()
			for _, x := range o.Results {
				calls++
				if !x.IsErr {
					scripts++
				}
				h = mix(h, uint64(x.Task), hashString(x.Hash), uint64(len(x.Err)))
			}
			c.distinct[h] = struct{}{}
			if len(k.Tasks) > 1 {
				histTasks++
			}
			for _, t := range k.Tasks {
				for _, s := range t {
					if s.Kind == "change" {
						changes++
					}
				}
			}
			c.mu.Unlock()
			if i%1999 == 3 {
				c.sample(map[string]interface{}{"run": i, "places": k.Places, "tasks": k.Tasks, "switches": len(k.Switches), "faults": k.Faults})
			}
		}
		c.mu.Lock()
		c.evals++
		c.mu.Unlock()
		if cl != "" {
			c.report(&violation{Class: cl, Detail: detail, Run: i, Case: k})
			return len(c.viol) < 20
		}
		if i%5 == 0 {
			pr, tree := k.tshCase(newRng(c.seed, hashString("C14t"), uint64(i)))
			cl, detail, err := tryC14Tsh(c, w, k, pr, tree)
			if err != nil {
				c.trouble(fmt.Errorf("run %d: %w", i, err))
				return false
			}
			c.mu.Lock()
			c.evals++
			tsh++
			c.mu.Unlock()
			if cl != "" {
				c.report(&violation{Class: cl, Detail: detail, Run: i, Case: &c14TshCase{pr, tree, k}})
				return len(c.viol) < 20
			}
		}
		return true
	})
	c.extra["transpile_calls"] = calls
	c.extra["scripts_compared"] = scripts
	c.extra["concurrent_histories"] = histTasks
	c.extra["content_changes"] = changes
	c.extra["tsh_processes"] = tsh
	c.extra["real_components"] = "lexer, parser, transpiler, both converters, tsh.go, Go os/filepath packages and runtime maps"
	c.extra["stubs"] = "kernel file system, clock, process identity, randomness (map seeds), the scheduler's choices"
	c.selfTest(ws[0], 40, func(i int) *zzsim.Scenario {
		k := genC14(c, i)
		k.plan(newRng(c.seed, hashString("C14s"), uint64(i)), 40000)
		sc, _ := k.build()
		return sc
	})
	return c.finish(func(v *violation) (*violation, []string) { return minimiseC14(c, v) })
}

func cloneC14(k *c14Case) *c14Case {
	n := *k
	n.Trees = nil
	for _, t := range k.Trees {
		n.Trees = append(n.Trees, c14Tree{append([]zzsim.Node(nil), t.Files...)})
	}
	n.Places = append([]c14Place(nil), k.Places...)
	n.Tasks = nil
	for _, t := range k.Tasks {
		n.Tasks = append(n.Tasks, append([]c14Step(nil), t...))
	}
	n.Faults = append([]zzsim.Fault(nil), k.Faults...)
	n.Switches = append([]zzsim.Switch(nil), k.Switches...)
	return &n
}

func minimiseC14(c *check, v *violation) (*violation, []string) {
	w := &worker{path: c.built.Worker, seed: 99}
	defer w.stop()
	nv := *v
	if _, ok := v.Case.(*c14TshCase); ok {
		return &nv, nil
	}
	detail := v.Detail
	same := func(k *c14Case) bool {
		_, cl, d, err := tryC14(w, k, nil)
		if err != nil || cl != v.Class {
			return false
		}
		detail = d
		return true
	}
	k := shrinkLoop(v.Case.(*c14Case), 30*time.Second, func(k *c14Case) []*c14Case {
		var out []*c14Case
		add := func(f func(*c14Case)) {
			n := cloneC14(k)
			f(n)
			out = append(out, n)
		}
		if len(k.Faults) > 0 {
			add(func(n *c14Case) { n.Faults = nil })
		}
		for i := range k.Faults {
			i := i
			add(func(n *c14Case) { n.Faults = append(n.Faults[:i], n.Faults[i+1:]...) })
		}
		if len(k.Switches) > 0 {
			add(func(n *c14Case) { n.Switches = nil })
			h := len(k.Switches) / 2
			add(func(n *c14Case) { n.Switches = n.Switches[:h] })
			add(func(n *c14Case) { n.Switches = n.Switches[h:] })
		}
		for t := range k.Tasks {
			t := t
			if len(k.Tasks) > 1 {
				add(func(n *c14Case) { n.Tasks = append(n.Tasks[:t], n.Tasks[t+1:]...); n.Switches = nil })
			}
			for s := range k.Tasks[t] {
				s := s
				add(func(n *c14Case) { n.Tasks[t] = append(n.Tasks[t][:s], n.Tasks[t][s+1:]...) })
			}
		}
		if len(k.Switches) < 15 {
			for i := range k.Switches {
				i := i
				add(func(n *c14Case) { n.Switches = append(n.Switches[:i], n.Switches[i+1:]...) })
			}
		}
		for t := range k.Trees {
			for f := range k.Trees[t].Files {
				t, f := t, f
				if k.Trees[t].Files[f].Path != "main.tsh" {
					add(func(n *c14Case) { n.Trees[t].Files = append(n.Trees[t].Files[:f], n.Trees[t].Files[f+1:]...) })
				}
				d := string(k.Trees[t].Files[f].Data)
				for _, cand := range shrinkText(d) {
					cand := cand
					add(func(n *c14Case) { n.Trees[t].Files[f].Data = []byte(cand) })
				}
			}
		}
		return out
	}, same)
	nv.Case = k
	nv.Detail = detail
	for t, tr := range k.Trees {
		for _, f := range tr.Files {
			nv.Detail += fmt.Sprintf("\ntree %d %s: %q", t, f.Path, clip(string(f.Data), 300))
		}
	}
	b, _ := json.Marshal(k.Tasks)
	nv.Detail += "\ntasks " + string(b)
	sc, _ := k.build()
	sc.Trace = true
	w.stop()
	var log []string
	if o, _, err := w.run(sc); err == nil && o != nil {
		log = o.Log
	}
	return &nv, log
}

func replayC14(c *check, raw json.RawMessage, class string) (bool, string, []string, error) {
	w := &worker{path: c.built.Worker, seed: 99}
	defer w.stop()
	tc := &c14TshCase{}
	if json.Unmarshal(raw, tc) == nil && tc.Tsh != nil {
		tc.Case.std = stdDisk(c)
		cl, detail, err := tryC14Tsh(c, w, tc.Case, tc.Tsh, tc.Tree)
		return cl == class, cl + " " + detail, nil, err
	}
	k := &c14Case{}
	if err := json.Unmarshal(raw, k); err != nil {
		return false, "", nil, err
	}
	k.std = stdDisk(c)
	o, cl, detail, err := tryC14(w, k, nil)
	if err != nil {
		return false, "", nil, err
	}
	var log []string
	if o != nil {
		log = o.Log
	}
	return cl == class, cl + " " + detail, log, nil
}

// envValues are the values of the variables a run finds in its environment whatever their name.
func envValues(r *rng) []string {
	vals := []string{"-", "1"}
	for n := 1 + r.n(3); n > 0; n-- {
		vals = append(vals, pick(r, []string{"", "0", "true", "on", "C", "en_US.UTF-8", "/p1/x", "/home/u", "/usr/local/bin", "bash", "batch", "debug", "80", "1700000000", "a b"}))
	}
	return vals
}
