package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/zzsim"
)

// C09: multi-file programs link correctly and the removal of unused functions
// is safe. A run is one program of several files on the simulated disk (import
// graph, path spellings, links, hash prefixes, faults) that the real parser
// and converters link in a simulated process; the emitted Bash script runs in
// a real bash and has to behave as the reference interpreter composes it.

func init() {
	properties["C09"] = property{run: runC09, replay: replayC09}
}

type c09Bad struct {
	Kind string `json:"kind"`
	Mod  int    `json:"mod"`
	Item int    `json:"item"`         // before this item of the module
	Fn   bool   `json:"fn,omitempty"` // inside a function of its own
	Text string `json:"text"`
	Used bool   `json:"used,omitempty"` // the function is called
}

type c09Case struct {
	Prog   *lProg        `json:"prog"`
	Bad    *c09Bad       `json:"bad,omitempty"`
	Seed   uint64        `json:"seed"`
	Cwd    string        `json:"cwd"`
	Main   string        `json:"main"`
	Exe    string        `json:"exe"`
	Arg0   string        `json:"arg0,omitempty"`
	Faults []zzsim.Fault `json:"faults,omitempty"`
	std    []zzsim.Node
}

// files are the texts of the program, the bad statement included.
func (k *c09Case) files() []zzsim.Node {
	var out []zzsim.Node
	for i, m := range k.Prog.Mods {
		mm := *m
		if k.Bad != nil && k.Bad.Mod == i {
			st := &lSt{K: "bad", S: k.Bad.Text}
			var add []*lItem
			if k.Bad.Fn {
				add = append(add, &lItem{Fn: &lFn{N: "zzbad", B: []*lSt{st}}})
				if k.Bad.Used {
					add = append(add, &lItem{St: &lSt{K: "bad", S: "zzbad()"}})
				}
			} else {
				add = append(add, &lItem{St: st})
			}
			at := min(k.Bad.Item, len(m.Items))
			mm.Items = append(append(append([]*lItem(nil), m.Items[:at]...), add...), m.Items[at:]...)
		}
		out = append(out, zzsim.Node{Path: m.Path, Data: []byte(mm.text())})
		if i > 0 && !strings.HasPrefix(m.Path, lgStdDir) {
			out = append(out, zzsim.Node{Path: fmt.Sprintf("/links/m%d", i), Kind: "l", Data: []byte(m.Path)})
			out = append(out, zzsim.Node{Path: fmt.Sprintf("/links/d%d", i), Kind: "l", Data: []byte(path.Dir(m.Path))})
		}
	}
	return out
}

func (k *c09Case) scenario() *zzsim.Scenario {
	sc := &zzsim.Scenario{Seed: k.Seed, Pid: 77, Clock: 1_600_000_000_000_000_000, Cwd: k.Cwd, Exe: k.Exe, Arg0: k.Arg0, Budget: c13Steps, OpBudget: c13Ops}
	sc.Faults = append([]zzsim.Fault(nil), k.Faults...)
	moved := func(p string) string {
		if rest, ok := strings.CutPrefix(p, "/opt/typeshell/"); ok {
			return path.Dir(k.Exe) + "/" + rest
		}
		return p
	}
	for _, n := range k.std {
		n.Path = moved(n.Path)
		sc.Disk = append(sc.Disk, n)
	}
	for _, n := range k.files() {
		n.Path = moved(n.Path)
		sc.Disk = append(sc.Disk, n)
	}
	for i := range sc.Faults {
		sc.Faults[i].Path = moved(sc.Faults[i].Path)
	}
	sc.Tasks = [][]zzsim.Step{{{Kind: "transpile", Main: k.Main, Target: "bash"}, {Kind: "transpile", Main: k.Main, Target: "batch", Obj: 1}}}
	return sc
}

const c09Forks = 400

func genC09(c *check, i int) *c09Case {
	for attempt := 0; ; attempt++ {
		r := newRng(c.seed, hashString("C09"), uint64(i), uint64(attempt))
		k := &c09Case{Prog: genLinked(r), Seed: r.u64(), std: stdDisk(c)}
		if why := k.Prog.check(); why != "" {
			c.probe("generated and discarded: "+strings.Fields(why)[0], 1)
			continue
		}
		if _, _, _, err := k.Prog.run(c09Forks); err != nil {
			c.probe("generated and discarded: "+err.Error(), 1)
			continue
		}
		k.Cwd = pick(r, []string{"/", "/src/app", "/src", "/src/app/lib"})
		k.Main = pick(r, []string{"/src/app/main.tsh", "/src/app/main.tsh", "/src/../src/app/./main.tsh"})
		if r.p(40) {
			k.Main = relTo(k.Cwd, "/src/app/main.tsh")
		}
		k.Exe = pick(r, []string{simExe, simExe, "/usr/bin/tsh", "/home/u/bin dir/tsh"})
		k.Arg0 = r.arg0(k.Exe)
		switch {
		case r.p(25):
			k.spoil(r)
		case r.p(12):
			for n := 1 + r.n(2); n > 0; n-- {
				f := zzsim.Fault{Nth: 1 + r.n(3), Op: pick(r, []string{"stat", "open", "read", "fstat", "readlink", ""}), Kind: pick(r, []string{"EACCES", "EIO", "ENOENT", "EMFILE", "ENOMEM", "EINTR"})}
				f.Path = pick(r, k.Prog.Mods).Path
				if r.p(25) {
					f.Path, f.Nth = "", 1+r.n(40)
				}
				if r.p(30) {
					f = zzsim.Fault{Nth: 1, Op: "read", Path: f.Path, Kind: "short", Arg: int64(1 + r.n(40)), Sticky: true}
				}
				k.Faults = append(k.Faults, f)
			}
		}
		return k
	}
}

// litArgs are arguments a call of f accepts.
func litArgs(f *lFn) string {
	var xs []string
	for _, p := range f.Ps {
		xs = append(xs, map[string]string{"int": "1", "string": `"s"`, "bool": "true"}[p.T])
		if strings.HasPrefix(p.T, "[]") {
			xs[len(xs)-1] = p.T + "{}"
		}
	}
	return strings.Join(xs, ", ")
}

func plainName(n string) bool {
	for i, c := range n {
		if c != '_' && (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') && (i == 0 || c < '0' || c > '9') {
			return false
		}
	}
	return n != ""
}

// spoil adds one statement that has to be rejected.
func (k *c09Case) spoil(r *rng) {
	p := k.Prog
	fns := func(mi int, public bool) (out []*lFn) {
		for _, it := range p.Mods[mi].Items {
			if it.Fn != nil && publicName(it.Fn.N) == public {
				out = append(out, it.Fn)
			}
		}
		return
	}
	for try := 0; try < 40; try++ {
		mi := r.n(len(p.Mods))
		m := p.Mods[mi]
		own := map[string]bool{}
		vars := map[string]bool{}
		aliases := map[string]bool{}
		for _, it := range m.Items {
			if it.Fn != nil {
				own[it.Fn.N] = true
			} else if it.St.K == "def" || it.St.K == "var" || it.St.K == "appdef" {
				for _, n := range it.St.Ns {
					vars[n] = true
				}
			}
		}
		for _, im := range m.Imps {
			aliases[im.alias()] = true
		}
		b := &c09Bad{Mod: mi, Item: r.n(len(m.Items) + 1), Fn: r.p(40), Used: r.p(50)}
		var im *lImp
		if len(m.Imps) > 0 {
			im = &m.Imps[r.n(len(m.Imps))]
			if im.To < 0 {
				im = nil
			}
		}
		switch b.Kind = pick(r, []string{"private function through an alias", "private function through an alias", "private function through an alias", "undefined function through an alias", "alias of another file", "imported function without alias", "imported variable without alias", "importer's function", "undefined function", "undefined alias", "undefined alias", "the name of an imported file"}); b.Kind {
		case "private function through an alias":
			if im == nil || len(fns(im.To, false)) == 0 {
				continue
			}
			f := pick(r, fns(im.To, false))
			b.Text = im.alias() + "." + f.N + "(" + litArgs(f) + ")"
		case "undefined function through an alias":
			if im == nil {
				continue
			}
			// A name that exists elsewhere in the program if possible.
			var names []string
			for _, o := range p.Mods {
				for _, it := range o.Items {
					if it.Fn != nil && publicName(it.Fn.N) {
						names = append(names, it.Fn.N)
					}
				}
			}
			names = append(names, "Missing")
			n := pick(r, names)
			for _, f := range fns(im.To, true) {
				if f.N == n {
					n = "Missing"
				}
			}
			if fs := fns(im.To, true); len(fs) > 0 && r.p(25) { // Nearly the name of one that is there.
				f := pick(r, fs)
				n = r.nearly(f.N)
				there := false
				for _, o := range fns(im.To, true) {
					there = there || o.N == n
				}
				if there || !publicName(n) || !plainName(n) {
					continue
				}
				b.Text = im.alias() + "." + n + "(" + litArgs(f) + ")"
				k.Bad = b
				return
			}
			b.Text = im.alias() + "." + n + "()"
			for _, o := range p.Mods {
				for _, it := range o.Items {
					if it.Fn != nil && it.Fn.N == n {
						b.Text = im.alias() + "." + n + "(" + litArgs(it.Fn) + ")"
					}
				}
			}
		case "alias of another file":
			o := r.n(len(p.Mods))
			var c []lImp
			for _, x := range p.Mods[o].Imps {
				if x.To >= 0 && !aliases[x.alias()] && len(fns(x.To, true)) > 0 {
					c = append(c, x)
				}
			}
			if o == mi || len(c) == 0 {
				continue
			}
			x := pick(r, c)
			f := pick(r, fns(x.To, true))
			if fs := append(fns(mi, true), fns(mi, false)...); len(fs) > 0 && r.p(50) {
				f = pick(r, fs) // a function of the file itself
			}
			b.Text = x.alias() + "." + f.N + "(" + litArgs(f) + ")"
		case "imported function without alias":
			if im == nil {
				continue
			}
			fs := append(fns(im.To, true), fns(im.To, false)...)
			if len(fs) == 0 {
				continue
			}
			f := pick(r, fs)
			if own[f.N] {
				continue
			}
			b.Text = f.N + "(" + litArgs(f) + ")"
		case "imported variable without alias":
			if im == nil {
				continue
			}
			var ns []string
			for _, it := range p.Mods[im.To].Items {
				if it.St != nil && (it.St.K == "def" || it.St.K == "var") {
					for _, n := range it.St.Ns {
						if !vars[n] {
							ns = append(ns, n)
						}
					}
				}
			}
			if len(ns) == 0 {
				continue
			}
			b.Text = "print(" + pick(r, ns) + ")"
		case "importer's function":
			o := r.n(len(p.Mods))
			imports := false
			for _, x := range p.Mods[o].Imps {
				imports = imports || x.To == mi
			}
			fs := append(fns(o, true), fns(o, false)...)
			if !imports || len(fs) == 0 {
				continue
			}
			f := pick(r, fs)
			if own[f.N] {
				continue
			}
			b.Text = f.N + "(" + litArgs(f) + ")"
		case "undefined alias", "the name of an imported file":
			var fs []*lFn
			if r.p(60) || im == nil {
				fs = append(fns(mi, true), fns(mi, false)...)
			} else {
				fs = fns(im.To, true)
			}
			if len(fs) == 0 {
				continue
			}
			f := pick(r, fs)
			n := pick(r, []string{"nope", f.N, strings.TrimSuffix(path.Base(m.Path), path.Ext(m.Path)), "strings", "main", "_", "this"})
			if b.Kind == "undefined alias" && im != nil && r.p(40) { // Nearly the name of one that is there.
				n = r.nearly(im.alias())
			}
			if b.Kind == "the name of an imported file" {
				if im == nil {
					continue
				}
				n = path.Base(im.P)
				n = strings.TrimSuffix(n, path.Ext(n))
			}
			if aliases[n] || vars[n] || !plainName(n) {
				continue
			}
			b.Text = n + "." + f.N + "(" + litArgs(f) + ")"
		default:
			b.Text = "missing" + fmt.Sprint(r.n(9)) + "()"
		}
		k.Bad = b
		return
	}
}

// nearly gives a name that differs slightly from a given one.
func (r *rng) nearly(n string) string {
	c := []string{strings.ToUpper(n), strings.ToLower(n), n + n[len(n)-1:], n + "0", n + "_", n[:len(n)-1], n[1:], "_" + n}
	for i := range n {
		s := n[i : i+1]
		if s == strings.ToLower(s) {
			s = strings.ToUpper(s)
		} else {
			s = strings.ToLower(s)
		}
		c = append(c, n[:i]+s+n[i+1:])
	}
	x := pick(r, c)
	if x == "" || x == n || (x[0] >= '0' && x[0] <= '9') {
		x = n + "x"
	}
	return x
}

// bashRun runs a script as an unprivileged user in an empty folder.
type bashRes struct {
	out, err string
	code     int
	late     bool
}

func (c *check) scriptDir(lane int) (string, error) {
	os.Chmod(c.scratch, 0o755)
	dir := filepath.Join(c.scratch, fmt.Sprintf("lane%d", lane))
	if err := os.RemoveAll(dir); err != nil {
		return "", err
	}
	if err := os.MkdirAll(filepath.Join(dir, "work"), 0o777); err != nil {
		return "", err
	}
	os.Chmod(dir, 0o755)
	os.Chmod(filepath.Join(dir, "work"), 0o777)
	return dir, nil
}

func (c *check) toolDir() (string, error) {
	dir := filepath.Join(c.scratch, "tools")
	if _, err := os.Stat(dir); err == nil {
		return dir, nil
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	p, err := exec.LookPath("cat")
	if err != nil {
		return "", err
	}
	return dir, os.Symlink(p, filepath.Join(dir, "cat"))
}

func unprivileged() *syscall.SysProcAttr {
	a := &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		a.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	return a
}

func (c *check) bash(lane int, script []byte) (*bashRes, error) {
	dir, err := c.scriptDir(lane)
	if err != nil {
		return nil, err
	}
	tools := filepath.Join(c.scratch, "tools")
	sp := filepath.Join(dir, "script.sh")
	if err := os.WriteFile(sp, script, 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), c09Wait)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/bash", sp)
	cmd.Dir = filepath.Join(dir, "work")
	cmd.Env = []string{"PATH=" + tools, "LC_ALL=C"}
	cmd.SysProcAttr = unprivileged()
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limited{&out, cancel}, &limited{&errb, cancel}
	err = cmd.Run()
	res := &bashRes{out: out.String(), err: errb.String(), code: cmd.ProcessState.ExitCode(), late: ctx.Err() != nil}
	if _, ok := err.(*exec.ExitError); err != nil && !ok && !res.late {
		return nil, err
	}
	return res, nil
}

// c09Wait is far above what any generated script needs (well below a second).
const c09Wait = 30 * time.Second

type limited struct {
	b    *bytes.Buffer
	full func()
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	} else {
		l.full()
	}
	return len(p), nil
}

var (
	reBatchCall  = regexp.MustCompile(`(?i)call :([A-Za-z0-9_]+)`)
	reBatchLabel = regexp.MustCompile(`(?m)^:([A-Za-z0-9_]+)`)
)

// batchMissing lists functions the Batch text calls and lacks, as far as the
// program really calls them.
func batchMissing(script []byte, called map[lFnRef]bool) []string {
	has := map[string]bool{}
	for _, m := range reBatchLabel.FindAllSubmatch(script, -1) {
		has[strings.ToLower(string(m[1]))] = true
	}
	miss := map[string]bool{}
	for _, m := range reBatchCall.FindAllSubmatch(script, -1) {
		l := string(m[1])
		if has[strings.ToLower(l)] {
			continue
		}
		for f := range called {
			if l == f.n || strings.HasSuffix(l, "_"+f.n) {
				miss[l] = true
			}
		}
	}
	var out []string
	for l := range miss {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

type c09Seen struct {
	o      *zzsim.Outcome
	script string
	res    *bashRes
	forks  int
}

func (k *c09Case) try(c *check, w *worker, lane int) (seen c09Seen, class, detail string, err error) {
	want, code, in, err := k.Prog.run(c09Forks)
	if err != nil {
		return seen, "", "", fmt.Errorf("interpreter: %v", err)
	}
	seen.forks = in.forks
	o, d, err := w.run(k.scenario())
	if err != nil {
		return seen, "", "", err
	}
	if d != nil {
		cl, detail := judgeDeath(d)
		return seen, "the process died", cl + " " + detail, nil
	}
	seen.o = o
	for _, x := range o.Results {
		t := []string{"bash", "batch"}[x.Step]
		switch {
		case x.Panic != "" || x.Abort != "":
			return seen, "no result", t + ": " + x.Panic + x.Abort, nil
		case x.IsErr && len(k.Faults) > 0:
			return seen, "", "", nil
		case x.IsErr && k.Bad == nil:
			return seen, "a valid program is rejected", t + ": " + x.Err, nil
		case !x.IsErr && k.Bad != nil:
			return seen, "accepted: " + k.Bad.Kind, fmt.Sprintf("%s: %q in %s", t, k.Bad.Text, k.Prog.Mods[k.Bad.Mod].Path), nil
		}
	}
	if k.Bad != nil || len(o.Results) != 2 {
		return seen, "", "", nil
	}
	if miss := batchMissing(o.Results[1].Script, in.called); len(miss) > 0 {
		return seen, "batch: a called function is not defined", strings.Join(miss, " "), nil
	}
	seen.script = string(o.Results[0].Script)
	res, err := c.bash(lane, o.Results[0].Script)
	if err != nil {
		return seen, "", "", err
	}
	seen.res = res
	exp := ""
	if len(want) > 0 {
		exp = strings.Join(want, "\n") + "\n"
	}
	switch {
	case res.late:
		return seen, "the script does not end", "killed after " + c09Wait.String() + " or 1 MB of output", nil
	case strings.Contains(res.err, "command not found"):
		return seen, "a called function is not defined", clip(res.err, 600), nil
	case res.out != exp:
		return seen, "wrong output", firstDiffLines(res.out, exp) + "\nstderr: " + clip(res.err, 400), nil
	case res.code != code:
		return seen, "wrong exit status", fmt.Sprintf("%d instead of %d; stderr: %s", res.code, code, clip(res.err, 400)), nil
	}
	return seen, "", "", nil
}

func firstDiffLines(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		x, y := "<end>", "<end>"
		if i < len(g) {
			x = g[i]
		}
		if i < len(w) {
			y = w[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %q instead of %q", i+1, clip(x, 200), clip(y, 200))
		}
	}
	return "no difference"
}

func runC09(c *check) int {
	n, limit := 12000, 240*time.Second
	if !c.quick() {
		n, limit = 400000, 45*time.Minute
	}
	c.deadline = time.Now().Add(limit)
	c.rule = "a run is non-trivial when it has at least two files and its script ran in bash, was rejected as it has to be, or met an injected fault; distinct counts different source sets"
	c.assume = []string{
		"the reference interpreter's fragment keeps to meanings the README fixes; programs that leave it are discarded before they run",
		"bash, cat and the processes of an emitted script are real; the transpiler runs on the simulated kernel",
		"a Batch script is only read: every function the program really calls has to have its label",
	}
	ws := make([]*worker, c.lanes)
	for i := range ws {
		ws[i] = &worker{path: c.built.Worker}
		defer ws[i].stop()
	}
	if _, err := c.toolDir(); err != nil {
		c.trouble(err)
		return c.finish(nil)
	}
	done, shapes := 0, map[string]int{}
	parallel(c.lanes, n, func(lane, i int) bool {
		if c.expired() || len(c.viol) >= 6 {
			return false
		}
		k := genC09(c, i)
		seen, class, detail, err := k.try(c, ws[lane], lane)
		if err != nil {
			c.trouble(fmt.Errorf("run %d: %v", i, err))
			return false
		}
		h := uint64(17)
		for _, f := range k.files() {
			h = mix(h, hashString(f.Path), hashString(string(f.Data)))
		}
		c.mu.Lock()
		c.evals++
		done++
		if len(k.Prog.Mods) > 1 {
			c.distinct[h] = struct{}{}
		}
		shapes[k.Prog.shape()]++
		if seen.o != nil {
			c.states[seen.o.State] = struct{}{}
			c.simNanos += seen.o.SimNanos
			c.ticks += seen.o.Ticks
			for f, n := range seen.o.Fired {
				c.faults[f] += n
			}
		}
		c.probes["files"] += len(k.Prog.Mods)
		switch {
		case k.Bad != nil:
			c.probes["rejected: "+k.Bad.Kind]++
		case seen.res != nil:
			c.probes["scripts run in bash"]++
			c.probes["lines printed"] += strings.Count(seen.res.out, "\n")
		case len(k.Faults) > 0:
			c.probes["an error under faults"]++
		}
		k.probes(c)
		c.mu.Unlock()
		if i < 4 {
			c.sample(map[string]interface{}{"run": i, "files": len(k.Prog.Mods), "main": clip(k.Prog.Mods[0].text(), 400), "bad": k.Bad})
		}
		if class != "" {
			c.report(&violation{Class: class, Detail: fmt.Sprintf("run %d: %s", i, detail), Run: i, Case: k})
		}
		return true
	})
	c.extra["import_graph_shapes"] = len(shapes)
	c.extra["planned_runs"] = n
	if done < n/4 && c.quick() && len(c.viol) == 0 {
		c.trouble(fmt.Errorf("only %d of %d runs within the time limit", done, n))
	}
	return c.finish(func(v *violation) (*violation, []string) { return shrinkC09(c, ws[0], v) })
}

// probes counts the rare shapes a case has; the caller holds the lock.
func (k *c09Case) probes(c *check) {
	hashes := map[string]int{}
	texts := map[string]int{}
	into := map[int]int{}
	for i, m := range k.Prog.Mods {
		if i > 0 {
			t := m.text()
			h := hash7(t)
			hashes[h]++
			texts[t]++
			if h[0] <= '9' {
				c.probes["hash starts with a digit"]++
			}
			if strings.Trim(h, "0123456789") == "" {
				c.probes["hash of digits only"]++
			}
		}
		per := map[int]int{}
		for _, im := range m.Imps {
			if im.To < 0 {
				c.probes["standard library import"]++
				continue
			}
			if strings.HasPrefix(k.Prog.Mods[im.To].Path, lgStdDir) {
				c.probes["import of a further standard library file"]++
			}
			per[im.To]++
			if strings.HasPrefix(im.P, "/links/") {
				c.probes["import through a link"]++
			}
		}
		for to, n := range per {
			into[to]++
			if n > 1 {
				c.probes["file imported under several aliases"]++
			}
		}
	}
	for _, n := range into {
		if n > 1 {
			c.probes["file imported by several files"]++
		}
	}
	for h, n := range hashes {
		if n > 1 && h != "" {
			c.probes["files with equal hash prefixes"]++
		}
	}
	for _, n := range texts {
		if n > 1 {
			c.probes["files with equal content"]++
		}
	}
}

func (p *lProg) shape() string {
	var b strings.Builder
	for _, m := range p.Mods {
		var to []int
		for _, im := range m.Imps {
			to = append(to, im.To)
		}
		sort.Ints(to)
		fmt.Fprint(&b, to)
	}
	return b.String()
}

func (p *lProg) clone() *lProg {
	b, _ := json.Marshal(p)
	var q lProg
	json.Unmarshal(b, &q)
	return &q
}

// smaller lists simplified programs, the boldest first.
func (p *lProg) smaller() []*lProg {
	var out []*lProg
	with := func(f func(q *lProg)) {
		q := p.clone()
		f(q)
		out = append(out, q)
	}
	for mi, m := range p.Mods {
		for half := 0; half < 2 && len(m.Items) > 3; half++ {
			n := len(m.Items) / 2
			with(func(q *lProg) {
				if half == 0 {
					q.Mods[mi].Items = q.Mods[mi].Items[n:]
				} else {
					q.Mods[mi].Items = q.Mods[mi].Items[:n]
				}
			})
		}
	}
	for mi, m := range p.Mods {
		for ii := range m.Imps {
			with(func(q *lProg) {
				x := q.Mods[mi]
				x.Imps = append(x.Imps[:ii:ii], x.Imps[ii+1:]...)
			})
		}
		for ii := range m.Items {
			with(func(q *lProg) {
				x := q.Mods[mi]
				x.Items = append(x.Items[:ii:ii], x.Items[ii+1:]...)
			})
		}
		if m.Tail != "" {
			with(func(q *lProg) { q.Mods[mi].Tail = "" })
		}
	}
	// Statements inside bodies, found by number.
	total := 0
	var walk func(sts *[]*lSt, f func(sts *[]*lSt, i int) bool) bool
	walk = func(sts *[]*lSt, f func(sts *[]*lSt, i int) bool) bool {
		for i := range *sts {
			if f(sts, i) {
				return true
			}
			for b := range (*sts)[i].B {
				if walk(&(*sts)[i].B[b], f) {
					return true
				}
			}
		}
		return false
	}
	each := func(q *lProg, f func(sts *[]*lSt, i int) bool) {
		for _, m := range q.Mods {
			for _, it := range m.Items {
				if it.Fn != nil {
					if walk(&it.Fn.B, f) {
						return
					}
				} else {
					one := []*lSt{it.St}
					for b := range one[0].B {
						if walk(&it.St.B[b], f) {
							return
						}
					}
				}
			}
		}
	}
	each(p, func(*[]*lSt, int) bool { total++; return false })
	for n := 0; n < total && n < 400; n++ {
		with(func(q *lProg) {
			k := 0
			each(q, func(sts *[]*lSt, i int) bool {
				if k == n {
					*sts = append((*sts)[:i:i], (*sts)[i+1:]...)
					return true
				}
				k++
				return false
			})
		})
	}
	// A printed expression becomes one of its operands; a compound statement
	// at top level becomes its first block.
	for mi, m := range p.Mods {
		for ii, it := range m.Items {
			if it.St != nil && len(it.St.B) > 0 && it.St.K == "if" {
				with(func(q *lProg) {
					x := q.Mods[mi]
					var add []*lItem
					for _, s := range x.Items[ii].St.B[0] {
						add = append(add, &lItem{St: s})
					}
					x.Items = append(append(append([]*lItem(nil), x.Items[:ii]...), add...), x.Items[ii+1:]...)
				})
			}
			if it.St != nil && it.St.K == "print" && len(it.St.Ex) > 1 {
				for ei := range it.St.Ex {
					with(func(q *lProg) { q.Mods[mi].Items[ii].St.Ex = q.Mods[mi].Items[ii].St.Ex[ei : ei+1] })
				}
			}
		}
	}
	return out
}

// prune empties files nothing imports any more (their numbers stay).
func (p *lProg) prune() {
	live := map[int]bool{}
	var mark func(i int)
	mark = func(i int) {
		if live[i] {
			return
		}
		live[i] = true
		for _, im := range p.Mods[i].Imps {
			if im.To >= 0 {
				mark(im.To)
			}
		}
	}
	mark(0)
	for i, m := range p.Mods {
		if !live[i] {
			m.Items, m.Imps, m.Tail = nil, nil, ""
		}
	}
}

func shrinkC09(c *check, w *worker, v *violation) (*violation, []string) {
	k := v.Case.(*c09Case)
	same := func(n *c09Case) bool {
		if n.Prog.check() != "" {
			return false
		}
		if _, _, _, err := n.Prog.run(c09Forks); err != nil {
			return false
		}
		_, cl, _, err := n.try(c, w, 0)
		return err == nil && cl == v.Class
	}
	best := shrinkLoop(k, 60*time.Second, func(k *c09Case) []*c09Case {
		var out []*c09Case
		if len(k.Faults) > 0 {
			n := *k
			n.Faults = nil
			out = append(out, &n)
		}
		for _, p := range k.Prog.smaller() {
			n := *k
			p.prune()
			n.Prog = p
			if k.Bad != nil && p.badLost(k.Bad) {
				continue
			}
			out = append(out, &n)
		}
		return out
	}, same)
	nv := *v
	nv.Case = best
	seen, _, detail, err := best.try(c, w, 0)
	var log []string
	if err == nil {
		nv.Detail = fmt.Sprintf("run %d: %s", v.Run, detail)
	}
	for _, f := range best.files() {
		if f.Kind == "" && len(f.Data) > 0 {
			log = append(log, "== "+f.Path)
			log = append(log, strings.Split(string(f.Data), "\n")...)
		}
	}
	if want, code, _, err := best.Prog.run(c09Forks); err == nil && best.Bad == nil {
		log = append(log, fmt.Sprintf("== expected output, exit status %d", code))
		log = append(log, headLines(want)...)
		if seen.res != nil {
			log = append(log, fmt.Sprintf("== output of the script, exit status %d", seen.res.code))
			log = append(log, headLines(strings.Split(clip(seen.res.out, 20000), "\n"))...)
		}
	}
	return &nv, log
}

func headLines(l []string) []string {
	if len(l) > 200 {
		l = append(l[:200:200], fmt.Sprintf("(%d more lines)", len(l)-200))
	}
	return l
}

// badLost: the bad statement's file is not part of the program any more, or
// the smaller program makes its name available.
func (p *lProg) badLost(b *c09Bad) bool {
	m := p.Mods[b.Mod]
	if b.Mod == 0 {
		return false
	}
	live := false
	for _, x := range p.Mods {
		for _, im := range x.Imps {
			live = live || im.To == b.Mod
		}
	}
	return !live || m == nil
}

func replayC09(c *check, raw json.RawMessage, class string) (bool, string, []string, error) {
	var k c09Case
	if err := json.Unmarshal(raw, &k); err != nil {
		return false, "", nil, err
	}
	k.std = stdDisk(c)
	if _, err := c.toolDir(); err != nil {
		return false, "", nil, err
	}
	w := &worker{path: c.built.Worker}
	defer w.stop()
	_, cl, detail, err := k.try(c, w, 0)
	if err != nil {
		return false, "", nil, err
	}
	return cl == class, detail + " (" + cl + ")", nil, nil
}
