package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"verifsim/zzsim"
)

// C19: the tsh command writes exactly the library's output, or nothing. Each
// run is one simulated tsh process; what the library returns for the same disk
// comes from a simulated library process.

func init() {
	properties["C19"] = property{run: runC19, replay: replayC19}
}

// c19Case is one explicit command execution.
type c19Case struct {
	procRun
	Bad      string   // why the options are wrong, "" if they are right
	Unsure   bool     // either a success or a clean failure is right
	In       string   // the -i value
	InReal   string   // the input file's real path
	Targets  []string // distinct requested targets
	OutFiles []string // the output file of each (real path)
	Faulted  bool
	Repeated bool // a target is named twice
}

var c19Ext = map[string]string{"bash": "sh", "batch": "bat"}

var c19Names = []string{"main.tsh", "main.tsh", "prog.tsh", "a.b.tsh", "a.b.c.tsh", "noext", "with blank.tsh", "two  blanks in.x y", "x.", "dots..tsh", "UPPER.TSH", "-dash.tsh", "é.tsh", "main.sh", "main.bat", "main.sh.tsh", "main.bat.sh", "prog.tar.gz", "a'b.tsh", `a"b.tsh`, "100%.tsh", "$x.tsh", "*.tsh", ".hidden.tsh", "日本.tsh", "tsh", "batch", "out.tsh", strings.Repeat("n", 240) + ".tsh", "a\tb.tsh", "c.tsh~", "v1.2", " lead.tsh", "trail.tsh ", "trail ", "a .tsh", " ", "-i", "--type", "-t.tsh", "=x.tsh", "a\nb.tsh", "A.tSh", "x.tsh.tsh", "...", "a.", "%s.tsh", "\\x.tsh", "~.tsh", "a=b.tsh", "@.tsh"}

func genC19(c *check, i int) *c19Case {
	r := newRng(c.seed, hashString("C19"), uint64(i))
	sc := &zzsim.Scenario{Seed: r.u64(), Clock: int64(r.u64() >> 2), Pid: 2 + r.n(30000), Cwd: "/work", Disk: stdDisk(c), Budget: c13Steps, OpBudget: c13Ops}
	k := &c19Case{}
	k.Sc = sc
	if r.p(30) {
		sc.Arg0 = r.arg0(simExe)
	}
	if r.p(20) {
		sc.Env = map[string]string{"HOME": "/work", "PATH": "/opt/typeshell:/work", "PWD": pick(r, []string{"/work", "/", "/work/in"}), "TMPDIR": pick(r, []string{"/work", "/gone", ""}), "LANG": "C"}
	}
	if r.p(10) {
		sc.Unset = envValues(r)
	}
	// The input.
	name := pick(r, c19Names)
	dir := pick(r, []string{"/work", "/work", "/work/in", "/work/dir.with.dots", "/work/my src", "/srv/a/b"})
	ms := genModules(r, 1+r.n(3)*r.n(2), 4+r.n(30), r.p(20))
	switch x := r.n(10); {
	case x < 2:
		ms[0].text = mutateLines(r, ms[0].text, 1+r.n(2))
	case x == 2:
		ms[0].text = mutateTokens(r, ms[0].text, 1+r.n(2))
	case x == 3:
		ms[0].text = pick(r, []string{"", "\n", "// nothing\n", "print(\"hi\")", "switch 1 {\ncase 1:\nbreak\n}\n", "x := \n", "import \"gone.tsh\"\n", "x := 1 + \"a\"\n", "\"", "/* open", "import \"main.tsh\"\n", "var a, b int = 1\n"})
	}
	ms[0].path = name
	sc.Disk = append(sc.Disk, moduleDisk(dir, ms)...)
	k.InReal = dir + "/" + name
	in := k.InReal
	switch r.n(5) {
	case 0:
	case 1:
		if strings.HasPrefix(dir, "/work") {
			in = "." + strings.TrimPrefix(dir, "/work") + "/" + name
		}
	case 2:
		ln := pick(r, []string{"link.tsh", "other.name.tsh", "l"})
		if len(ms) == 1 {
			sc.Disk = append(sc.Disk, zzsim.Node{Path: "/work/links/" + ln, Kind: "l", Data: []byte(k.InReal)})
			in = "links/" + ln
			name = ln
		}
	default:
		if strings.HasPrefix(dir, "/work") {
			in = strings.TrimPrefix(strings.TrimPrefix(dir, "/work")+"/"+name, "/")
		}
	}
	k.In = in
	// The output folder.
	outReal := pick(r, []string{"/work", "/work/out", "/work/out dir", "/out/deep/x.y", dir, "/work/-t", "/work/ out", "/work/out ", "/work/a\\b", "/work/~", "/work/$HOME", "/work/out\n", "/work/" + strings.Repeat("d", 100)})
	sc.Disk = append(sc.Disk, zzsim.Node{Path: outReal, Kind: "d"})
	out := outReal
	switch r.n(5) {
	case 0:
		out += "/"
	case 1:
		sc.Disk = append(sc.Disk, zzsim.Node{Path: "/work/outlink", Kind: "l", Data: []byte(outReal)})
		out = "outlink"
	case 2:
		if outReal == "/work" {
			out = pick(r, []string{".", "./", "../work", "in/.."})
			if out == "in/.." {
				sc.Disk = append(sc.Disk, zzsim.Node{Path: "/work/in", Kind: "d"})
			}
		} else if strings.HasPrefix(outReal, "/work/") {
			out = strings.TrimPrefix(outReal, "/work/")
		}
	}
	// The targets.
	var ts []string
	switch r.n(5) {
	case 0:
		ts = []string{"bash"}
	case 1:
		ts = []string{"batch"}
	default:
		for n := 2 + r.n(4); n > 0; n-- {
			ts = append(ts, pick(r, []string{"bash", "batch"}))
		}
	}
	seen := map[string]bool{}
	stem := strings.TrimSuffix(name, path.Ext(name))
	for _, t := range ts {
		if seen[t] {
			k.Repeated = true
			continue
		}
		seen[t] = true
		k.Targets = append(k.Targets, t)
		f := path.Join(outReal, stem+"."+c19Ext[t])
		k.OutFiles = append(k.OutFiles, f)
		if len(path.Base(f)) > 255 {
			k.Unsure = true
		}
		switch {
		case f == k.InReal:
			k.Bad = "output is the input" // for this target
		case r.p(25): // something is there already
			n := zzsim.Node{Path: f, Data: []byte(pick(r, []string{"old output\n", "", strings.Repeat("old and long\n", 3000)})), Mode: uint32(pick(r, []int{0o644, 0o755, 0o777, 0o600}))}
			switch r.n(9) {
			case 0:
				n.Kind = "l"
				n.Data = []byte(pick(r, []string{"/work/elsewhere", k.InReal, "/gone/away"}))
				if string(n.Data) == "/work/elsewhere" {
					sc.Disk = append(sc.Disk, zzsim.Node{Path: "/work/elsewhere", Data: []byte("precious\n")})
				}
				k.Unsure = true
			case 1:
				n = zzsim.Node{Path: f + "/x", Data: []byte("in a folder")}
				k.Unsure = true
			case 2:
				n = zzsim.Node{Path: f, Kind: "h", Data: []byte(k.InReal)}
				k.Unsure = true
			case 3:
				n.Mode = 0o444
				k.Unsure = true
			}
			sc.Disk = append(sc.Disk, n)
		}
	}
	if r.p(4) {
		sc.Disk = append(sc.Disk, zzsim.Node{Path: outReal, Kind: "d", Mode: 0o555})
		k.Unsure = true
	}
	opt := func(s string) string {
		if r.p(40) {
			return map[string]string{"-i": "--in", "-o": "--out", "-t": "--type"}[s]
		}
		return s
	}
	pairs := [][]string{{opt("-i"), in}, {opt("-o"), out}}
	for _, t := range ts {
		pairs = append(pairs, []string{opt("-t"), t})
	}
	shuffle(r, pairs)
	// Wrong options.
	if r.p(22) {
		at := r.n(len(pairs))
		drop := func(long, short string) {
			var n [][]string
			for _, p := range pairs {
				if p[0] != long && p[0] != short {
					n = append(n, p)
				}
			}
			pairs = n
		}
		insert := func(p ...string) {
			pairs = append(pairs[:at:at], append([][]string{p}, pairs[at:]...)...)
		}
		replace := func(long, short, v string) {
			for _, p := range pairs {
				if p[0] == long || p[0] == short {
					p[1] = v
				}
			}
		}
		switch r.n(12) {
		case 0:
			drop("-i", "--in")
			k.Bad = "no input"
		case 1:
			drop("-o", "--out")
			k.Bad = "no output"
		case 2:
			drop("-t", "--type")
			k.Bad = "no target"
		case 3:
			insert(pick(r, []string{"-x", "--input", "-T", "-", "--", "", "i", "--types"}), pick(r, []string{"v", "bash", in}))
			k.Bad = "unknown option"
		case 4:
			insert("-t", pick(r, []string{"Bash", "sh", "bat", "", "bash ", "cmd", "all", "batch,bash"}))
			k.Bad = "unknown target"
		case 5:
			pairs = append(pairs, []string{pick(r, []string{"-t", "-i", "-o", "--type", "extra", "--help", in})})
			k.Bad = "option without a value"
		case 6:
			replace("-i", "--in", pick(r, []string{"missing.tsh", "nodir/main.tsh", in + "x", "/work/in2/"}))
			k.Bad = "missing input"
		case 7:
			sc.Disk = append(sc.Disk, zzsim.Node{Path: "/work/folder.tsh", Kind: "d"})
			replace("-i", "--in", "folder.tsh")
			k.Bad = "input is a folder"
		case 8:
			replace("-o", "--out", pick(r, []string{"missing", "/no/where", out + "/missing/x"}))
			k.Bad = "missing output folder"
		case 9:
			replace("-o", "--out", in)
			k.Bad = "output folder is a file"
		case 10:
			replace("-i", "--in", "")
			k.Bad = "empty input name"
		case 11:
			pairs = nil
			if r.p(50) {
				pairs = [][]string{{pick(r, []string{"--help", "-h", "-v", in})}}
			}
			k.Bad = "no options"
		}
		if k.Bad == "missing output folder" || k.Bad == "missing input" {
			// The path must really be missing on this disk.
			for _, p := range pairs {
				abs := p[1]
				if !strings.HasPrefix(abs, "/") {
					abs = "/work/" + abs
				}
				for _, n := range sc.Disk {
					if path.Clean(abs) == n.Path && (p[0] == "-i" || p[0] == "--in") && k.Bad == "missing input" {
						k.Unsure = true
					}
				}
			}
		}
	}
	for _, p := range pairs {
		k.Args = append(k.Args, p...)
	}
	return k
}

// withFaults plans faults from the operations the fault-free run made.
func (k *c19Case) withFaults(r *rng, ops []string, size int) *c19Case {
	n := *k
	sc := *k.Sc
	n.Sc = &sc
	n.Faulted = true
	sc.Faults = nil
	if r.p(12) {
		sc.Space = 1 + int64(r.n(size+50))
		return &n
	}
	for x := 1 + r.n(2)*r.n(3); x > 0; x-- {
		f := zzsim.Fault{Nth: 1}
		if len(ops) > 0 {
			// Later operations concern the output: prefer them.
			j := r.n(len(ops))
			if r.p(50) {
				j = len(ops) - 1 - r.n(1+len(ops)/3)
			}
			op := strings.SplitN(ops[j], " ", 2)
			f.Op = op[0]
			if r.p(60) {
				f.Path = op[1]
			}
			for _, o := range ops[:j] {
				if p := strings.SplitN(o, " ", 2); p[0] == f.Op && (f.Path == "" || p[1] == f.Path) {
					f.Nth++
				}
			}
		}
		switch y := r.n(10); {
		case y < 2:
			f.Kind = pick(r, []string{"crash", "crashafter"})
		case y < 4 && f.Op == "write":
			f.Kind, f.Arg, f.Errno = "torn", int64(r.n(size+1)), pick(r, []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG"})
		case y < 5 && (f.Op == "write" || f.Op == "read"):
			f.Kind, f.Arg = "short", 1+int64(r.n(size+1))
		default:
			f.Kind = pick(r, append([]string{"ENOSPC", "EROFS", "EDQUOT", "EIO", "EACCES", "EBUSY"}, libErrnos...))
			f.Sticky = r.p(30)
		}
		sc.Faults = append(sc.Faults, f)
	}
	return &n
}

type c19Ref struct {
	ok     bool
	script []byte
}

// libraryRefs is what the library returns on this disk for each target.
func libraryRefs(w *worker, sc *zzsim.Scenario, main string) (map[string]c19Ref, error) {
	n := *sc
	n.Faults, n.Switches, n.Space = nil, nil, 0
	n.Tasks = [][]zzsim.Step{{{Kind: "transpile", Main: main, Target: "bash", Obj: 0}, {Kind: "transpile", Main: main, Target: "batch", Obj: 1}}}
	o, d, err := w.run(&n)
	if err != nil {
		return nil, err
	}
	m := map[string]c19Ref{"bash": {}, "batch": {}}
	if d != nil {
		return m, nil
	}
	for i, t := range []string{"bash", "batch"} {
		x := o.Results[i]
		m[t] = c19Ref{!x.IsErr && x.Panic == "" && x.Abort == "", x.Script}
	}
	return m, nil
}

func judgeC19(k *c19Case, refs map[string]c19Ref, res *procResult) (string, string) {
	if res.exit == 98 {
		return "hang", "the command does not end"
	}
	crashed := res.exit == 137
	fired := 0
	for f, n := range res.fired {
		if !strings.HasPrefix(f, "short@") {
			fired += n
		}
	}
	isOut := map[string]string{}
	for i, f := range k.OutFiles {
		isOut[f] = k.Targets[i]
	}
	names := map[string]bool{}
	for p := range res.start {
		names[p] = true
	}
	for p := range res.final {
		names[p] = true
	}
	var ps []string
	for p := range names {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	changed := map[string]bool{}
	for _, p := range ps {
		a, okA := res.start[p]
		b, okB := res.final[p]
		if sameNode(a, b, okA, okB) {
			continue
		}
		changed[p] = true
		what := "changed"
		if !okA {
			what = "appeared"
		} else if !okB {
			what = "vanished"
		}
		_, out := isOut[p]
		switch {
		case p == k.InReal:
			return "the input was modified", fmt.Sprintf("%s %s: %q", p, what, clip(string(b.Data), 200))
		case out && k.Bad == "" || out && k.Bad == "output is the input":
		case !okA && (crashed || fired > 0):
			// A file of another name may be left by a process that could not clean up.
		default:
			return "another file was touched", fmt.Sprintf("%s %s (%s): %q", p, what, k.Bad, clip(string(b.Data), 200))
		}
	}
	allOK := true
	for _, t := range k.Targets {
		allOK = allOK && refs[t].ok
	}
	untouched := false
	for i, f := range k.OutFiles {
		t := k.Targets[i]
		b, okB := res.final[f]
		isRef := refs[t].ok && okB && b.Kind == "" && bytes.Equal(b.Data, refs[t].script)
		if !changed[f] {
			untouched = true
		} else if !isRef {
			if !refs[t].ok {
				return "output for a failing target", fmt.Sprintf("%s holds %q although the library rejects the program for %s", f, clip(string(b.Data), 200), t)
			}
			return "wrong output", fmt.Sprintf("exit status %d, %s holds %d bytes (%q), the library returns %d bytes (%q)", res.exit, f, len(b.Data), clip(string(b.Data), 120), len(refs[t].script), clip(string(refs[t].script), 120))
		}
		if res.exit == 0 && !isRef {
			// An unreadable symbolic link is followed to its file.
			if b.Kind == "l" {
				tb := res.final[string(b.Data)]
				if bytes.Equal(tb.Data, refs[t].script) && refs[t].ok {
					continue
				}
			}
			return "success without the output", fmt.Sprintf("exit status 0 but %s is not what the library returns for %s (library accepts: %v)", f, t, refs[t].ok)
		}
	}
	switch {
	case crashed:
		return "", ""
	case res.exit == 0 && (k.Bad != "" && !k.Unsure):
		return "success with wrong options", k.Bad
	case res.exit == 0 && !allOK:
		return "success for a rejected program", ""
	case res.exit != 0 && k.Bad == "" && !k.Unsure && allOK && fired == 0 && k.Sc.Space == 0:
		return "failure without a cause", fmt.Sprintf("exit status %d: %s", res.exit, clip(res.stderr, 600))
	case res.exit != 0 && k.Bad == "" && allOK && !untouched && !k.Repeated && !(k.Unsure && fired == 0):
		return "failure with all outputs changed", fmt.Sprintf("exit status %d: %s", res.exit, clip(res.stderr, 600))
	}
	return "", ""
}

func tryC19(c *check, w *worker, k *c19Case) (*procResult, string, string, map[string]c19Ref, error) {
	refs, err := libraryRefs(w, k.Sc, k.In)
	if err != nil {
		return nil, "", "", nil, err
	}
	res, err := c.runTsh(&k.procRun)
	if err != nil {
		return nil, "", "", nil, err
	}
	cl, detail := judgeC19(k, refs, res)
	return res, cl, detail, refs, nil
}

func runC19(c *check) int {
	n, secs := 14000, 150
	if !c.quick() {
		n, secs = 2_000_000, 3000
	}
	c.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	c.rule = "One run is one simulated tsh process: a generated program (accepted or rejected), an input name, an output folder, an order and repetition of options (or wrong options), what already lies in the output folder; then the same command again with faults planned on the operations it made (errors, torn and short writes, full disk, loss at close, crash before or after a call). Non-trivial: distinct (options, exit status, changed files, faults fired) combinations."
	c.assume = []string{"file modes, owners and times are not compared", "what a crash of the whole machine loses is not simulated, only the death of the process", "after a crash or a failed removal a stray file of another name may remain in the output folder"}
	ws := make([]*worker, c.lanes)
	for i := range ws {
		ws[i] = &worker{path: c.built.Worker, seed: uint64(i) + 1}
		defer ws[i].stop()
	}
	exits := map[string]int{}
	note := func(i int, k *c19Case, res *procResult) {
		c.mu.Lock()
		defer c.mu.Unlock()
		c.evals++
		var fk []string
		for f, m := range res.fired {
			c.faults[f] += m
			fk = append(fk, f)
		}
		sort.Strings(fk)
		key := fmt.Sprintf("%v %d %v", k.Args, res.exit, fk)
		c.distinct[hashString(key)] = struct{}{}
		c.states[hashString(strings.Join(res.log, "\n"))] = struct{}{}
		kind := "clean"
		if k.Bad != "" {
			kind = "wrong options"
		} else if k.Faulted {
			kind = "faults"
		}
		exits[fmt.Sprintf("%s: exit %d", kind, res.exit)]++
		c.simNanos += int64(len(res.ops)) * 100_000
		if i%997 == 5 && len(c.samples) < 6 {
			c.samples = append(c.samples, map[string]interface{}{"run": i, "args": k.Args, "exit": res.exit, "faults": k.Sc.Faults, "ops": len(res.ops)})
		}
	}
	parallel(c.lanes, n, func(lane, i int) bool {
		if c.expired() || c.fatal != nil {
			return false
		}
		k := genC19(c, i)
		res, cl, detail, refs, err := tryC19(c, ws[lane], k)
		if err != nil {
			c.trouble(fmt.Errorf("run %d: %w", i, err))
			return false
		}
		note(i, k, res)
		if cl != "" {
			c.report(&violation{Class: cl, Detail: detail, Run: i, Case: k})
			return len(c.viol) < 20
		}
		if k.Bad == "" {
			r := newRng(c.seed, hashString("C19f"), uint64(i))
			size := len(refs["bash"].script) + len(refs["batch"].script)
			for f := 0; f < 3; f++ {
				kf := k.withFaults(r, res.ops, size)
				rf, err := c.runTsh(&kf.procRun)
				if err != nil {
					c.trouble(fmt.Errorf("run %d/%d: %w", i, f, err))
					return false
				}
				note(i, kf, rf)
				if cl, detail := judgeC19(kf, refs, rf); cl != "" {
					c.report(&violation{Class: cl + " under faults", Detail: detail, Run: i, Case: kf})
					return len(c.viol) < 20
				}
			}
		}
		return true
	})
	diff, again := 0, 0
	for i := 0; i < 40 && c.fatal == nil; i++ {
		k := genC19(c, i)
		a, err1 := c.runTsh(&k.procRun)
		if err1 == nil {
			k = k.withFaults(newRng(c.seed, 7, uint64(i)), a.ops, 3000)
			a, err1 = c.runTsh(&k.procRun)
		}
		b, err2 := c.runTsh(&k.procRun)
		if err1 != nil || err2 != nil {
			continue
		}
		again++
		if a.exit != b.exit || strings.Join(a.log, "\n") != strings.Join(b.log, "\n") {
			diff++
		}
	}
	c.extra["determinism_self_test"] = map[string]int{"runs_repeated": again, "different_event_logs": diff}
	c.extra["outcomes"] = exits
	c.extra["real_components"] = "tsh.go and everything it calls, Go os package"
	c.extra["stubs"] = "kernel file system, clock, process identity, randomness"
	return c.finish(func(v *violation) (*violation, []string) { return minimiseC19(c, v) })
}

func classC19(k *c19Case, cl string) string {
	if cl != "" && k.Faulted {
		return cl + " under faults"
	}
	return cl
}

func minimiseC19(c *check, v *violation) (*violation, []string) {
	w := &worker{path: c.built.Worker, seed: 99}
	defer w.stop()
	k := v.Case.(*c19Case)
	detail := v.Detail
	same := func(sc *zzsim.Scenario) bool {
		n := *k
		n.Sc = sc
		_, cl, d, _, err := tryC19(c, w, &n)
		if err != nil || classC19(&n, cl) != v.Class {
			return false
		}
		detail = d
		return true
	}
	sc := shrinkScenario(k.Sc, same, 25*time.Second)
	n := *k
	n.Sc = sc
	nv := *v
	nv.Case = &n
	nv.Detail = fmt.Sprintf("tsh %q: %s", n.Args, detail)
	for _, nd := range sc.Disk {
		if !strings.HasPrefix(nd.Path, "/opt/typeshell") {
			nv.Detail += fmt.Sprintf("\n%s%s: %q", nd.Path, nd.Kind, clip(string(nd.Data), 400))
		}
	}
	for _, f := range sc.Faults {
		b, _ := json.Marshal(f)
		nv.Detail += "\nfault " + string(b)
	}
	var log []string
	if res, err := c.runTsh(&n.procRun); err == nil {
		log = res.log
	}
	return &nv, log
}

func replayC19(c *check, raw json.RawMessage, class string) (bool, string, []string, error) {
	k := &c19Case{}
	if err := json.Unmarshal(raw, k); err != nil {
		return false, "", nil, err
	}
	w := &worker{path: c.built.Worker, seed: 99}
	defer w.stop()
	res, cl, detail, _, err := tryC19(c, w, k)
	if err != nil {
		return false, "", nil, err
	}
	cl = classC19(k, cl)
	return cl == class, cl + " " + detail, res.log, nil
}
