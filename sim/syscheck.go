package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

// C08 (string values), C17 (files) and C18 (commands) are decided by system
// runs that differ in what most of a program's statements are about and in
// what the environment does to them.

func init() {
	for _, p := range []string{"C08", "C17", "C18"} {
		properties[p] = property{run: runSys, replay: replaySys}
	}
}

var sysRule = map[string]string{
	"C08": "a run is non-trivial when its script ran in bash and printed at least one line; distinct counts different (program, schedule) pairs by the fingerprint of everything that happened",
	"C17": "a run is non-trivial when its script wrote, read or asked for at least one file; distinct counts different histories by the fingerprint of everything that happened",
	"C18": "a run is non-trivial when its script started at least one program; distinct counts different interleavings by the fingerprint of every step of every program",
}

func genSysCase(c *check, i int) *sysCase {
	k := genSys(c.prop, newRng(c.seed, hashString(c.prop), uint64(i)), i)
	k.std = stdDisk(c)
	return k
}

func runSys(c *check) int {
	n := map[string]int{"C08": 8000, "C17": 9000, "C18": 8000}[c.prop]
	limit := 240 * time.Second
	if !c.quick() {
		n, limit = 400000, 45*time.Minute
	}
	c.deadline = time.Now().Add(limit)
	c.rule = sysRule[c.prop]
	c.assume = []string{
		"the reference interpreter's fragment keeps to meanings the README fixes; programs that leave it are discarded before they run",
		"bash, cat, the kernel's files and pipes are real; the programs of a script are probes the scheduler drives; the transpiler runs on the simulated kernel",
		"an operation that meets a fault may fail as a whole or in part: the file holds its old content, or a prefix of the new one (for an append: the old content and a prefix of the addition); every other path stays as it was",
		"standard error and the content of the second captured value are not judged",
	}
	ws := make([]*worker, c.lanes)
	for i := range ws {
		ws[i] = &worker{path: c.built.Worker}
		defer ws[i].stop()
	}
	if _, err := c.sysTools(); err != nil {
		c.trouble(err)
		return c.finish(nil)
	}
	done, open := 0, map[string]int{}
	cells := map[uint32]struct{}{}
	parallel(c.lanes, n, func(lane, i int) bool {
		if c.expired() || len(c.viol) >= 6 {
			return false
		}
		k := genSysCase(c, i)
		t0 := time.Now()
		seen, class, detail, err := k.try(c, ws[lane], lane)
		if d := time.Since(t0); d > 2*time.Second && os.Getenv("VSIM_SLOW") != "" {
			fmt.Println("SLOW", i, d, strings.Join(k.story(seen), "\n"))
		}
		if err != nil {
			c.trouble(fmt.Errorf("run %d: %v", i, err))
			return false
		}
		c.mu.Lock()
		c.evals++
		done++
		if o := seen.o; o != nil {
			c.simNanos += o.SimNanos
			c.ticks += o.Ticks
		}
		if w := seen.w; w != nil {
			fp := mix(w.order, hashString(w.want.String()), hashString(k.Prog.Mods[0].text()))
			c.states[mix(w.order)] = struct{}{}
			if c.prop == "C08" && w.want.Len() > 0 || c.prop == "C17" && w.probes["writes"]+w.probes["reads"]+w.probes["exists"] > 0 || c.prop == "C18" && w.runs > 0 {
				c.distinct[fp] = struct{}{}
			}
			for f, n := range w.fired {
				if strings.HasPrefix(f, "armed ") {
					c.probes[f] += n
					continue
				}
				c.faults[f] += n
			}
			for p, n := range w.probes {
				c.probes[p] += n
			}
			c.probes["syncs"] += w.syncs
			c.probes["pipelines"] += w.runs
			c.probes["bytes printed"] += w.want.Len()
			for s := range w.cells {
				cells[s] = struct{}{}
			}
			if w.grave != "" {
				c.probes["crashes"]++
			}
		}
		if seen.open != "" {
			open[clip(seen.open, 40)]++
		}
		c.mu.Unlock()
		if i < 4 {
			c.sample(map[string]interface{}{"run": i, "program": clip(k.Prog.Mods[0].text(), 700), "acts": k.Acts})
		}
		if class != "" {
			c.report(&violation{Class: class, Detail: fmt.Sprintf("run %d: %s", i, detail), Run: i, Case: k})
		}
		return true
	})
	c.extra["planned_runs"] = n
	c.extra["runs_judged_up_to_a_point"] = open
	c.extra["cells_character_position_path_origin"] = fmt.Sprintf("%d of %d", len(cells), len(sysPaths)*2*len(sysAlphabet)*4)
	if done < n/5 && c.quick() && len(c.viol) == 0 {
		c.trouble(fmt.Errorf("only %d of %d runs within the time limit", done, n))
	}
	return c.finish(func(v *violation) (*violation, []string) { return shrinkSys(c, ws[0], v) })
}

// smallerStr lists simpler strings, for literals and data.
func smallerStr(s string) []string {
	if len(s) <= 1 {
		return nil
	}
	out := []string{s[:len(s)/2], s[len(s)/2:]}
	if len(s) <= 12 {
		for i := range s {
			out = append(out, s[:i]+s[i+1:])
		}
	}
	return out
}

func (k *sysCase) clone() *sysCase {
	b, _ := json.Marshal(k)
	var q sysCase
	json.Unmarshal(b, &q)
	q.std = k.std
	return &q
}

func (p *lProg) eachEx(f func(e *lEx)) {
	var ex func(e *lEx)
	ex = func(e *lEx) {
		if e == nil {
			return
		}
		f(e)
		for _, a := range e.Args {
			ex(a)
		}
	}
	var st func(s *lSt)
	st = func(s *lSt) {
		if s == nil {
			return
		}
		for _, e := range s.Ex {
			ex(e)
		}
		for _, a := range s.Ap {
			for _, e := range a.Ex {
				ex(e)
			}
		}
		st(s.Init)
		st(s.Post)
		for _, b := range s.B {
			for _, x := range b {
				st(x)
			}
		}
	}
	for _, m := range p.Mods {
		for _, it := range m.Items {
			if it.Fn != nil {
				for _, s := range it.Fn.B {
					st(s)
				}
			} else {
				st(it.St)
			}
		}
	}
}

func (p *lProg) eachSt(f func(s *lSt)) {
	var st func(s *lSt)
	st = func(s *lSt) {
		f(s)
		for _, b := range s.B {
			for _, x := range b {
				st(x)
			}
		}
	}
	for _, m := range p.Mods {
		for _, it := range m.Items {
			if it.Fn != nil {
				for _, s := range it.Fn.B {
					st(s)
				}
			} else {
				st(it.St)
			}
		}
	}
}

func (k *sysCase) smaller() []*sysCase {
	var out []*sysCase
	with := func(f func(q *sysCase)) {
		q := k.clone()
		f(q)
		out = append(out, q)
	}
	if len(k.Acts) > 1 {
		with(func(q *sysCase) { q.Acts = nil })
	}
	for i := range k.Acts {
		with(func(q *sysCase) { q.Acts = append(q.Acts[:i:i], q.Acts[i+1:]...) })
	}
	for i, f := range k.Files {
		if f.K == "" {
			with(func(q *sysCase) { q.Files = append(q.Files[:i:i], q.Files[i+1:]...) })
		}
	}
	for _, p := range k.Prog.smaller() {
		q := k.clone()
		q.Prog = p
		out = append(out, q)
	}
	// Pipelines lose programs, arguments and behaviour.
	n := 0
	k.Prog.eachSt(func(s *lSt) {
		at := n
		n++
		if len(s.Ap) == 0 || at > 60 {
			return
		}
		edit := func(f func(s *lSt)) {
			with(func(q *sysCase) {
				m := 0
				q.Prog.eachSt(func(x *lSt) {
					if m == at {
						f(x)
					}
					m++
				})
			})
		}
		for i, a := range s.Ap {
			if len(s.Ap) > 1 {
				edit(func(x *lSt) {
					x.Ap = append(x.Ap[:i:i], x.Ap[i+1:]...)
					x.Ap[0].Plan.Read = 0
				})
			}
			for j := range a.Ex {
				edit(func(x *lSt) { x.Ap[i].Ex = append(x.Ap[i].Ex[:j:j], x.Ap[i].Ex[j+1:]...) })
			}
			for _, s := range smallerStr(a.Plan.Out) {
				edit(func(x *lSt) { x.Ap[i].Plan.Out = s })
			}
			if p := a.Plan; p.Exit != 0 || p.Sig != 0 || p.Close || p.Ign || p.Err != "" {
				edit(func(x *lSt) {
					o := x.Ap[i].Plan
					x.Ap[i].Plan = &sysStage{Out: o.Out, Miss: o.Miss}
				})
			}
		}
	})
	if n > 60 {
		return out
	}
	// Expressions become simpler ones.
	n = 0
	k.Prog.eachEx(func(e *lEx) {
		at := n
		n++
		if at > 150 {
			return
		}
		edit := func(f func(e *lEx)) {
			with(func(q *sysCase) {
				m := 0
				q.Prog.eachEx(func(x *lEx) {
					if m == at {
						f(x)
					}
					m++
				})
			})
		}
		switch e.K {
		case "str":
			for _, s := range smallerStr(e.S) {
				edit(func(x *lEx) { x.S = s })
			}
			if e.I != 0 {
				edit(func(x *lEx) { x.I = 0 })
			}
		case "bin":
			for i := range e.Args {
				edit(func(x *lEx) { *x = *x.Args[i] })
			}
		case "group":
			edit(func(x *lEx) { *x = *x.Args[0] })
		}
	})
	return out
}

func shrinkSys(c *check, w *worker, v *violation) (*violation, []string) {
	k := v.Case.(*sysCase)
	same := func(n *sysCase) bool {
		if n.Prog.check() != "" {
			return false
		}
		_, cl, _, err := n.try(c, w, 0)
		return err == nil && cl == v.Class
	}
	best := shrinkLoop(k, 60*time.Second, func(k *sysCase) []*sysCase { return k.smaller() }, same)
	nv := *v
	nv.Case = best
	seen, cl, detail, err := best.try(c, w, 0)
	if err == nil && cl == v.Class {
		nv.Detail = fmt.Sprintf("run %d: %s", v.Run, detail)
	}
	return &nv, best.story(seen)
}

// story is what happened in a run, for people.
func (k *sysCase) story(seen sysSeen) []string {
	log := append([]string{"== program"}, headLines(strings.Split(clip(k.Prog.Mods[0].text(), 6000), "\n"))...)
	for _, f := range k.Files {
		log = append(log, clip(fmt.Sprintf("== %s %q %q", f.K, f.P, f.Data), 300))
	}
	if seen.w != nil {
		log = append(log, "== what happened")
		log = append(log, headLines(seen.w.trace)...)
		log = append(log, "== standard output")
		log = append(log, clip(fmt.Sprintf("%q", seen.w.stdout.String()), 2000))
		log = append(log, "== standard error")
		log = append(log, clip(fmt.Sprintf("%q", seen.w.stderr.String()), 1000))
	}
	if seen.script != "" {
		log = append(log, "== script")
		log = append(log, headLines(strings.Split(clip(seen.script, 12000), "\n"))...)
	}
	return log
}

func replaySys(c *check, raw json.RawMessage, class string) (bool, string, []string, error) {
	var k sysCase
	if err := json.Unmarshal(raw, &k); err != nil {
		return false, "", nil, err
	}
	k.std = stdDisk(c)
	if _, err := c.sysTools(); err != nil {
		return false, "", nil, err
	}
	w := &worker{path: c.built.Worker}
	defer w.stop()
	seen, cl, detail, err := k.try(c, w, 0)
	if err != nil {
		return false, "", nil, err
	}
	return cl == class, detail + " (" + cl + ")", headLines(k.story(seen)), nil
}
