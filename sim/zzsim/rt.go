//go:build zzsim

package zzsim

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	_ "unsafe"
)

//go:linkname zzSetRand runtime.zzSetRand
func zzSetRand(state uint64, on bool)

//go:linkname zzSetCPUs runtime.zzSetCPUs
func zzSetCPUs(int)

//go:linkname zzGoid runtime.zzGoid
func zzGoid() uint64

// ---------------------------------------------------------------- step clock

var (
	ticks     int64 // the step clock
	nextEvent int64 = 1 << 62
	taskBase  int64 // step clock consumed by the current transpilation of the current task
	cover     [1 << 13]uint8
	coverList []uint32
	prevSite  uint32
	pairs     map[uint64]struct{}
	pairBits  [1 << 10]uint64
)

// Tick is called at every function entry and loop iteration of the code under
// test: it is the clock, the preemption point and the progress watchdog.
func Tick(site uint32) {
	ticks++
	if s := site & (1<<13 - 1); cover[s] == 0 {
		cover[s] = 1
		coverList = append(coverList, site)
	}
	h := (prevSite*31 + site) & (1<<16 - 1)
	pairBits[h>>6] |= 1 << (h & 63)
	prevSite = site
	if ticks >= nextEvent {
		event()
	}
}

type task struct {
	id      int
	goid    uint64
	wake    chan struct{}
	done    bool
	steps   []Step
	started int64 // step clock already consumed by this task's current call
	resumed int64 // step clock at the last resume
	ops     int64
	opsBase int64
	abort   string
	inCall  bool
}

type sim struct {
	sc       *Scenario
	fs       *fsys
	tasks    []*task
	cur      *task
	main     chan struct{}
	nextSw   int
	switched int
	fired    map[string]int
	hash     uint64
	log      []string
	optrace  []string
	results  []Result
	objs     map[int]Transpiler
	trouble  string
	ops      int64
	simns    int64
	pid      int
	cwd      string
	logFd    int
	proc     bool
	matches  []int
	memNext  int64
}

const memEvery = 4_000_000

var cur *sim

// Transpiler is what the worker gives us: one shared object.
type Transpiler interface {
	Do(path, target string) (string, error)
}

func (s *sim) event() {
	t := s.cur
	if t == nil || zzGoid() != t.goid {
		return
	}
	if t.inCall && s.sc.Budget > 0 && t.started+ticks-t.resumed > s.sc.Budget {
		if t.abort == "" {
			t.abort = fmt.Sprintf("still running after %d steps", s.sc.Budget)
			if s.proc {
				s.emit("HANG " + t.abort)
				syscall.Exit(98)
			}
			s.recomputeEvent()
			runtime.Goexit()
		}
	}
	if t.inCall && ticks >= s.memNext {
		// A loop that eats memory must end before it takes the machine along.
		s.memNext = ticks + memEvery
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 2<<30 && t.abort == "" {
			t.abort = "more than 2 GB of memory in use"
			if s.proc {
				s.emit("HANG " + t.abort)
				syscall.Exit(98)
			}
			s.recomputeEvent()
			runtime.Goexit()
		}
	}
	for s.nextSw < len(s.sc.Switches) && s.sc.Switches[s.nextSw].At <= ticks {
		to := s.sc.Switches[s.nextSw].Task
		s.nextSw++
		if to < len(s.tasks) && !s.tasks[to].done && s.tasks[to] != t {
			s.switchTo(t, s.tasks[to])
		}
	}
	s.recomputeEvent()
}

func event() {
	if cur == nil {
		nextEvent = 1 << 62
		return
	}
	cur.event()
}

func (s *sim) recomputeEvent() {
	nextEvent = 1 << 62
	if t := s.cur; t != nil && t.inCall && t.abort == "" && s.sc.Budget > 0 {
		nextEvent = t.resumed + s.sc.Budget - t.started + 1
	}
	if t := s.cur; t != nil && t.inCall && t.abort == "" && s.memNext < nextEvent {
		nextEvent = s.memNext
	}
	if s.nextSw < len(s.sc.Switches) {
		if at := s.sc.Switches[s.nextSw].At; at < nextEvent {
			nextEvent = at
		}
	}
}

func (s *sim) switchTo(from, to *task) {
	from.started += ticks - from.resumed
	s.switched++
	s.note(fmt.Sprintf("switch %d->%d @%d", from.id, to.id, ticks))
	s.cur = to
	to.resumed = ticks
	s.recomputeEvent()
	to.wake <- struct{}{}
	<-from.wake
}

// note records an event: the log hash is the identity of an execution.
func (s *sim) note(msg string) {
	h := s.hash
	for i := 0; i < len(msg); i++ {
		h = (h ^ uint64(msg[i])) * 1099511628211
	}
	s.hash = (h ^ 0xff) * 1099511628211
	if s.sc.Trace && len(s.log) < 4000 {
		s.log = append(s.log, msg)
	}
	if s.proc {
		s.emit("N " + msg)
	}
}

// emit writes a line to the real log file of a simulated process.
func (s *sim) emit(line string) {
	if !s.proc {
		return
	}
	b := []byte(line + "\n")
	for len(b) > 0 {
		n, err := syscall.ZZRealWrite(s.logFd, b)
		if err != nil {
			return
		}
		b = b[n:]
	}
}

func (s *sim) finish(t *task) {
	t.done = true
	for _, o := range s.tasks {
		if !o.done {
			s.cur = o
			o.resumed = ticks
			s.recomputeEvent()
			o.wake <- struct{}{}
			return
		}
	}
	s.cur = nil
	nextEvent = 1 << 62
	s.main <- struct{}{}
}

func (s *sim) call(t *task, n int, st Step) (r Result) {
	r = Result{Task: t.id, Step: n}
	obj := s.objs[st.Obj]
	if obj == nil {
		obj = NewTranspiler()
		s.objs[st.Obj] = obj
	}
	ops0 := t.ops
	t.opsBase = ops0
	t.started, t.resumed, t.inCall, t.abort = 0, ticks, true, ""
	s.recomputeEvent()
	done := make(chan struct{}) // closed by the inner goroutine; it is the task while it runs
	outer := t.goid
	go func() {
		t.goid = zzGoid()
		finished := false
		defer func() {
			t.inCall = false
			if !finished {
				if p := recover(); p != nil {
					r.Panic = fmt.Sprint(p) + "\n" + trimStack(string(debug.Stack()))
				} else if t.abort != "" {
					r.Abort = t.abort
				} else {
					r.Panic = "goroutine ended"
				}
			}
			r.Ticks = t.started + ticks - t.resumed
			t.goid = outer
			s.recomputeEvent()
			close(done)
		}()
		script, err := obj.Do(st.Main, st.Target)
		r.Script = []byte(script)
		r.Len = len(script)
		if err != nil {
			r.IsErr = true
			r.Err = err.Error()
		}
		finished = true
	}()
	<-done
	r.Ops = t.ops - ops0
	r.Hash = fmt.Sprintf("%016x", fnv(r.Script))
	s.note(fmt.Sprintf("result task=%d step=%d len=%d hash=%s err=%q panic=%v abort=%q ticks=%d ops=%d", t.id, n, r.Len, r.Hash, r.Err, r.Panic != "", r.Abort, r.Ticks, r.Ops))
	if s.sc.NoScript {
		r.Script = nil
	}
	return r
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "zzsim") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if i := strings.LastIndex(l, " +0x"); i > 0 {
			l = l[:i]
		}
		if strings.HasPrefix(l, "\t") && strings.Contains(l, ".go:") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// NewTranspiler is set by the worker.
var NewTranspiler func() Transpiler

func setEnv(sc *Scenario) {
	os.Clearenv()
	keys := make([]string, 0, len(sc.Env))
	for k := range sc.Env {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		os.Setenv(k, sc.Env[k])
	}
}

// Run executes one scenario in this process.
func Run(sc *Scenario) (out Outcome) {
	for i := range cover {
		cover[i] = 0
	}
	coverList = coverList[:0]
	pairBits = [1 << 10]uint64{}
	ticks, prevSite, nextEvent = 0, 0, 1<<62
	s := newSim(sc)
	for i, steps := range sc.Tasks {
		s.tasks = append(s.tasks, &task{id: i, wake: make(chan struct{}), steps: steps})
	}
	if len(s.tasks) == 0 {
		return
	}
	os.Args = []string{"tsh"}
	if sc.Arg0 != "" {
		os.Args[0] = sc.Arg0
	}
	setEnv(sc)
	ready := make(chan struct{})
	for _, t := range s.tasks {
		t := t
		go func() {
			t.goid = zzGoid()
			ready <- struct{}{}
			<-t.wake
			for n, st := range t.steps {
				switch st.Kind {
				case "transpile":
					r := s.call(t, n, st)
					s.results = append(s.results, r)
				case "mut":
					s.fs.mutate(st.Mut)
					s.note("mut " + st.Mut.Kind + " " + st.Mut.Path)
				}
			}
			s.finish(t)
		}()
		<-ready
	}
	cur = s
	zzSetRand(sc.Seed, true)
	zzSetCPUs(1 + int(sc.Seed/3%16))
	time.ZZClock = s.now
	syscall.ZZ = hooks
	s.cur = s.tasks[0]
	s.recomputeEvent()
	s.tasks[0].wake <- struct{}{}
	<-s.main
	syscall.ZZ = nil
	time.ZZClock = nil
	zzSetRand(0, false)
	cur = nil
	out = Outcome{Results: s.results, Fired: s.fired, Ticks: ticks, Ops: s.ops, SimNanos: s.simns + ticks*100, Switched: s.switched,
		LogHash: fmt.Sprintf("%016x", s.hash), Log: s.log, Trouble: s.trouble, Changed: s.fs.changed(), OpTrace: s.optrace}
	st := uint64(14695981039346656037)
	for _, w := range pairBits {
		st = (st ^ w) * 1099511628211
	}
	out.State = st
	if sc.Cover {
		out.Cover = append([]uint32(nil), coverList...)
	}
	return out
}

func newSim(sc *Scenario) *sim {
	s := &sim{sc: sc, main: make(chan struct{}), fired: map[string]int{}, hash: 14695981039346656037, objs: map[int]Transpiler{}, pid: sc.Pid, cwd: sc.Cwd, logFd: -1, memNext: memEvery}
	if s.cwd == "" {
		s.cwd = "/"
	}
	s.matches = make([]int, len(sc.Faults))
	s.fs = newFS(s)
	return s
}

func (s *sim) now() int64 { return s.sc.Clock + s.simns + ticks*100 }

// StartProcess turns this process into a simulated one: every system call it
// makes from here on meets the simulated kernel.
func startProcess(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "zzsim:", err)
		os.Exit(97)
	}
	sc := &Scenario{}
	if err := json.Unmarshal(b, sc); err != nil {
		fmt.Fprintln(os.Stderr, "zzsim:", err)
		os.Exit(97)
	}
	s := newSim(sc)
	s.proc = true
	s.logFd, err = syscall.Open(sc.LogPath, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, "zzsim:", err)
		os.Exit(97)
	}
	setEnv(s.sc)
	t := &task{id: 0, goid: zzGoid()}
	t.inCall = true
	s.tasks = []*task{t}
	s.cur = t
	cur = s
	s.recomputeEvent()
	s.emit("START")
	time.ZZClock = s.now
	zzSetRand(sc.Seed, true)
	zzSetCPUs(1 + int(sc.Seed/3%16))
	syscall.ZZ = hooks
}

func init() {
	hooks = makeHooks()
	if f := os.Getenv("ZZSIM_SCN"); f != "" {
		startProcess(f)
	}
}
