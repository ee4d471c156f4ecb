package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verifsim/zzsim"
)

// A system run executes an emitted script in a real bash inside a world the
// simulator controls: every program the script starts is a probe that does
// what the scheduler tells it, one step at a time; the file system changes and
// fails between and within operations as the run's plan says; standard input
// arrives in pieces. A reference interpreter advances in lockstep, so the
// world's state is compared at every point the script gets to.

type sysFile struct {
	P    string `json:"p"`
	K    string `json:"k,omitempty"` // "": file, "dir", "link", "fifo"
	Data string `json:"d,omitempty"`
}

// sysAct is something the environment does while the script waits in a sync.
type sysAct struct {
	Sync int    `json:"sync"` // ordinal of the sync
	K    string `json:"k"`    // put del dir mv mode | fsize nofile ro isdir full slow | kill
	P    string `json:"p,omitempty"`
	Q    string `json:"q,omitempty"`
	N    int    `json:"n,omitempty"`
	Data string `json:"d,omitempty"`
}

// sysStage says what a program of a pipeline does.
type sysStage struct {
	Out   string `json:"out,omitempty"`
	Exit  int    `json:"exit,omitempty"`
	Sig   int    `json:"sig,omitempty"`
	Read  int    `json:"read,omitempty"` // 0 all of its input, 1 none, 2 up to Max bytes
	Max   int    `json:"max,omitempty"`
	Close bool   `json:"close,omitempty"` // closes its output ahead of its end
	Miss  string `json:"miss,omitempty"`  // none: no such program, noexec: not executable
	Err   string `json:"err,omitempty"`   // written to standard error
	Ign   bool   `json:"ign,omitempty"`   // ignores SIGPIPE
}

type sysCase struct {
	Prop  string    `json:"prop"`
	Prog  *lProg    `json:"prog"`
	Files []sysFile `json:"files,omitempty"`
	Acts  []sysAct  `json:"acts,omitempty"`
	Stdin []string  `json:"stdin,omitempty"`
	Open  bool      `json:"open,omitempty"` // the last line of standard input has no newline
	Sched uint64    `json:"sched"`
	Xfsz  string    `json:"xfsz,omitempty"` // i: SIGXFSZ is ignored, d: it kills
	std   []zzsim.Node
}

const sysForks = 6000

func (k *sysCase) scenario() *zzsim.Scenario {
	sc := &zzsim.Scenario{Seed: k.Sched, Pid: 77, Clock: 1_600_000_000_000_000_000, Cwd: "/src", Exe: simExe, Budget: c13Steps, OpBudget: c13Ops}
	sc.Disk = append(sc.Disk, k.std...)
	for _, m := range k.Prog.Mods {
		sc.Disk = append(sc.Disk, zzsim.Node{Path: m.Path, Data: []byte(m.text())})
	}
	sc.Tasks = [][]zzsim.Step{{{Kind: "transpile", Main: "/src/main.tsh", Target: "bash"}}}
	return sc
}

// ------------------------------------------------------------- the world model

type sysAlt struct {
	absent bool
	base   []byte
	ext    []byte // any prefix of it may follow
}

func (a sysAlt) allows(absent bool, d []byte) bool {
	if absent || a.absent {
		return absent && a.absent
	}
	return bytes.HasPrefix(d, a.base) && bytes.HasPrefix(a.ext, d[len(a.base):])
}

type sysNode struct {
	dir  bool
	link string // a symbolic link to a folder or file
	fifo bool   // only looked for
	data []byte
	alts []sysAlt // not empty: the content isn't known exactly
	wild bool
	deny int // permission bits the owner lacks: 4 reading, 2 writing
}

type sysHello struct {
	conn net.Conn
	r    *bufio.Reader
	argv []string
	pipe [2]uint32 // what standard input and output are connected to
}

type sysStop struct{ why string } // the run is over before the program is

type sysBad struct{ class, detail string }

type sysRun struct {
	h      *lHooks
	c      *check
	k      *sysCase
	lane   int
	dir    string
	work   string
	nodes  map[string]*sysNode // by path relative to the work folder
	fault  *sysAct
	slow   chan struct{}
	unread *atomic.Bool // nobody reads the slow file any more
	over   bool         // a write in the current window may have met the fault
	ln     net.Listener
	hellos chan *sysHello
	exited chan error
	dead   bool
	cmd    *exec.Cmd
	outMu  sync.Mutex
	stdout bytes.Buffer
	stderr bytes.Buffer
	readWg sync.WaitGroup
	want   bytes.Buffer
	syncs  int
	runs   int
	inputs int
	trace  []string
	fired  map[string]int
	probes map[string]int
	cells  map[uint32]struct{}
	order  uint64 // fingerprint of the schedule
	grave  string // how the script ended, when that was the simulator's doing
}

func (w *sysRun) log(f string, a ...interface{}) {
	l := fmt.Sprintf(f, a...)
	w.order = mix(w.order, hashString(l))
	if len(w.trace) < 400 {
		w.trace = append(w.trace, clip(l, 240))
	}
}

func (w *sysRun) bad(class, f string, a ...interface{}) {
	panic(sysBad{class, fmt.Sprintf(f, a...)})
}

// canon resolves a path as the kernel does; "" means that a folder of it is missing.
func (w *sysRun) canon(p string) string {
	p = strings.TrimPrefix(p, "/proc/self/cwd/")
	if p == "" || strings.HasPrefix(p, "/") {
		return ""
	}
	parts := strings.Split(p, "/")
	cur := ""
	for i, x := range parts {
		last := i == len(parts)-1
		switch x {
		case "", ".":
			if x == "" && last && i > 0 {
				return "" // a trailing slash: not a spelling the programs use
			}
			continue
		case "..":
			if cur == "" {
				return ""
			}
			cur = strings.TrimSuffix(filepath.Dir("/" + cur)[1:], "/")
			continue
		}
		if len(x) > 255 {
			return ""
		}
		next := x
		if cur != "" {
			next = cur + "/" + x
		}
		n := w.nodes[next]
		if n != nil && n.link != "" {
			next = n.link
			n = w.nodes[next]
		}
		if !last && (n == nil || !n.dir) {
			return ""
		}
		cur = next
	}
	if cur == "" {
		return "."
	}
	return cur
}

func (w *sysRun) node(p string) (*sysNode, string) {
	cp := w.canon(p)
	switch cp {
	case "":
		return nil, ""
	case ".":
		return &sysNode{dir: true}, cp
	}
	return w.nodes[cp], cp
}

// What lies outside of the work folder.
var sysOutside = map[string]bool{"/": true, "/dev/null": true, "//dev": true, "/proc/self/cwd": true, "..": true, "/nonexistent dir/x": false, "/dev/null/x": false, "../no such thing": false}

func (w *sysRun) exists(p string) bool {
	if b, ok := sysOutside[p]; ok {
		return b
	}
	if strings.HasPrefix(p, "/") && !strings.HasPrefix(p, "/proc/self/cwd/") {
		panic(sysStop{"what lies outside of the work folder is open"})
	}
	if t := strings.TrimRight(p, "/"); t != p && t != "" {
		n, _ := w.node(t)
		return n != nil && n.dir
	}
	if l := w.nodes[p]; l != nil && l.link != "" && w.nodes[l.link] == nil {
		panic(sysStop{"whether a link that leads nowhere exists is open"})
	}
	n, _ := w.node(p)
	if n == nil {
		return false
	}
	if n.wild {
		panic(sysStop{"the existence of a file is open after a fault"})
	}
	for i, a := range n.alts {
		if i > 0 && a.absent != n.alts[0].absent {
			panic(sysStop{"the existence of a file is open after a fault"})
		}
	}
	return len(n.alts) == 0 || !n.alts[0].absent
}

func (w *sysRun) read(p string) string {
	n, _ := w.node(p)
	if n == nil || n.dir || n.fifo || n.wild || len(n.alts) > 0 || n.deny&4 != 0 {
		panic(sysStop{"what a read yields is open"})
	}
	if w.fault != nil && w.fault.K == "nofile" {
		panic(sysStop{"a read meets a fault"})
	}
	w.probes["reads"]++
	return strings.TrimSuffix(string(n.data), "\n")
}

func (w *sysRun) write(p, d string, app bool) {
	w.probes["writes"]++
	if app {
		w.probes["appends"]++
	}
	n, cp := w.node(p)
	if cp == "" {
		w.probes["writes to nowhere"]++
		return
	}
	if n != nil && n.dir {
		return
	}
	full := []byte(d + "\n")
	size := len(full)
	if app && n != nil {
		size += len(n.data)
	}
	if size > 3<<20 {
		panic(sysStop{"a large file"})
	}
	hit := false
	if f := w.fault; f != nil {
		switch f.K {
		case "fsize":
			hit = size > f.N || n != nil && (n.wild || len(n.alts) > 0)
		case "nofile":
			hit = true
		case "ro", "rodir":
			hit = f.P == cp || f.K == "rodir" && n == nil && strings.HasPrefix(cp, f.P+"/")
		case "isdir", "full":
			if f.P == cp {
				w.over = true
				w.fired[f.K]++
				return // whatever happens, the file itself is out of reach
			}
		}
	}
	kind := "deny"
	if n != nil && n.deny&2 != 0 {
		hit = true
	} else if w.fault != nil {
		kind = w.fault.K
	}
	if n == nil {
		n = &sysNode{alts: []sysAlt{{absent: true}}}
		w.nodes[cp] = n
		if !hit {
			n.alts = nil
			n.data = full
			return
		}
		n.alts = append(n.alts, sysAlt{ext: full})
		w.over = true
		w.fired[w.fault.K]++
		return
	}
	if hit {
		w.over = true
		w.fired[kind]++
		switch {
		case n.wild || len(n.alts) > 0:
			n.wild = true
		case app:
			n.alts = []sysAlt{{base: n.data, ext: full}}
			if len(n.data) > 0 && n.data[len(n.data)-1] != '\n' {
				n.wild = true
			}
		default:
			n.alts = []sysAlt{{base: n.data}, {ext: full}}
		}
		return
	}
	if !app {
		n.data, n.alts, n.wild = full, nil, false
		return
	}
	if n.wild || len(n.alts) > 0 {
		n.wild = true
		return
	}
	if len(n.data) == 0 || n.data[len(n.data)-1] != '\n' {
		// The old content isn't made of whole lines: with or without a newline in between.
		both := append(append(append([]byte(nil), n.data...), '\n'), full...)
		n.alts = []sysAlt{{base: append(append([]byte(nil), n.data...), full...)}, {base: both}}
		n.data = nil
		return
	}
	n.data = append(append([]byte(nil), n.data...), full...)
}

// settle compares the work folder with the model and fixes what was open.
func (w *sysRun) settle(when string) {
	seen := map[string]bool{}
	filepath.Walk(w.work, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == w.work {
			return nil
		}
		rel := p[len(w.work)+1:]
		if rel == "bin dir" {
			return filepath.SkipDir
		}
		seen[rel] = true
		n := w.nodes[rel]
		switch {
		case n == nil:
			w.bad("a path nobody wrote", "%s: %q exists", when, rel)
		case n.link != "":
			if t, err := os.Readlink(p); err != nil || t != n.link {
				w.bad("another path was touched", "%s: the link %q has changed", when, rel)
			}
		case n.fifo:
			if fi.Mode()&os.ModeNamedPipe == 0 {
				w.bad("another path was touched", "%s: the pipe %q has changed", when, rel)
			}
		case n.dir:
			if !fi.IsDir() {
				w.bad("another path was touched", "%s: the folder %q has changed", when, rel)
			}
		default:
			d, err := os.ReadFile(p)
			if err != nil || !fi.Mode().IsRegular() {
				w.bad("wrong file content", "%s: %q isn't a readable file any more", when, rel)
			}
			w.compare(when, rel, n, false, d)
		}
		return nil
	})
	var names []string
	for p := range w.nodes {
		if !seen[p] {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		n := w.nodes[p]
		if n.dir || n.fifo || n.link != "" {
			w.bad("another path was touched", "%s: the folder %q is gone", when, p)
		}
		w.compare(when, p, n, true, nil)
	}
}

func (w *sysRun) compare(when, p string, n *sysNode, absent bool, d []byte) {
	if n.wild {
		n.wild, n.alts = false, nil
	} else if len(n.alts) > 0 {
		ok := false
		for _, a := range n.alts {
			ok = ok || a.allows(absent, d)
		}
		if !ok {
			w.bad("wrong file content", "%s: %q holds %s after a write that failed", when, p, show(absent, d))
		}
		n.alts = nil
	} else {
		if absent || !bytes.Equal(d, n.data) {
			w.bad("wrong file content", "%s: %q holds %s instead of %s", when, p, show(absent, d), show(false, n.data))
		}
		return
	}
	if absent {
		delete(w.nodes, p)
		return
	}
	n.data = d
}

func show(absent bool, d []byte) string {
	if absent {
		return "nothing (no such file)"
	}
	if len(d) > 300 {
		return fmt.Sprintf("%q...%q (%d bytes)", d[:200], d[len(d)-60:], len(d))
	}
	return fmt.Sprintf("%q", d)
}

// ------------------------------------------------------------------- the probes

func (h *sysHello) send(k byte, v uint32, rest ...[]byte) error {
	b := []byte{k, 0, 0, 0, 0}
	binary.LittleEndian.PutUint32(b[1:], v)
	for _, x := range rest {
		b = append(b, x...)
	}
	_, err := h.conn.Write(b)
	return err
}

// ask sends a command and returns the reply; io.EOF: the probe died.
func (h *sysHello) ask(k byte, v uint32, rest ...[]byte) (byte, uint32, []byte, error) {
	h.conn.SetDeadline(time.Now().Add(30 * time.Second))
	if err := h.send(k, v, rest...); err != nil {
		return 0, 0, nil, io.EOF
	}
	var b [5]byte
	if _, err := io.ReadFull(h.r, b[:]); err != nil {
		return 0, 0, nil, io.EOF
	}
	n := binary.LittleEndian.Uint32(b[1:])
	var d []byte
	if b[0] == 'd' {
		d = make([]byte, n)
		if _, err := io.ReadFull(h.r, d); err != nil {
			return 0, 0, nil, io.EOF
		}
	}
	return b[0], n, d, nil
}

// end lets the probe go and waits until its descriptors are closed.
func (h *sysHello) end(k byte, v uint32) {
	h.conn.SetDeadline(time.Now().Add(30 * time.Second))
	h.send(k, v)
	io.Copy(io.Discard, h.r)
	h.conn.Close()
}

func u32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }

func (w *sysRun) accept() {
	for {
		conn, err := w.ln.Accept()
		if err != nil {
			return
		}
		go func() {
			h := &sysHello{conn: conn, r: bufio.NewReader(conn)}
			var n [4]byte
			if _, err := io.ReadFull(h.r, n[:]); err != nil {
				conn.Close()
				return
			}
			for i := binary.LittleEndian.Uint32(n[:]); i > 0; i-- {
				if _, err := io.ReadFull(h.r, n[:]); err != nil {
					conn.Close()
					return
				}
				b := make([]byte, binary.LittleEndian.Uint32(n[:]))
				if _, err := io.ReadFull(h.r, b); err != nil {
					conn.Close()
					return
				}
				h.argv = append(h.argv, string(b))
			}
			for i := range h.pipe {
				if _, err := io.ReadFull(h.r, n[:]); err != nil {
					conn.Close()
					return
				}
				h.pipe[i] = binary.LittleEndian.Uint32(n[:])
			}
			w.hellos <- h
		}()
	}
}

var errExited = errors.New("the script has ended")

// next waits for the next program the script starts.
func (w *sysRun) next() (*sysHello, error) {
	if w.dead {
		return nil, errExited
	}
	select {
	case h := <-w.hellos:
		return h, nil
	default:
	}
	select {
	case h := <-w.hellos:
		return h, nil
	case <-w.exited:
		w.dead = true
		select {
		case h := <-w.hellos:
			return h, nil
		default:
		}
		return nil, errExited
	case <-time.After(c09Wait):
		w.bad("the script does not continue", "nothing happens for %s", c09Wait)
	}
	return nil, nil
}

func (w *sysRun) expect(what string) *sysHello {
	h, err := w.next()
	if err != nil {
		if w.fault != nil && w.fault.K == "fsize" && w.over && w.k.Xfsz == "d" && w.status() == 128+int(syscall.SIGXFSZ) {
			w.fired["killed within a write"]++
			w.log("the script was killed within a write")
			w.grave = "killed within a write"
			w.settle("after the crash")
			panic(sysStop{"killed"})
		}
		w.bad("the script ends too early", "status %d ahead of %s; %s; stderr: %s", w.status(), what, w.outDiff(true), clip(w.stderr.String(), 500))
	}
	return h
}

func (w *sysRun) status() int {
	ws := w.cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return 128 + int(ws.Signal())
	}
	return ws.ExitStatus()
}

func (w *sysRun) outDiff(prefix bool) string {
	w.outMu.Lock()
	defer w.outMu.Unlock()
	got, want := w.stdout.String(), w.want.String()
	if got == want || prefix && strings.HasPrefix(want, got) {
		return ""
	}
	return diffAt("standard output", got, want)
}

func diffAt(what, got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-60)
	at := func(s string) string {
		if i >= len(s) {
			return fmt.Sprintf("%q<end>", s[min(from, len(s)):])
		}
		return fmt.Sprintf("%q", clip(s[from:], 160))
	}
	return fmt.Sprintf("%s differs at byte %d: %s instead of %s", what, i, at(got), at(want))
}

// sync is where the script waits for the environment.
func (w *sysRun) sync(tag string) {
	h := w.expect("sync " + tag)
	if len(h.argv) != 2 || filepath.Base(h.argv[0]) != "vsync" || h.argv[1] != tag {
		w.bad("another program runs", "%q instead of sync %q; %s", h.argv, tag, w.outDiff(true))
	}
	id := w.syncs
	w.syncs++
	w.log("sync %d", id)
	if d := w.outDiff(true); d != "" {
		w.bad("wrong output", "at sync %d: %s", id, d)
	}
	w.lift(h)
	w.settle(fmt.Sprintf("at sync %d", id))
	if f := w.h.peek; f != nil {
		w.h.peek = nil
		f()
	}
	for i := range w.k.Acts {
		if a := &w.k.Acts[i]; a.Sync == id {
			w.act(h, a, tag)
		}
	}
	h.end('q', 0)
}

// lift ends the current fault, so that the world can be observed.
func (w *sysRun) lift(h *sysHello) {
	f := w.fault
	if f == nil {
		return
	}
	w.fault, w.over = nil, false
	w.log("lift %s %q", f.K, f.P)
	p := filepath.Join(w.work, f.P)
	switch f.K {
	case "fsize":
		w.limit(h, syscall.RLIMIT_FSIZE, 0xffffffff)
	case "nofile":
		w.limit(h, syscall.RLIMIT_NOFILE, 0xffffffff)
	case "ro":
		os.Chmod(p, 0o644)
		if n := w.nodes[f.P]; n != nil {
			n.deny = 0
		}
	case "rodir":
		os.Chmod(p, 0o777)
	case "isdir", "full":
		if f.K == "isdir" {
			if es, err := os.ReadDir(p); err != nil || len(es) > 0 {
				w.bad("another path was touched", "the folder %q has changed", f.P)
			}
		}
		os.RemoveAll(p)
		if w.nodes[f.P] != nil {
			if err := os.Rename(filepath.Join(w.dir, "aside"), p); err != nil {
				panic(err)
			}
		}
	case "slow":
		// Nobody may be waiting for a reader any more.
		w.unread.Store(true)
		if fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			<-w.slow
			syscall.Close(fd)
		}
		os.Remove(p)
		w.place(f.P, w.nodes[f.P].data)
		w.nodes[f.P].deny = 0
	}
}

func (w *sysRun) limit(h *sysHello, res, soft uint32) {
	k, _, _, err := h.ask('l', res, u32(uint32(w.cmd.Process.Pid)), u32(soft))
	if err != nil || k != 'o' {
		panic(fmt.Errorf("prlimit: %v %c", err, k))
	}
}

func (w *sysRun) place(p string, d []byte) {
	full := filepath.Join(w.work, p)
	if err := os.WriteFile(full, d, 0o644); err != nil {
		panic(err)
	}
	os.Chmod(full, 0o644)
	if os.Getuid() == 0 {
		os.Lchown(full, 65534, 65534)
	}
}

// act lets the environment do something, as far as it is possible now.
func (w *sysRun) act(h *sysHello, a *sysAct, tag string) {
	n := w.nodes[a.P]
	isFile := n != nil && !n.dir && !n.fifo && n.link == ""
	p := filepath.Join(w.work, a.P)
	parent := filepath.Dir(a.P)
	hasParent := parent == "." || w.nodes[parent] != nil && w.nodes[parent].dir
	done := func() {
		w.log("env %s %q %q %d", a.K, a.P, a.Q, a.N)
		w.fired["env "+a.K]++
	}
	set := func() {
		w.fault, w.over = a, false
		w.log("fault %s %q %d", a.K, a.P, a.N)
		w.fired["armed "+a.K]++
	}
	switch a.K {
	case "put":
		if (isFile || n == nil) && hasParent {
			w.place(a.P, []byte(a.Data))
			w.nodes[a.P] = &sysNode{data: []byte(a.Data)}
			done()
		}
	case "del":
		if isFile {
			os.Remove(p)
			delete(w.nodes, a.P)
			done()
		}
	case "add":
		if isFile {
			n.data = append(append([]byte(nil), n.data...), a.Data...)
			w.place(a.P, n.data)
			n.deny = 0
			done()
		}
	case "mode":
		if isFile {
			if a.N&0o600 != 0o600 && os.Getuid() != 0 {
				break // the simulator itself must be able to look
			}
			os.Chmod(p, os.FileMode(a.N))
			n.deny = 6 &^ (a.N >> 6)
			done()
		}
	case "mv":
		if isFile && w.nodes[a.Q] == nil && a.Q != a.P && w.canon(a.Q) == a.Q {
			if err := os.Rename(p, filepath.Join(w.work, a.Q)); err == nil {
				w.nodes[a.Q] = n
				delete(w.nodes, a.P)
				done()
			}
		}
	case "kill":
		if w.fault == nil {
			done()
			syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
			h.end('q', 0)
			<-w.exited
			w.dead = true
			w.grave = "killed"
			w.settle("after the crash")
			panic(sysStop{"killed"})
		}
	}
	if w.fault != nil || !strings.HasPrefix(tag, "w") && !strings.HasPrefix(tag, "r") {
		return
	}
	switch a.K {
	case "fsize":
		if tag[0] == 'w' {
			w.limit(h, syscall.RLIMIT_FSIZE, uint32(a.N))
			set()
		}
	case "nofile":
		if strings.HasPrefix(tag, "w!") {
			w.limit(h, syscall.RLIMIT_NOFILE, 3)
			set()
		}
	case "ro":
		if isFile && tag[0] == 'w' {
			os.Chmod(p, 0o444)
			set()
		}
	case "rodir":
		if n != nil && n.dir && tag[0] == 'w' {
			os.Chmod(p, 0o555)
			set()
		}
	case "isdir", "full":
		if !strings.HasPrefix(tag, "wr") && (isFile || n == nil) && hasParent && w.canon(a.P) == a.P && tag[0] == 'w' {
			if isFile {
				if err := os.Rename(p, filepath.Join(w.dir, "aside")); err != nil {
					panic(err)
				}
			}
			if a.K == "isdir" {
				os.Mkdir(p, 0o777)
				os.Chmod(p, 0o777)
			} else {
				os.Symlink("/dev/full", p)
			}
			set()
		}
	case "slow":
		if isFile && tag[0] == 'r' && len(n.data) > 0 {
			os.Remove(p)
			if err := syscall.Mkfifo(p, 0o666); err != nil {
				panic(err)
			}
			os.Chmod(p, 0o666)
			set()
			w.slow, w.unread = make(chan struct{}), &atomic.Bool{}
			go feed(p, n.data, newRng(w.k.Sched, uint64(w.syncs), 7), w.slow, w.unread)
		}
	}
}

// pipeEmpty waits until the reader has taken everything.
func pipeEmpty(fd uintptr, unread *atomic.Bool) {
	for i := 0; i < 4000 && !unread.Load(); i++ {
		var n int32
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n))); e != 0 || n == 0 {
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func feed(p string, d []byte, r *rng, done chan struct{}, unread *atomic.Bool) {
	defer close(done)
	f, err := os.OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		return
	}
	defer f.Close()
	fd := f.Fd()
	for len(d) > 0 && !unread.Load() {
		n := min(len(d), 1+r.n(1+len(d)))
		if r.p(30) {
			n = min(len(d), 1+r.n(3))
		}
		if _, err := syscall.Write(int(fd), d[:n]); err != nil {
			return
		}
		d = d[n:]
		pipeEmpty(fd, unread)
	}
}

// ------------------------------------------------------------------- pipelines

type sysProc struct {
	plan     *sysStage
	h        *sysHello
	name     string
	in       int    // bytes read
	got      []byte // what was read
	sent     []byte // what was written
	left     string
	eof      bool
	closed   bool
	finished bool
	blind    bool // its reader is gone
}

// inOrder sorts the programs of a pipeline of which some share their name by
// the pipes between them.
func (w *sysRun) inOrder(hs []*sysHello, ps []*sysProc, args [][]string) []*sysHello {
	var out []*sysHello
	for _, h := range hs {
		first := true
		for _, o := range hs {
			first = first && (o == h || h.pipe[0] == 0 || o.pipe[1] != h.pipe[0])
		}
		if !first {
			continue
		}
		if out != nil {
			panic(sysStop{"programs of the same name"}) // connected by something else than pipes
		}
		for at := h; at != nil && len(out) <= len(hs); {
			out = append(out, at)
			var next *sysHello
			for _, o := range hs {
				if o != at && at.pipe[1] != 0 && o.pipe[0] == at.pipe[1] {
					next = o
				}
			}
			at = next
		}
	}
	if len(out) != len(hs) || len(hs) != len(ps) {
		panic(sysStop{"programs of the same name"})
	}
	for i, h := range out {
		if len(h.argv) == 0 || filepath.Base(h.argv[0]) != filepath.Base(ps[i].name) {
			w.bad("another program runs", "%s as number %d of a pipeline instead of %q", clip(fmt.Sprintf("%q", h.argv), 400), i+1, ps[i].name)
		}
	}
	w.probes["pipelines with programs of the same name"]++
	return out
}

const pipeRoom = 24 << 10

func (w *sysRun) run(s *lSt, args [][]string, capture bool) (string, int64) {
	no := w.runs
	w.runs++
	if !fitArgs(args) {
		panic(sysStop{"long arguments"})
	}
	r := newRng(w.k.Sched, uint64(no), 99)
	var ps []*sysProc
	live := 0
	for i, a := range s.Ap {
		p := &sysProc{plan: a.Plan, name: a.Prog, left: a.Plan.Out}
		if a.Plan.Miss != "" {
			p.finished, p.closed = true, true
			w.fired["spawn failure "+a.Plan.Miss]++
		} else {
			live++
		}
		ps = append(ps, p)
		w.probes["arguments"] += len(args[i])
	}
	w.log("run %d: %d stages, capture %v", no, len(ps), capture)
	w.probes[fmt.Sprintf("pipelines of %d", len(ps))]++
	names := map[string]bool{}
	for _, p := range ps {
		names[filepath.Base(p.name)] = true
	}
	var hs []*sysHello
	for n := live; n > 0; n-- {
		hs = append(hs, w.expect(fmt.Sprintf("run %d of %q", no, ps[len(ps)-1].name)))
	}
	if len(names) < len(ps) {
		hs = w.inOrder(hs, ps, args)
	}
	for _, h := range hs {
		found := false
		for i, p := range ps {
			if len(h.argv) == 0 || filepath.Base(h.argv[0]) != filepath.Base(p.name) || p.plan.Miss != "" {
				continue
			}
			if p.h != nil {
				if len(names) < len(ps) {
					continue
				}
				w.bad("a program runs twice", "%q", h.argv)
			}
			found = true
			p.h = h
			got := h.argv[1:]
			if len(got) != len(args[i]) {
				w.bad("wrong arguments", "%q has %d arguments %s instead of %d %s", p.name, len(got), clip(fmt.Sprintf("%q", got), 300), len(args[i]), clip(fmt.Sprintf("%q", args[i]), 300))
			}
			for j := range got {
				if got[j] != args[i][j] {
					w.bad("wrong arguments", "argument %d of %q: %s", j+1, p.name, diffAt("it", got[j], args[i][j]))
				}
			}
			break
		}
		if !found {
			w.bad("another program runs", "%s instead of a program of run %d; %s", clip(fmt.Sprintf("%q", h.argv), 400), no, w.outDiff(true))
		}
	}
	// One step of one program at a time, as the seed says.
	for _, p := range ps {
		if p.h != nil && p.plan.Ign {
			p.h.ask('i', 0)
			w.fired["SIGPIPE ignored"]++
		}
	}
	for i, p := range ps {
		if p.h != nil && i+1 < len(ps) && ps[i+1].plan.Miss != "" {
			if k, _, _, err := p.h.ask('p', 0); err != nil || k != 'o' {
				w.bad("a pipe does not break", "%q still has a reader although the next program can't be started", p.name)
			}
		}
	}
	for {
		type step struct {
			i int
			k string
		}
		var can []step
		for i, p := range ps {
			if p.finished {
				continue
			}
			var up, down *sysProc
			if i > 0 {
				up = ps[i-1]
			}
			if i+1 < len(ps) {
				down = ps[i+1]
			}
			reads := false
			if up != nil && !p.eof && p.plan.Read != 1 && (p.plan.Read == 0 || p.in < p.plan.Max) {
				reads = true
				// The shell itself may hold a pipe open until the writer has ended, even if that one closed it.
				if len(up.sent)-p.in > 0 || up.finished {
					can = append(can, step{i, "r"}, step{i, "r"})
				}
			}
			writes := len(p.left) > 0 && !p.blind
			if writes && (down == nil || down.finished || len(p.sent)-down.in < pipeRoom) {
				can = append(can, step{i, "w"}, step{i, "w"})
			}
			if !writes && p.plan.Close && !p.closed {
				can = append(can, step{i, "c"})
			}
			if !writes && !reads && (!p.plan.Close || p.closed) {
				can = append(can, step{i, "q"})
			}
		}
		if len(can) == 0 {
			break
		}
		st := pick(r, can)
		p := ps[st.i]
		switch st.k {
		case "r":
			w.stepRead(ps, st.i, r)
		case "w":
			n := min(len(p.left), 4096, 1+r.n(1+len(p.left)))
			if r.p(25) {
				n = min(n, 1+r.n(4))
			}
			if st.i+1 < len(ps) && !ps[st.i+1].finished {
				n = min(n, max(1, pipeRoom-len(p.sent)+ps[st.i+1].in))
			}
			k, v, _, err := p.h.ask('w', uint32(n), []byte(p.left[:n]))
			w.log("%d writes %d", st.i, n)
			switch {
			case err != nil:
				if st.i+1 == len(ps) || !ps[st.i+1].finished {
					w.bad("a program loses its output", "%q can't write", p.name)
				}
				w.fired["SIGPIPE"]++
				p.finished, p.closed = true, true
				p.h.conn.Close()
			case k == 'E':
				if st.i+1 == len(ps) || !ps[st.i+1].finished || syscall.Errno(v) != syscall.EPIPE {
					w.bad("a program loses its output", "%q can't write: %v", p.name, syscall.Errno(v))
				}
				w.fired["EPIPE"]++
				p.blind = true
			case k == 'T':
				w.bad("a program's output is stuck", "%q can't write", p.name)
			default:
				p.sent = append(p.sent, p.left[:v]...)
				p.left = p.left[v:]
			}
		case "c":
			p.h.ask('c', 1)
			p.closed = true
			w.log("%d closes its output", st.i)
			w.fired["output closed early"]++
		case "q":
			if p.plan.Err != "" {
				p.h.ask('e', uint32(len(p.plan.Err)), []byte(p.plan.Err))
			}
			if st.i > 0 && !p.eof && p.plan.Read != 0 {
				w.fired["input abandoned"]++
			}
			if p.plan.Sig != 0 {
				p.h.end('k', uint32(p.plan.Sig))
				w.fired["killed program"]++
			} else {
				p.h.end('q', uint32(p.plan.Exit))
			}
			p.finished, p.closed = true, true
			w.log("%d ends", st.i)
			if st.i+1 == len(ps) {
				for j := 0; j < st.i; j++ {
					if !ps[j].finished {
						w.probes["last program ends first"]++
						break
					}
				}
			}
		}
	}
	for _, p := range ps {
		if !p.finished {
			w.bad("a pipeline is stuck", "%q of run %d", p.name, no)
		}
	}
	last := ps[len(ps)-1]
	code := int64(last.plan.Exit)
	switch {
	case last.plan.Miss == "none":
		code = 127
	case last.plan.Miss != "":
		code = 126
	case last.plan.Sig != 0:
		code = 128 + int64(last.plan.Sig)
	}
	if !capture {
		w.want.Write(last.sent)
		return "", code
	}
	w.probes["captures"]++
	return strings.TrimSuffix(string(last.sent), "\n"), code
}

func (w *sysRun) stepRead(ps []*sysProc, i int, r *rng) {
	p, up := ps[i], ps[i-1]
	n := 1 + r.n(5000)
	if r.p(30) {
		n = 1 + r.n(3)
	}
	if p.plan.Read == 2 {
		n = min(n, p.plan.Max-p.in)
	}
	k, v, d, err := p.h.ask('r', uint32(n))
	if err != nil {
		w.bad("a program dies", "%q dies in a read", p.name)
	}
	switch k {
	case 'T':
		w.bad("a pipe does not deliver", "%q waits for its input; %d bytes were written, %d read, writer ended: %v", p.name, len(up.sent), p.in, up.finished)
	case 'E':
		w.bad("a pipe does not deliver", "%q can't read: %v", p.name, syscall.Errno(v))
	}
	w.log("%d reads %d", i, v)
	if v == 0 {
		if p.in < len(up.sent) || !up.closed && !up.finished {
			w.bad("a pipe does not deliver", "%q is at the end of its input after %d of %d bytes, writer ended: %v", p.name, p.in, len(up.sent), up.finished)
		}
		p.eof = true
		return
	}
	if p.in+len(d) > len(up.sent) || string(d) != string(up.sent[p.in:p.in+len(d)]) {
		w.bad("a pipe delivers something else", "%q: %s", p.name, diffAt("its input", string(p.got)+string(d), string(up.sent)))
	}
	p.got = append(p.got, d...)
	p.in += len(d)
}

// ------------------------------------------------------------------- whole runs

type sysSeen struct {
	w      *sysRun
	o      *zzsim.Outcome
	script string
	open   string // why the rest of the run wasn't judged
}

func (c *check) sysTools() (string, error) {
	dir, err := c.toolDir()
	if err != nil {
		return "", err
	}
	if _, err := os.Stat(filepath.Join(dir, "vsync")); err == nil {
		return dir, nil
	}
	src := filepath.Join(c.verif, "sim", "csrc", "vprobe.c")
	out := filepath.Join(dir, "vsync")
	if b, err := exec.Command("gcc", "-O1", "-static", "-o", out, src).CombinedOutput(); err != nil {
		return "", fmt.Errorf("gcc: %v: %s", err, b)
	}
	os.Chmod(out, 0o755)
	for _, n := range append([]string{"vlaunch"}, sysProgs...) {
		if err := os.Link(out, filepath.Join(dir, n)); err != nil {
			return "", err
		}
	}
	for _, n := range []string{"head", "tail", "tr", "sed", "grep", "awk", "cut", "wc", "expr", "sort", "seq", "od", "basename", "dirname", "env", "stat", "ls", "touch", "mktemp", "mv", "rm", "cp", "tee", "cmp", "paste", "fold", "rev", "uniq", "printf", "test", "echo", "true", "false", "find", "xargs", "readlink", "realpath", "dd", "base64", "tac", "nl", "comm", "ln", "mkdir", "id", "date", "uname", "perl", "python3", "sh", "bash"} {
		if p, err := exec.LookPath(n); err == nil {
			os.Symlink(p, filepath.Join(dir, n))
		}
	}
	return dir, os.WriteFile(filepath.Join(dir, "noexec"), []byte("#!/bin/false\n"), 0o644)
}

// The programs of a script: what counts is that their names are unusual too.
var sysProgs = []string{"p0", "p1", "p2", "prog", "tool-x", "my tool", "a.b", "x$y", `q"uote`, "-dash", "time", "if", "UP", "sta*r", "f", "it's", "back`tick", "semi;colon"}

func (k *sysCase) try(c *check, wk *worker, lane int) (seen sysSeen, class, detail string, err error) {
	o, d, err := wk.run(k.scenario())
	if err != nil {
		return seen, "", "", err
	}
	if d != nil {
		cl, detail := judgeDeath(d)
		return seen, "the transpiler died", cl + " " + detail, nil
	}
	seen.o = o
	if len(o.Results) != 1 {
		return seen, "", "", fmt.Errorf("no result")
	}
	if x := o.Results[0]; x.Panic != "" || x.Abort != "" || x.IsErr {
		return seen, "a valid program is rejected", x.Panic + x.Abort + x.Err, nil
	}
	seen.script = string(o.Results[0].Script)
	w := &sysRun{c: c, k: k, lane: lane, nodes: map[string]*sysNode{}, hellos: make(chan *sysHello, 64), exited: make(chan error, 1), fired: map[string]int{}, probes: map[string]int{}, cells: map[uint32]struct{}{}}
	seen.w = w
	if err := w.start([]byte(seen.script)); err != nil {
		return seen, "", "", err
	}
	defer w.stop()
	defer func() {
		switch x := recover().(type) {
		case nil:
		case sysStop:
			seen.open = x.why
			if x.why == "killed" {
				w.finishOut()
				if diff := w.outDiff(true); diff != "" {
					class, detail = "wrong output", diff
				}
			}
		case sysBad:
			class, detail = x.class, x.detail
		case error:
			err = x
		default:
			panic(x)
		}
	}()
	h := &lHooks{
		print: func(s string) {
			if w.want.Len() > 3<<20 {
				panic(sysStop{"long output"})
			}
			w.want.WriteString(s + "\n")
		},
		exists: func(p string) bool { w.probes["exists"]++; return w.exists(p) },
		read:   w.read, write: w.write, sync: w.sync, run: w.run, cell: w.cell,
		input: func() string {
			if w.inputs >= len(k.Stdin) {
				panic(sysStop{"standard input is at its end"})
			}
			w.inputs++
			w.probes["input lines"]++
			return k.Stdin[w.inputs-1]
		},
	}
	w.h = h
	_, _, _, err = k.Prog.runIn(sysForks, h, 300000)
	if err != nil {
		// Faults led the program out of the model (a string grew too long, say).
		seen.open = "outside the model: " + err.Error()
		return seen, "", "", nil
	}
	// The script has nothing left to do but to end.
	if hello, err := w.next(); err == nil {
		w.bad("another program runs", "%q at the end", hello.argv)
	}
	w.finishOut()
	if d := w.outDiff(false); d != "" {
		w.bad("wrong output", "%s; stderr: %s", d, clip(w.stderr.String(), 400))
	}
	if w.fault == nil {
		w.settle("at the end")
	}
	return seen, "", "", nil
}

func (w *sysRun) start(script []byte) error {
	dir, err := w.c.scriptDir(w.lane)
	if err != nil {
		return err
	}
	tools, err := w.c.sysTools()
	if err != nil {
		return err
	}
	w.dir, w.work = dir, filepath.Join(dir, "work")
	os.Mkdir(filepath.Join(dir, "tmp"), 0o777)
	os.Chmod(filepath.Join(dir, "tmp"), 0o777)
	os.Mkdir(filepath.Join(w.work, "bin dir"), 0o755)
	if err := os.Link(filepath.Join(tools, "vsync"), filepath.Join(w.work, "bin dir", "p5")); err != nil {
		return err
	}
	for _, f := range w.k.Files {
		p := filepath.Join(w.work, f.P)
		n := &sysNode{}
		switch f.K {
		case "dir":
			if err := os.MkdirAll(p, 0o777); err != nil {
				return err
			}
			os.Chmod(p, 0o777)
			n.dir = true
		case "link":
			if err := os.Symlink(f.Data, p); err != nil {
				return err
			}
			n.link = f.Data
		case "fifo":
			if err := syscall.Mkfifo(p, 0o666); err != nil {
				return err
			}
			n.fifo = true
		default:
			w.place(f.P, []byte(f.Data))
			n.data = []byte(f.Data)
		}
		w.nodes[f.P] = n
	}
	sp := filepath.Join(dir, "script.sh")
	if err := os.WriteFile(sp, script, 0o644); err != nil {
		return err
	}
	sock := filepath.Join(dir, "s")
	w.ln, err = net.Listen("unix", sock)
	if err != nil {
		return err
	}
	os.Chmod(sock, 0o777)
	go w.accept()
	mode := w.k.Xfsz
	if mode == "" {
		mode = "i"
	}
	cmd := exec.Command(filepath.Join(tools, "vlaunch"), mode, "/bin/bash", sp)
	cmd.Dir = w.work
	cmd.Env = []string{"PATH=" + tools, "LC_ALL=C", "VSIM_SOCK=" + sock, "TMPDIR=" + filepath.Join(dir, "tmp"), "HOME=/home/sim"}
	cmd.SysProcAttr = unprivileged()
	var inR, inW *os.File
	if len(w.k.Stdin) > 0 {
		inR, inW, err = os.Pipe()
		if err != nil {
			return err
		}
		cmd.Stdin = inR
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return err
	}
	errR, errW, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd.Stdout, cmd.Stderr = outW, errW
	w.cmd = cmd
	if err := cmd.Start(); err != nil {
		return err
	}
	outW.Close()
	errW.Close()
	if inR != nil {
		inR.Close()
		go w.feedInput(inW)
	}
	w.readWg.Add(2)
	grab := func(r *os.File, b *bytes.Buffer) {
		defer w.readWg.Done()
		defer r.Close()
		buf := make([]byte, 32<<10)
		for {
			n, err := r.Read(buf)
			w.outMu.Lock()
			if b.Len() < 4<<20 {
				b.Write(buf[:n])
			}
			w.outMu.Unlock()
			if err != nil {
				return
			}
		}
	}
	go grab(outR, &w.stdout)
	go grab(errR, &w.stderr)
	go func() { w.exited <- cmd.Wait() }()
	return nil
}

func (w *sysRun) feedInput(f *os.File) {
	defer f.Close()
	r, never := newRng(w.k.Sched, 5), &atomic.Bool{}
	d := []byte(strings.Join(w.k.Stdin, "\n") + "\n")
	if w.k.Open {
		d = d[:len(d)-1]
	}
	fd := f.Fd()
	for len(d) > 0 {
		n := min(len(d), 1+r.n(max(40, len(d)/10)))
		if _, err := syscall.Write(int(fd), d[:n]); err != nil {
			return
		}
		d = d[n:]
		if r.p(50) {
			pipeEmpty(fd, never)
		}
	}
}

func (w *sysRun) finishOut() {
	done := make(chan struct{})
	go func() { w.readWg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(c09Wait):
	}
}

func (w *sysRun) stop() {
	if w.cmd != nil && w.cmd.Process != nil {
		syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		if !w.dead {
			<-w.exited
			w.dead = true
		}
	}
	w.ln.Close()
	for {
		select {
		case h := <-w.hellos:
			h.conn.Close()
			continue
		default:
		}
		break
	}
	if w.fault != nil && w.fault.K == "slow" {
		w.unread.Store(true)
		if fd, err := syscall.Open(filepath.Join(w.work, w.fault.P), syscall.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			<-w.slow
			syscall.Close(fd)
		}
	}
	w.finishOut()
}

// fitArgs keeps away from the kernel's own limits.
func fitArgs(args [][]string) bool {
	for _, xs := range args {
		n := 0
		for _, x := range xs {
			n += len(x)
		}
		if n > 100_000 {
			return false
		}
	}
	return true
}

var sysPaths = []string{"print", "panic", "assign", "concatenate", "compare", "pass", "return", "slice store", "slice load", "range", "subscript", "measure", "file content", "file path", "program argument"}

// cell notes which characters took which path in which position, by origin.
func (w *sysRun) cell(path string, v lVal) {
	pi := 0
	for sysPaths[pi] != path {
		pi++
	}
	rt := 0
	if v.rt {
		rt = 1
	}
	add := func(i, pos int) {
		ch := strings.IndexByte(sysAlphabet, v.s[i])
		w.cells[uint32(((pi*2+rt)*len(sysAlphabet)+ch)*4+pos)] = struct{}{}
	}
	n := len(v.s)
	if n == 1 {
		add(0, 3)
		return
	}
	for i := 0; i < n; i++ {
		switch {
		case i == 0:
			add(i, 0)
		case i == n-1:
			add(i, 2)
		case i < 64:
			add(i, 1)
		}
	}
}
