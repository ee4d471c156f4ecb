//go:build zzsim

package zzsim

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

// The simulated disk and the simulated kernel calls on it.

type inode struct {
	ino   uint64
	kind  string
	data  []byte
	mode  uint32
	ents  map[string]*inode
	mtime int64
	nlink int
}

type openFile struct {
	n      *inode
	off    int64
	flags  int
	path   string
	dents  []string
	closed bool
}

type fsys struct {
	s     *sim
	root  *inode
	cwd   string
	fds   map[int]*openFile
	next  int
	rng   uint64
	used  int64
	start map[string]Node
}

const fdBase = 1 << 24

var fdEpoch int

func newFS(s *sim) *fsys {
	f := &fsys{s: s, cwd: s.cwd, fds: map[int]*openFile{}, rng: s.sc.Seed ^ 0xabcdef}
	fdEpoch++
	f.next = fdBase + (fdEpoch&0xfff)<<16
	f.root = f.inode("d")
	f.root.mode = 0o755
	for _, nd := range s.sc.Disk {
		f.place(nd)
	}
	if s.cwd != "/" {
		f.mkdirs(s.cwd)
	}
	f.mkdirs("/tmp")
	f.mkdirs("/dev")
	f.mkdirs("/proc/self")
	exe := s.sc.Exe
	if exe == "" {
		exe = "/opt/typeshell/tsh"
	}
	f.mkdirs(dirOf(exe))
	if f.lookupQuiet(exe) == nil {
		f.place(Node{Path: exe, Data: []byte("\x7fELF"), Mode: 0o755})
	}
	f.place(Node{Path: "/proc/self/exe", Kind: "l", Data: []byte(exe)})
	f.start = f.snapshot()
	return f
}

func (f *fsys) rand() uint64 {
	f.rng += 0x9E3779B97F4A7C15
	z := f.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (f *fsys) inode(kind string) *inode {
	n := &inode{ino: f.rand()%(1<<40) + 2, kind: kind, nlink: 1, mtime: f.s.sc.Clock - int64(f.rand()%(1<<50))}
	if kind == "d" {
		n.ents = map[string]*inode{}
	}
	return n
}

func dirOf(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

func baseOf(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

func (f *fsys) mkdirs(p string) *inode {
	n := f.root
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		m := n.ents[c]
		if m == nil {
			m = f.inode("d")
			m.mode = 0o755
			n.ents[c] = m
		}
		n = m
		if n.kind != "d" {
			return n
		}
	}
	return n
}

func (f *fsys) place(nd Node) {
	if nd.Kind == "d" {
		n := f.mkdirs(nd.Path)
		if nd.Mode != 0 {
			n.mode = nd.Mode & 0o777
		}
		return
	}
	d := f.mkdirs(dirOf(nd.Path))
	if d.kind != "d" {
		return
	}
	if nd.Kind == "h" { // another name of a file placed before
		if n := f.lookupQuiet(string(nd.Data)); n != nil {
			n.nlink++
			d.ents[baseOf(nd.Path)] = n
		}
		return
	}
	n := f.inode(nd.Kind)
	n.data = append([]byte(nil), nd.Data...)
	n.mode = nd.Mode & 0o777
	if nd.Mode == 0 {
		n.mode = 0o644
	}
	d.ents[baseOf(nd.Path)] = n
}

func (f *fsys) snapshot() map[string]Node {
	m := map[string]Node{}
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		if n.kind == "d" {
			if p != "" {
				m[p] = Node{Path: p, Kind: "d", Mode: n.mode}
			}
			for k, c := range n.ents {
				walk(p+"/"+k, c)
			}
			return
		}
		m[p] = Node{Path: p, Kind: n.kind, Data: append([]byte(nil), n.data...), Mode: n.mode}
	}
	walk("", f.root)
	return m
}

// changed lists the entries that differ from the initial disk; a removed one
// has kind "gone".
func (f *fsys) changed() []Node {
	now := f.snapshot()
	var out []Node
	for p, n := range now {
		if o, ok := f.start[p]; !ok || o.Kind != n.Kind || !bytes.Equal(o.Data, n.Data) || o.Mode != n.Mode {
			out = append(out, n)
		}
	}
	for p := range f.start {
		if _, ok := now[p]; !ok {
			out = append(out, Node{Path: p, Kind: "gone"})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Path < out[j].Path })
	return out
}

func (f *fsys) abs(dirfd int, p string) (string, error) {
	if p == "" {
		return "", syscall.ENOENT
	}
	if p[0] == '/' {
		return p, nil
	}
	if dirfd == -100 {
		return f.cwd + "/" + p, nil
	}
	o := f.fds[dirfd]
	if o == nil || o.closed {
		return "", syscall.EBADF
	}
	return o.path + "/" + p, nil
}

// walk resolves an absolute path to (parent, name, inode or nil, clean path).
func (f *fsys) walk(p string, follow bool, depth int) (dir *inode, name string, n *inode, clean string, err error) {
	if depth > 40 {
		return nil, "", nil, "", syscall.ELOOP
	}
	comps := []string{}
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			comps = append(comps, c)
		}
	}
	trailing := strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.")
	stack := []*inode{f.root}
	names := []string{}
	for i := 0; i < len(comps); i++ {
		c := comps[i]
		d := stack[len(stack)-1]
		if d.kind != "d" {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, "", syscall.ENAMETOOLONG
		}
		if d.mode&0o100 == 0 {
			return nil, "", nil, "", syscall.EACCES
		}
		last := i == len(comps)-1
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		m := d.ents[c]
		if m == nil {
			if last {
				return d, c, nil, "/" + strings.Join(append(names, c), "/"), nil
			}
			return nil, "", nil, "", syscall.ENOENT
		}
		if m.kind == "l" && (!last || follow || trailing) {
			target := string(m.data)
			if !strings.HasPrefix(target, "/") {
				target = "/" + strings.Join(names, "/") + "/" + target
			}
			rest := strings.Join(comps[i+1:], "/")
			if rest != "" {
				target += "/" + rest
			}
			return f.walk(target, follow, depth+1)
		}
		stack = append(stack, m)
		names = append(names, c)
	}
	n = stack[len(stack)-1]
	if trailing && n.kind != "d" {
		return nil, "", nil, "", syscall.ENOTDIR
	}
	clean = "/" + strings.Join(names, "/")
	if len(stack) > 1 {
		return stack[len(stack)-2], names[len(names)-1], n, clean, nil
	}
	return nil, "", n, "/", nil
}

func (f *fsys) lookupQuiet(p string) *inode {
	_, _, n, _, err := f.walk(p, true, 0)
	if err != nil {
		return nil
	}
	return n
}

// mutate applies what another party does to the disk.
func (f *fsys) mutate(m *Mutation) {
	switch m.Kind {
	case "write":
		// A new file takes the place of the old one, as an editor does.
		d := f.mkdirs(dirOf(m.Path))
		if d.kind == "d" {
			n := f.inode("")
			n.data = append([]byte(nil), m.Data...)
			n.mode = 0o644
			d.ents[baseOf(m.Path)] = n
		}
	case "overwrite":
		if n := f.lookupQuiet(m.Path); n != nil && n.kind == "" {
			n.data = append([]byte(nil), m.Data...)
		}
	case "rm":
		if d, name, n, _, err := f.walk(m.Path, false, 0); err == nil && n != nil && d != nil {
			delete(d.ents, name)
		}
	case "mkdir":
		if d, name, n, _, err := f.walk(m.Path, false, 0); err == nil && d != nil {
			if n != nil {
				delete(d.ents, name)
			}
			f.mkdirs(m.Path)
		}
	case "mv":
		d, name, n, _, err := f.walk(m.Path, false, 0)
		if err == nil && n != nil && d != nil {
			d2 := f.mkdirs(dirOf(m.Path2))
			if d2.kind == "d" {
				delete(d.ents, name)
				d2.ents[baseOf(m.Path2)] = n
			}
		}
	case "link":
		d := f.mkdirs(dirOf(m.Path))
		if d.kind == "d" {
			n := f.inode("l")
			n.data = []byte(m.Path2)
			d.ents[baseOf(m.Path)] = n
		}
	case "chmod":
		if n := f.lookupQuiet(m.Path); n != nil {
			n.mode = m.Mode & 0o777
		}
	}
	f.record(m.Path)
	if m.Path2 != "" {
		f.record(m.Path2)
	}
}

// record logs the state of one path after a change (process mode).
func (f *fsys) record(p string) {
	if !f.s.proc {
		return
	}
	_, _, n, clean, err := f.walk(p, false, 0)
	if err != nil {
		return
	}
	f.recordInode(clean, n)
}

func (f *fsys) recordInode(p string, n *inode) {
	if !f.s.proc {
		return
	}
	if n == nil {
		f.s.emit("GONE " + base64.StdEncoding.EncodeToString([]byte(p)))
		return
	}
	kind := n.kind
	if kind == "" {
		kind = "f"
	}
	f.s.emit(fmt.Sprintf("STATE %s %s %o %s", base64.StdEncoding.EncodeToString([]byte(p)), kind, n.mode, base64.StdEncoding.EncodeToString(n.data)))
}

var errnos = map[string]syscall.Errno{
	"ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES, "EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ENOMEM": syscall.ENOMEM, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT,
	"ESTALE": syscall.ESTALE, "ELOOP": syscall.ELOOP, "ENOTDIR": syscall.ENOTDIR, "EISDIR": syscall.EISDIR, "EFBIG": syscall.EFBIG,
	"ENAMETOOLONG": syscall.ENAMETOOLONG, "ETXTBSY": syscall.ETXTBSY, "EPERM": syscall.EPERM, "EBUSY": syscall.EBUSY,
	"EEXIST": syscall.EEXIST, "EXDEV": syscall.EXDEV, "EAGAIN": syscall.EAGAIN, "ENODEV": syscall.ENODEV,
}

// effect is what the fault plan does to one operation.
type effect struct {
	err   error
	short int64
	torn  int64
	torne error
	flip  int64
	crash bool // after the operation
	on    bool
}

// ours reports whether the calling goroutine is the simulated party.
func ours() *sim {
	s := cur
	if s == nil || s.cur == nil {
		return nil
	}
	return s
}

// op announces one operation on the disk: it advances the clock, gives the
// scheduler a chance to preempt, and consults the fault plan.
func (f *fsys) op(name, path string) effect {
	s := f.s
	s.ops++
	lat := int64(1000 + f.rand()%200000)
	s.simns += lat
	if t := s.cur; t != nil {
		t.ops++
		if t.inCall && s.sc.OpBudget > 0 && t.ops-t.opsBase > s.sc.OpBudget && t.abort == "" && zzGoid() == t.goid {
			t.abort = fmt.Sprintf("still running after %d disk operations", s.sc.OpBudget)
			if s.proc {
				s.emit("HANG " + t.abort)
				exitReal(98)
			}
			runtime.Goexit()
		}
	}
	ticks += 10
	if ticks >= nextEvent {
		event()
	}
	e := effect{short: -1, torn: -1, flip: -1}
	for i := range s.sc.Faults {
		ft := &s.sc.Faults[i]
		if ft.Op != "" && !matchOp(ft.Op, name) || ft.Path != "" && ft.Path != path {
			continue
		}
		s.matches[i]++
		if s.matches[i] != ft.Nth && !(ft.Sticky && s.matches[i] > ft.Nth) {
			continue
		}
		// A signal interrupts a call now and then, not for ever: Go retries
		// interrupted calls without a limit, and that is not a hang.
		if ft.Kind == "EINTR" && s.matches[i] >= ft.Nth+4 {
			continue
		}
		e.on = true
		switch ft.Kind {
		case "short":
			if name != "read" && name != "pread" && name != "write" && name != "pwrite" {
				continue
			}
			e.short = ft.Arg
		case "torn":
			if name != "write" && name != "pwrite" {
				continue
			}
			e.torn = ft.Arg
			e.torne = errnos[ft.Errno]
		case "flip":
			if name != "read" && name != "pread" {
				continue
			}
			e.flip = ft.Arg
		case "mut":
			f.mutate(ft.Mut)
		case "crash":
			s.note("fault crash before " + name + " " + path)
			s.emit("FIRED crash")
			if s.proc {
				exitReal(137)
			}
		case "crashafter":
			e.crash = true
		default:
			en, ok := errnos[ft.Kind]
			if !ok {
				s.trouble = "unknown fault kind " + ft.Kind
				continue
			}
			if name == "seek" || name == "close" && en == syscall.EINTR {
				continue
			}
			e.err = en
		}
		k := ft.Kind + "@" + name
		s.fired[k]++
		s.note("fault " + k + " " + path)
		if s.proc {
			s.emit("FIRED " + k)
		}
	}
	return e
}

func matchOp(want, name string) bool {
	switch want {
	case "anyread":
		return name == "read" || name == "pread"
	case "anywrite":
		return name == "write" || name == "pwrite"
	}
	return want == name
}

func exitReal(code int) {
	syscall.ZZ = nil
	syscall.Exit(code)
}

// done logs the outcome of an operation.
func (f *fsys) done(e effect, name, path string, n int, err error) {
	if err == nil {
		f.s.note(fmt.Sprintf("%s %s %d", name, path, n))
	} else {
		f.s.note(fmt.Sprintf("%s %s %v", name, path, err))
	}
	if f.s.sc.Trace && !f.s.proc {
		f.s.optrace = append(f.s.optrace, name+" "+path)
	}
	if f.s.proc {
		f.s.emit("OP " + name + " " + base64.StdEncoding.EncodeToString([]byte(path)))
	}
	if e.crash {
		f.s.emit("FIRED crashafter")
		exitReal(137)
	}
}

func (f *fsys) openat(dirfd int, path string, flags int, mode uint32) (int, error) {
	p, err := f.abs(dirfd, path)
	if err != nil {
		return -1, err
	}
	_, _, _, clean, werr := f.walk(p, flags&syscall.O_NOFOLLOW == 0, 0)
	if werr != nil {
		clean = p
	}
	e := f.op("open", clean)
	fd, err := f.open1(e, p, flags, mode)
	f.done(e, "open", clean, 0, err)
	return fd, err
}

func (f *fsys) open1(e effect, p string, flags int, mode uint32) (int, error) {
	if e.err != nil {
		return -1, e.err
	}
	nofollow := flags&syscall.O_NOFOLLOW != 0 || flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL
	dir, name, n, clean, err := f.walk(p, !nofollow, 0)
	if err != nil {
		return -1, err
	}
	acc := flags & syscall.O_ACCMODE
	if n == nil {
		if flags&syscall.O_CREAT == 0 || strings.HasSuffix(p, "/") {
			return -1, syscall.ENOENT
		}
		if dir.mode&0o200 == 0 {
			return -1, syscall.EACCES
		}
		n = f.inode("")
		n.mode = mode & 0o777 &^ 0o022
		n.mtime = f.s.now()
		dir.ents[name] = n
		f.recordInode(clean, n)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST
		}
		if n.kind == "l" {
			return -1, syscall.ELOOP
		}
		if n.kind == "d" && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return -1, syscall.EISDIR
		}
		if n.kind != "d" && flags&syscall.O_DIRECTORY != 0 {
			return -1, syscall.ENOTDIR
		}
		if acc != syscall.O_WRONLY && n.mode&0o400 == 0 || acc != syscall.O_RDONLY && n.mode&0o200 == 0 {
			return -1, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && n.kind == "" && len(n.data) > 0 {
			f.used -= int64(len(n.data))
			n.data = nil
			n.mtime = f.s.now()
			f.recordAll(n)
		}
	}
	fd := f.next
	f.next++
	f.fds[fd] = &openFile{n: n, flags: flags, path: clean}
	return fd, nil
}

// recordAll logs an inode's new state under every name it has.
func (f *fsys) recordAll(n *inode) {
	if !f.s.proc {
		return
	}
	var walk func(p string, d *inode)
	walk = func(p string, d *inode) {
		keys := make([]string, 0, len(d.ents))
		for k := range d.ents {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			c := d.ents[k]
			if c == n {
				f.recordInode(p+"/"+k, c)
			}
			if c.kind == "d" {
				walk(p+"/"+k, c)
			}
		}
	}
	walk("", f.root)
}

func (f *fsys) file(fd int) (*openFile, error) {
	o := f.fds[fd]
	if o == nil || o.closed {
		return nil, syscall.EBADF
	}
	return o, nil
}

func (f *fsys) readAt(name string, fd int, p []byte, off int64) (int, error) {
	o, err := f.file(fd)
	if err != nil {
		return -1, err
	}
	e := f.op(name, o.path)
	n, err := func() (int, error) {
		if e.err != nil {
			return -1, e.err
		}
		if o.n.kind == "d" {
			return -1, syscall.EISDIR
		}
		if o.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return -1, syscall.EBADF
		}
		at := off
		if name == "read" {
			at = o.off
		}
		if at >= int64(len(o.n.data)) {
			return 0, nil
		}
		c := o.n.data[at:]
		if e.short > 0 && int64(len(c)) > e.short {
			c = c[:e.short]
		}
		k := copy(p, c)
		if e.flip >= 0 && k > 0 {
			p[(e.flip>>3)%int64(k)] ^= 1 << (e.flip & 7)
		}
		if name == "read" {
			o.off += int64(k)
		}
		return k, nil
	}()
	f.done(e, name, o.path, n, err)
	return n, err
}

func (f *fsys) writeAt(name string, fd int, p []byte, off int64) (int, error) {
	o, err := f.file(fd)
	if err != nil {
		return -1, err
	}
	e := f.op(name, o.path)
	n, err := func() (int, error) {
		if e.err != nil {
			return -1, e.err
		}
		if o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return -1, syscall.EBADF
		}
		w := p
		var werr error
		if e.short > 0 && int64(len(w)) > e.short {
			w = w[:e.short]
		}
		if e.torn >= 0 {
			if int64(len(w)) > e.torn {
				w = w[:e.torn]
			}
			if len(w) == 0 {
				return -1, e.torne
			}
			// A torn write reports the short count; the next one fails.
			f.s.sc.Faults = append(f.s.sc.Faults, Fault{Nth: 1, Op: "anywrite", Path: o.path, Kind: errName(e.torne), Sticky: true})
			f.s.matches = append(f.s.matches, 0)
		}
		if f.s.sc.Space > 0 && f.used+int64(len(w)) > f.s.sc.Space {
			k := f.s.sc.Space - f.used
			if k <= 0 {
				f.s.fired["ENOSPC@space"]++
				f.s.emit("FIRED ENOSPC@space")
				return -1, syscall.ENOSPC
			}
			w = w[:k]
		}
		at := off
		if name == "write" {
			at = o.off
			if o.flags&syscall.O_APPEND != 0 {
				at = int64(len(o.n.data))
			}
		}
		if need := at + int64(len(w)); need > int64(len(o.n.data)) {
			f.used += need - int64(len(o.n.data))
			nd := make([]byte, need)
			copy(nd, o.n.data)
			o.n.data = nd
		}
		copy(o.n.data[at:], w)
		o.n.mtime = f.s.now()
		if name == "write" {
			o.off = at + int64(len(w))
		}
		f.recordAll(o.n)
		return len(w), werr
	}()
	f.done(e, name, o.path, n, err)
	return n, err
}

func errName(err error) string {
	for k, v := range errnos {
		if v == err {
			return k
		}
	}
	return "EIO"
}

func (f *fsys) fill(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = n.ino
	st.Nlink = uint64(n.nlink)
	st.Uid, st.Gid = 1000, 1000
	st.Size = int64(len(n.data))
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	switch n.kind {
	case "d":
		st.Mode = syscall.S_IFDIR | n.mode
		st.Size = 4096
	case "l":
		st.Mode = syscall.S_IFLNK | 0o777
	default:
		st.Mode = syscall.S_IFREG | n.mode
	}
	st.Mtim = syscall.NsecToTimespec(n.mtime)
	st.Ctim = st.Mtim
	st.Atim = st.Mtim
}

func (f *fsys) fstatat(dirfd int, path string, st *syscall.Stat_t, flags int) error {
	const atEmptyPath = 0x1000
	if path == "" && flags&atEmptyPath != 0 {
		return f.fstat(dirfd, st)
	}
	p, err := f.abs(dirfd, path)
	if err != nil {
		return err
	}
	follow := flags&0x100 == 0
	_, _, _, clean, werr := f.walk(p, follow, 0)
	if werr != nil {
		clean = p
	}
	e := f.op("stat", clean)
	err = e.err
	if err == nil {
		var n *inode
		_, _, n, _, err = f.walk(p, follow, 0)
		if err == nil && n == nil {
			err = syscall.ENOENT
		}
		if err == nil {
			f.fill(n, st)
		}
	}
	f.done(e, "stat", clean, 0, err)
	return err
}

func (f *fsys) fstat(fd int, st *syscall.Stat_t) error {
	o, err := f.file(fd)
	if err != nil {
		return err
	}
	e := f.op("fstat", o.path)
	if err = e.err; err == nil {
		f.fill(o.n, st)
	}
	f.done(e, "fstat", o.path, 0, err)
	return err
}

// edit runs an operation on a directory entry.
func (f *fsys) edit(name string, dirfd int, path string, follow bool, do func(dir *inode, base string, n *inode, clean string) error) error {
	p, err := f.abs(dirfd, path)
	if err != nil {
		return err
	}
	_, _, _, clean, werr := f.walk(p, follow, 0)
	if werr != nil {
		clean = p
	}
	e := f.op(name, clean)
	if err = e.err; err == nil {
		var dir, n *inode
		var base string
		dir, base, n, _, err = f.walk(p, follow, 0)
		if err == nil {
			err = do(dir, base, n, clean)
		}
	}
	f.done(e, name, clean, 0, err)
	return err
}

func (f *fsys) unsupported(name string) error {
	f.s.trouble = "unsupported system call " + name
	if f.s.proc {
		f.s.emit("TROUBLE unsupported system call " + name)
	}
	return syscall.ENOSYS
}

func (f *fsys) getdents(fd int, buf []byte) (int, error) {
	o, err := f.file(fd)
	if err != nil {
		return -1, err
	}
	e := f.op("getdents", o.path)
	n, err := func() (int, error) {
		if e.err != nil {
			return -1, e.err
		}
		if o.n.kind != "d" {
			return -1, syscall.ENOTDIR
		}
		if o.dents == nil {
			o.dents = []string{}
			for k := range o.n.ents {
				o.dents = append(o.dents, k)
			}
			sort.Strings(o.dents)
			for i := len(o.dents) - 1; i > 0; i-- { // directory order is arbitrary
				j := int(f.rand() % uint64(i+1))
				o.dents[i], o.dents[j] = o.dents[j], o.dents[i]
			}
		}
		n := 0
		for len(o.dents) > 0 {
			name := o.dents[0]
			reclen := (19 + len(name) + 1 + 7) &^ 7
			if n+reclen > len(buf) {
				break
			}
			c := o.n.ents[name]
			o.dents = o.dents[1:]
			if c == nil {
				continue
			}
			b := buf[n : n+reclen]
			for i := range b {
				b[i] = 0
			}
			binary.LittleEndian.PutUint64(b, c.ino)
			binary.LittleEndian.PutUint16(b[16:], uint16(reclen))
			b[18] = map[string]byte{"": 8, "d": 4, "l": 10}[c.kind]
			copy(b[19:], name)
			n += reclen
		}
		return n, nil
	}()
	f.done(e, "getdents", o.path, n, err)
	return n, err
}

var hooks *syscall.ZZHooks

func simFd(fd int) bool { return fd >= fdBase }

func makeHooks() *syscall.ZZHooks {
	fs := func() *fsys { return cur.fs }
	h := &syscall.ZZHooks{}
	h.Openat = func(dirfd int, path string, flags int, mode uint32) (int, error) {
		return fs().openat(dirfd, path, flags, mode)
	}
	h.Close = func(fd int) error {
		if !simFd(fd) {
			return syscall.ZZRealClose(fd)
		}
		f := fs()
		if t := f.s.cur; t == nil || zzGoid() != t.goid {
			if o := f.fds[fd]; o != nil {
				o.closed = true // a finaliser: not an event of the run
			}
			return nil
		}
		o, err := f.file(fd)
		if err != nil {
			return err
		}
		e := f.op("close", o.path)
		o.closed = true
		if e.err != nil && o.flags&syscall.O_ACCMODE != syscall.O_RDONLY && len(o.n.data) > 0 {
			// What the kernel had not yet stored is lost.
			f.resize(o.n, int64(len(o.n.data)/2))
		}
		f.done(e, "close", o.path, 0, e.err)
		return e.err
	}
	h.Read = func(fd int, p []byte) (int, error) {
		if !simFd(fd) {
			return syscall.ZZRealRead(fd, p)
		}
		return fs().readAt("read", fd, p, 0)
	}
	h.Write = func(fd int, p []byte) (int, error) {
		if !simFd(fd) {
			return syscall.ZZRealWrite(fd, p)
		}
		return fs().writeAt("write", fd, p, 0)
	}
	h.Pread = func(fd int, p []byte, off int64) (int, error) { return fs().readAt("pread", fd, p, off) }
	h.Pwrite = func(fd int, p []byte, off int64) (int, error) { return fs().writeAt("pwrite", fd, p, off) }
	h.Seek = func(fd int, off int64, whence int) (int64, error) {
		if !simFd(fd) {
			return syscall.ZZRealSeek(fd, off, whence)
		}
		o, err := fs().file(fd)
		if err != nil {
			return -1, err
		}
		switch whence {
		case 1:
			off += o.off
		case 2:
			off += int64(len(o.n.data))
		}
		if off < 0 {
			return -1, syscall.EINVAL
		}
		o.off = off
		o.dents = nil
		return off, nil
	}
	h.Fstat = func(fd int, st *syscall.Stat_t) error {
		if !simFd(fd) {
			return syscall.ZZRealFstat(fd, st)
		}
		return fs().fstat(fd, st)
	}
	h.Fstatat = func(dirfd int, path string, st *syscall.Stat_t, flags int) error {
		return fs().fstatat(dirfd, path, st, flags)
	}
	h.Ftruncate = func(fd int, length int64) error {
		f := fs()
		o, err := f.file(fd)
		if err != nil {
			return err
		}
		e := f.op("truncate", o.path)
		if err = e.err; err == nil {
			f.resize(o.n, length)
		}
		f.done(e, "truncate", o.path, 0, err)
		return err
	}
	h.Truncate = func(path string, length int64) error {
		f := fs()
		return f.edit("truncate", -100, path, true, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			if n.kind == "d" {
				return syscall.EISDIR
			}
			if n.mode&0o200 == 0 {
				return syscall.EACCES
			}
			f.resize(n, length)
			return nil
		})
	}
	h.Fallocate = func(fd int, mode uint32, off int64, l int64) error { return syscall.EOPNOTSUPP }
	h.Fchmod = func(fd int, mode uint32) error {
		f := fs()
		o, err := f.file(fd)
		if err != nil {
			return err
		}
		e := f.op("chmod", o.path)
		if err = e.err; err == nil {
			o.n.mode = mode & 0o777
			f.recordAll(o.n)
		}
		f.done(e, "chmod", o.path, 0, err)
		return err
	}
	h.Fchmodat = func(dirfd int, path string, mode uint32) error {
		f := fs()
		return f.edit("chmod", dirfd, path, true, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			n.mode = mode & 0o777
			f.recordAll(n)
			return nil
		})
	}
	h.Fchmodat2 = func(dirfd int, path string, mode uint32, flags int) error {
		return h.Fchmodat(dirfd, path, mode)
	}
	h.Fchown = func(fd, uid, gid int) error { return nil }
	h.Fchownat = func(dirfd int, path string, uid int, gid int, flags int) error {
		return fs().edit("chown", dirfd, path, true, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			return nil
		})
	}
	sync := func(name string) func(fd int) error {
		return func(fd int) error {
			f := fs()
			o, err := f.file(fd)
			if err != nil {
				return err
			}
			e := f.op(name, o.path)
			f.done(e, name, o.path, 0, e.err)
			return e.err
		}
	}
	h.Fsync = sync("fsync")
	h.Fdatasync = sync("fsync")
	h.SyncFileRange = func(fd int, off int64, n int64, flags int) error { return nil }
	h.Flock = func(fd int, how int) error { return nil }
	h.Unlinkat = func(dirfd int, path string, flags int) error {
		f := fs()
		return f.edit("unlink", dirfd, path, false, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			if dir == nil {
				return syscall.EBUSY
			}
			if dir.mode&0o200 == 0 {
				return syscall.EACCES
			}
			if flags&0x200 != 0 {
				if n.kind != "d" {
					return syscall.ENOTDIR
				}
				if len(n.ents) > 0 {
					return syscall.ENOTEMPTY
				}
			} else if n.kind == "d" {
				return syscall.EISDIR
			}
			delete(dir.ents, base)
			f.recordInode(clean, nil)
			return nil
		})
	}
	h.Mkdirat = func(dirfd int, path string, mode uint32) error {
		f := fs()
		return f.edit("mkdir", dirfd, path, false, func(dir *inode, base string, n *inode, clean string) error {
			if n != nil {
				return syscall.EEXIST
			}
			if dir.mode&0o200 == 0 {
				return syscall.EACCES
			}
			c := f.inode("d")
			c.mode = mode & 0o777 &^ 0o022
			dir.ents[base] = c
			f.recordInode(clean, c)
			return nil
		})
	}
	h.Renameat = func(odir int, opath string, ndir int, npath string) error {
		f := fs()
		np, err := f.abs(ndir, npath)
		if err != nil {
			return err
		}
		return f.edit("rename", odir, opath, false, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			d2, b2, n2, clean2, err := f.walk(np, false, 0)
			if err != nil {
				return err
			}
			if d2 == nil || dir == nil {
				return syscall.EBUSY
			}
			if dir.mode&0o200 == 0 || d2.mode&0o200 == 0 {
				return syscall.EACCES
			}
			if n2 != nil {
				if n2 == n {
					return nil
				}
				if n2.kind == "d" && n.kind != "d" {
					return syscall.EISDIR
				}
				if n2.kind != "d" && n.kind == "d" {
					return syscall.ENOTDIR
				}
				if n2.kind == "d" && len(n2.ents) > 0 {
					return syscall.ENOTEMPTY
				}
			}
			delete(dir.ents, base)
			d2.ents[b2] = n
			// One line in the log: a rename is atomic.
			f.recordRename(clean, clean2, n)
			return nil
		})
	}
	h.Linkat = func(odir int, opath string, ndir int, npath string, flags int) error {
		f := fs()
		np, err := f.abs(ndir, npath)
		if err != nil {
			return err
		}
		return f.edit("link", odir, opath, flags&0x400 != 0, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			d2, b2, n2, clean2, err := f.walk(np, false, 0)
			if err != nil {
				return err
			}
			if n2 != nil {
				return syscall.EEXIST
			}
			if n.kind == "d" {
				return syscall.EPERM
			}
			if d2.mode&0o200 == 0 {
				return syscall.EACCES
			}
			d2.ents[b2] = n
			n.nlink++
			f.recordInode(clean2, n)
			return nil
		})
	}
	h.Symlinkat = func(target string, dirfd int, path string) error {
		f := fs()
		return f.edit("symlink", dirfd, path, false, func(dir *inode, base string, n *inode, clean string) error {
			if n != nil {
				return syscall.EEXIST
			}
			if dir.mode&0o200 == 0 {
				return syscall.EACCES
			}
			c := f.inode("l")
			c.data = []byte(target)
			c.mode = 0o777
			dir.ents[base] = c
			f.recordInode(clean, c)
			return nil
		})
	}
	h.Readlinkat = func(dirfd int, path string, buf []byte) (int, error) {
		f := fs()
		k := -1
		err := f.edit("readlink", dirfd, path, false, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			if n.kind != "l" {
				return syscall.EINVAL
			}
			k = copy(buf, n.data)
			return nil
		})
		return k, err
	}
	access := func(dirfd int, path string, mode uint32) error {
		return fs().edit("access", dirfd, path, true, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			if mode<<6&0o700&^n.mode != 0 {
				return syscall.EACCES
			}
			return nil
		})
	}
	h.Faccessat = access
	h.Faccessat2 = func(dirfd int, path string, mode uint32, flags int) error { return access(dirfd, path, mode) }
	h.Utimensat = func(dirfd int, path string, times *[2]syscall.Timespec, flag int) error { return nil }
	h.Utimes = func(path string, times *[2]syscall.Timeval) error { return nil }
	h.Utime = func(path string, buf *syscall.Utimbuf) error { return nil }
	h.Futimesat = func(dirfd int, path string, times *[2]syscall.Timeval) error { return nil }
	h.Getcwd = func(buf []byte) (int, error) {
		f := fs()
		n := copy(buf, f.cwd)
		buf[n] = 0
		return n + 1, nil
	}
	h.Chdir = func(path string) error {
		f := fs()
		return f.edit("chdir", -100, path, true, func(dir *inode, base string, n *inode, clean string) error {
			if n == nil {
				return syscall.ENOENT
			}
			if n.kind != "d" {
				return syscall.ENOTDIR
			}
			f.cwd = clean
			return nil
		})
	}
	h.Fchdir = func(fd int) error {
		f := fs()
		o, err := f.file(fd)
		if err != nil {
			return err
		}
		if o.n.kind != "d" {
			return syscall.ENOTDIR
		}
		f.cwd = o.path
		return nil
	}
	h.Getdents = func(fd int, buf []byte) (int, error) {
		if !simFd(fd) {
			return syscall.ZZRealGetdents(fd, buf)
		}
		return fs().getdents(fd, buf)
	}
	fcntl := func(fd int, cmd int, arg int) (int, error) {
		f := fs()
		o, err := f.file(fd)
		if err != nil {
			return -1, err
		}
		switch cmd {
		case syscall.F_GETFL:
			return o.flags, nil
		case syscall.F_SETFL, syscall.F_SETFD:
			return 0, nil
		case syscall.F_GETFD:
			return 1, nil
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			nf := f.next
			f.next++
			f.fds[nf] = o
			return nf, nil
		}
		return -1, f.unsupported(fmt.Sprintf("fcntl %d", cmd))
	}
	h.Fcntl = func(fd int, cmd int, arg int) (int, error) {
		if !simFd(fd) {
			return syscall.ZZUnixFcntl(fd, cmd, arg)
		}
		return fcntl(fd, cmd, arg)
	}
	h.Dup = func(fd int) (int, error) {
		if !simFd(fd) {
			return syscall.ZZRealDup(fd)
		}
		return fcntl(fd, syscall.F_DUPFD, 0)
	}
	h.Dup2 = func(a, b int) error {
		if !simFd(a) {
			return syscall.ZZRealDup2(a, b)
		}
		return fs().unsupported("dup2")
	}
	h.Dup3 = func(a, b, c int) error {
		if !simFd(a) {
			return syscall.ZZRealDup3(a, b, c)
		}
		return fs().unsupported("dup3")
	}
	h.Getpid = func() int { return cur.pid }
	h.Getuid = func() int { return []int{0, 1000, 65534}[cur.sc.Seed/7%3] }
	h.Geteuid, h.Getgid, h.Getegid = h.Getuid, h.Getuid, h.Getuid
	h.Unset = func(key string) (string, bool) {
		vals := cur.sc.Unset
		if len(vals) == 0 || strings.HasPrefix(key, "GO") || key == "TZ" || key == "ZONEINFO" || key == "TMPDIR" {
			return "", false
		}
		x := cur.sc.Seed
		for i := 0; i < len(key); i++ {
			x = (x ^ uint64(key[i])) * 1099511628211
		}
		v := vals[(x>>20)%uint64(len(vals))]
		cur.note("env " + key)
		if v == "-" {
			return "", false
		}
		return v, true
	}
	h.Getppid = func() int { return 1 }
	h.Uname = func(u *syscall.Utsname) error {
		*u = syscall.Utsname{}
		for i, c := range "Linux" {
			u.Sysname[i] = int8(c)
		}
		for i, c := range fmt.Sprintf("host%d", cur.sc.Seed%97) {
			u.Nodename[i] = int8(c)
		}
		for i, c := range "6.1.0" {
			u.Release[i] = int8(c)
		}
		for i, c := range "x86_64" {
			u.Machine[i] = int8(c)
		}
		return nil
	}
	h.Sendfile = func(out int, in int, off *int64, count int) (int, error) {
		return -1, syscall.EINVAL
	}
	h.Splice = func(r int, ro *int64, w int, wo *int64, l int, fl int) (int64, error) { return -1, syscall.EINVAL }
	h.CopyFileRange = func(r int, ro *int64, w int, wo *int64, l int, fl int) (int, error) {
		return -1, syscall.ENOSYS
	}
	h.Statfs = func(path string, buf *syscall.Statfs_t) error { return syscall.ENOSYS }
	h.Fstatfs = func(fd int, buf *syscall.Statfs_t) error { return syscall.ENOSYS }
	h.Getxattr = func(path string, attr string, dest []byte) (int, error) { return -1, syscall.EOPNOTSUPP }
	h.Listxattr = func(path string, dest []byte) (int, error) { return -1, syscall.EOPNOTSUPP }
	h.Setxattr = func(path string, attr string, data []byte, flags int) error { return syscall.EOPNOTSUPP }
	h.Mknodat = func(dirfd int, path string, mode uint32, dev int) error { return fs().unsupported("mknod") }
	h.GetRandom = func(p []byte, flags uint32) (int, error) {
		f := fs()
		for i := range p {
			p[i] = byte(f.rand() >> 11)
		}
		return len(p), nil
	}
	return h
}

func (f *fsys) resize(n *inode, length int64) {
	nd := make([]byte, length)
	copy(nd, n.data)
	f.used += length - int64(len(n.data))
	n.data = nd
	f.recordAll(n)
}

func (f *fsys) recordRename(from, to string, n *inode) {
	if !f.s.proc {
		return
	}
	kind := n.kind
	if kind == "" {
		kind = "f"
	}
	e := base64.StdEncoding.EncodeToString
	f.s.emit(fmt.Sprintf("RENAME %s %s %s %o %s", e([]byte(from)), e([]byte(to)), kind, n.mode, e(n.data)))
}
