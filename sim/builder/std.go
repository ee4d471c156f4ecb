// Package builder builds the real TypeShell code, from /repo's working tree,
// onto the simulated operating system: the Go standard library's system call
// layer, its random source and its clock are replaced through -overlay.
package builder

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// sysFuncs are the functions of package syscall that get a hook.
var sysFuncs = []string{
	"faccessat", "faccessat2", "fchmodat", "fchmodat2", "linkat", "openat", "readlinkat", "symlinkat", "unlinkat", "utimensat",
	"Getcwd", "Chdir", "Close", "Dup", "Dup3", "Dup2", "Fallocate", "Fchdir", "Fchmod", "Fchownat", "Fdatasync", "Flock", "Fsync",
	"Getdents", "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Getegid", "Mkdirat", "Mknodat", "read", "write", "Fchown", "Fstat", "Ftruncate", "pread", "pwrite",
	"Renameat", "Seek", "sendfile", "Splice", "Truncate", "fstatat", "Uname", "Statfs", "Fstatfs", "Getxattr", "Listxattr",
	"Setxattr", "utimes", "Utime", "futimesat", "fcntl", "SyncFileRange",
}

// unixFuncs are the functions of internal/syscall/unix that bypass the above.
var unixFuncs = map[string][]string{
	"at.go":                   {"Unlinkat", "Openat", "Readlinkat", "Mkdirat", "Fchownat", "Renameat", "Linkat", "Symlinkat"},
	"at_fstatat.go":           {"Fstatat"},
	"copy_file_range_unix.go": {"CopyFileRange"},
	"getrandom.go":            {"GetRandom"},
	"fcntl_unix.go":           {"Fcntl"},
}

type sig struct{ name, params, results string }

func (s sig) args() string {
	var out []string
	for _, p := range strings.Split(s.params, ",") {
		f := strings.Fields(p)
		if len(f) > 0 {
			out = append(out, f[0])
		}
	}
	return strings.Join(out, ", ")
}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// renameFunc renames func name to zzreal_name in src and returns its signature.
func renameFunc(src *string, name string) (sig, error) {
	re := regexp.MustCompile(`(?m)^func ` + name + `\(([^)]*)\) ?((?:\([^)]*\))|(?:\w*)) ?\{`)
	m := re.FindStringSubmatchIndex(*src)
	if m == nil {
		return sig{}, fmt.Errorf("function %s not found", name)
	}
	s := sig{name: name, params: (*src)[m[2]:m[3]], results: (*src)[m[4]:m[5]]}
	*src = (*src)[:m[0]] + "func zzreal_" + name + (*src)[m[0]+len("func "+name):]
	return s, nil
}

func ret(results, call string) string {
	if strings.TrimSpace(results) == "" {
		return call + "; return"
	}
	return "return " + call
}

// stdOverlay writes the patched standard library files into dir and returns
// the replacement map.
func stdOverlay(goroot, dir string) (map[string]string, error) {
	rep := map[string]string{}
	read := func(rel string) (string, error) {
		b, err := os.ReadFile(filepath.Join(goroot, "src", rel))
		return string(b), err
	}
	put := func(rel, text string) error {
		dst := filepath.Join(dir, "std_"+strings.ReplaceAll(rel, "/", "_"))
		rep[filepath.Join(goroot, "src", rel)] = dst
		return os.WriteFile(dst, []byte(text), 0o644)
	}

	// Package syscall.
	src, err := read("syscall/zsyscall_linux_amd64.go")
	if err != nil {
		return nil, err
	}
	sigs := map[string]sig{}
	var hooks, wrappers strings.Builder
	for _, f := range sysFuncs {
		s, err := renameFunc(&src, f)
		if err != nil {
			return nil, fmt.Errorf("syscall: %w", err)
		}
		sigs[title(f)] = s
		fmt.Fprintf(&hooks, "\t%s func(%s) %s\n", title(f), s.params, s.results)
		fmt.Fprintf(&wrappers, "func %s(%s) %s {\n\tif h := ZZ; h != nil { %s }\n\t%s\n}\n", f, s.params, s.results,
			ret(s.results, "h."+title(f)+"("+s.args()+")"), ret(s.results, "zzreal_"+f+"("+s.args()+")"))
		fmt.Fprintf(&wrappers, "func ZZReal%s(%s) %s { %s }\n", title(f), s.params, s.results, ret(s.results, "zzreal_"+f+"("+s.args()+")"))
	}
	if err := put("syscall/zsyscall_linux_amd64.go", src); err != nil {
		return nil, err
	}

	// Package internal/syscall/unix.
	for file, funcs := range unixFuncs {
		usrc, err := read("internal/syscall/unix/" + file)
		if err != nil {
			return nil, err
		}
		for _, f := range funcs {
			s, err := renameFunc(&usrc, f)
			if err != nil {
				return nil, fmt.Errorf("internal/syscall/unix/%s: %w", file, err)
			}
			if _, known := sigs[f]; !known {
				hookParams := s.params
				if f == "GetRandom" {
					hookParams = "p []byte, flags uint32"
				}
				sigs[f] = s
				fmt.Fprintf(&hooks, "\t%s func(%s) %s\n", f, hookParams, s.results)
			}
			args := s.args()
			if f == "GetRandom" {
				args = "p, uint32(flags)"
			}
			usrc += fmt.Sprintf("\nfunc %s(%s) %s {\n\tif h := syscall.ZZ; h != nil { %s }\n\t%s\n}\n", f, s.params, s.results,
				ret(s.results, "h."+f+"("+args+")"), ret(s.results, "zzreal_"+f+"("+s.args()+")"))
			if f == "GetRandom" || f == "CopyFileRange" || f == "Fcntl" {
				// The simulator falls back to the real call through this hook point.
				usrc += fmt.Sprintf("\nfunc init() { syscall.ZZUnix%s = func(%s) %s { %s } }\n", f,
					map[bool]string{true: "p []byte, flags uint32", false: s.params}[f == "GetRandom"], s.results,
					ret(s.results, "zzreal_"+f+"("+map[bool]string{true: "p, GetRandomFlag(flags)", false: s.args()}[f == "GetRandom"]+")"))
			}
		}
		if err := put("internal/syscall/unix/"+file, usrc); err != nil {
			return nil, err
		}
	}
	// The environment: a variable that isn't set may be answered by the simulator.
	esrc, err := read("syscall/env_unix.go")
	if err != nil {
		return nil, err
	}
	if _, err := renameFunc(&esrc, "Getenv"); err != nil {
		return nil, fmt.Errorf("syscall: %w", err)
	}
	esrc += `
func Getenv(key string) (value string, found bool) {
	value, found = zzreal_Getenv(key)
	if h := ZZ; h != nil && !found && len(key) > 0 {
		return h.Unset(key)
	}
	return
}
`
	hooks.WriteString("\tUnset func(key string) (value string, found bool)\n")
	if err := put("syscall/env_unix.go", esrc); err != nil {
		return nil, err
	}
	zz := "package syscall\n\n// ZZHooks is the simulated kernel.\ntype ZZHooks struct {\n" + hooks.String() + "}\n\n" +
		"// ZZ is nil while the real kernel is in use.\nvar ZZ *ZZHooks\n\n" +
		"var ZZUnixGetRandom func(p []byte, flags uint32) (n int, err error)\n" +
		"var ZZUnixCopyFileRange func(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error)\n" +
		"var ZZUnixFcntl func(fd int, cmd int, arg int) (int, error)\n" +
		wrappers.String()
	if err := put("syscall/zz_sim.go", zz); err != nil {
		return nil, err
	}

	// The runtime's random source: map seeds, iteration order, temp names.
	src, err = read("runtime/rand.go")
	if err != nil {
		return nil, err
	}
	edits := [][2]string{
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif zzRandOn {\n\t\tif gp := getg(); gp != gp.m.g0 && gp != gp.m.gsignal {\n\t\t\treturn zzNext()\n\t\t}\n\t}\n\treturn zzrealRand()\n}\n\n//go:nosplit\nfunc zzrealRand() uint64 {\n"},
		{"mp.cheaprand = uint32(rand())", "mp.cheaprand = uint32(zzrealRand())"},
		{"mp.cheaprand64 = rand()", "mp.cheaprand64 = zzrealRand()"},
		{"\tglobalRand.state.Init(*seed)\n", "\tzzSeedFromEnv(seed)\n\tglobalRand.state.Init(*seed)\n"},
	}
	for _, e := range edits {
		if strings.Count(src, e[0]) != 1 {
			return nil, fmt.Errorf("runtime/rand.go: cannot find %q", e[0])
		}
		src = strings.Replace(src, e[0], e[1], 1)
	}
	src += `
var zzRandOn bool
var zzRandState uint64

//go:nosplit
func zzNext() uint64 {
	zzRandState += 0x9E3779B97F4A7C15
	z := zzRandState
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:linkname zzSetRand
func zzSetRand(state uint64, on bool) { zzRandState = state; zzRandOn = on }

//go:linkname zzGetRand
func zzGetRand() (uint64, bool) { return zzRandState, zzRandOn }

//go:linkname zzGoid
func zzGoid() uint64 { return getg().goid }

// zzSeedFromEnv pins every random choice of the process from its first
// instruction on when ZZSIM_SEED=<decimal> is in its environment.
func zzSeedFromEnv(seed *[32]byte) {
	n := int32(0)
	for argv_index(argv, argc+1+n) != nil {
		s := gostringnocopy(argv_index(argv, argc+1+n))
		n++
		const key = "ZZSIM_SEED="
		if len(s) <= len(key) || s[:len(key)] != key {
			continue
		}
		v := uint64(0)
		for i := len(key); i < len(s); i++ {
			v = v*10 + uint64(s[i]-'0')
		}
		zzRandState = v
		for i := range seed {
			seed[i] = byte(zzNext())
		}
		zzRandOn = true
		return
	}
}
`
	if err := put("runtime/rand.go", src); err != nil {
		return nil, err
	}

	// The number of processors.
	src, err = read("runtime/debug.go")
	if err != nil {
		return nil, err
	}
	for _, f := range [][2]string{{"NumCPU", "true"}, {"GOMAXPROCS", "n <= 0"}} {
		s, err := renameFunc(&src, f[0])
		if err != nil {
			return nil, fmt.Errorf("runtime: %w", err)
		}
		src += fmt.Sprintf("\nfunc %s(%s) %s {\n\tif zzCPUs > 0 && %s {\n\t\treturn zzCPUs\n\t}\n\treturn zzreal_%s(%s)\n}\n", f[0], s.params, s.results, f[1], f[0], s.args())
	}
	src += "\nvar zzCPUs int\n\n//go:linkname zzSetCPUs\nfunc zzSetCPUs(n int) { zzCPUs = n }\n"
	if err := put("runtime/debug.go", src); err != nil {
		return nil, err
	}

	// Regular expressions are immutable: compile each one once.  This only
	// makes simulated runs faster; random choices are the same either way.
	src, err = read("regexp/regexp.go")
	if err != nil {
		return nil, err
	}
	const compileBody = "\treturn compile(expr, syntax.Perl, false)\n"
	if strings.Count(src, compileBody) != 1 || !strings.Contains(src, "\nimport (\n") {
		return nil, fmt.Errorf("regexp/regexp.go: cannot find Compile")
	}
	src = strings.Replace(src, compileBody, "\treturn zzCompile(expr)\n", 1)
	src = strings.Replace(src, "\nimport (\n", "\nimport (\n\t_ \"unsafe\"\n\tzzsync \"sync\"\n", 1)
	src += `
//go:linkname zzGetRand runtime.zzGetRand
func zzGetRand() (uint64, bool)

//go:linkname zzSetRand runtime.zzSetRand
func zzSetRand(uint64, bool)

var zzMu zzsync.Mutex
var zzCache []*Regexp

func zzCompile(expr string) (*Regexp, error) {
	zzMu.Lock()
	for _, re := range zzCache {
		if re.expr == expr {
			zzMu.Unlock()
			return re, nil
		}
	}
	zzMu.Unlock()
	state, on := zzGetRand()
	re, err := compile(expr, syntax.Perl, false)
	zzSetRand(state, on)
	zzMu.Lock()
	if err == nil && len(zzCache) < 300 {
		zzCache = append(zzCache, re)
	}
	zzMu.Unlock()
	return re, err
}
`
	if err := put("regexp/regexp.go", src); err != nil {
		return nil, err
	}

	// The clock.
	src, err = read("time/time.go")
	if err != nil {
		return nil, err
	}
	const nowHead = "func Now() Time {\n"
	if strings.Count(src, nowHead) != 1 {
		return nil, fmt.Errorf("time/time.go: cannot find Now")
	}
	src = strings.Replace(src, nowHead, nowHead+"\tif ZZClock != nil {\n\t\tns := ZZClock()\n\t\treturn unixTime(ns/1e9, int32(ns%1e9))\n\t}\n", 1)
	src += "\n// ZZClock is the simulated clock, in nanoseconds since 1970, or nil.\nvar ZZClock func() int64\n"
	if err := put("time/time.go", src); err != nil {
		return nil, err
	}
	return rep, nil
}
