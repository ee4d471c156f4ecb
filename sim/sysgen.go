package main

import (
	"fmt"
	"slices"
	"strings"
	"syscall"
)

// Programs for system runs: one file, strings, files and commands. What the
// environment does is chosen in a dry run of the reference interpreter, which
// knows where the program waits and what it writes next.

type sgVar struct {
	n, t  string
	fixed bool // isn't assigned any more
	min   int  // slices: at least so many elements
	path  string
	ps    []string // the paths a slice holds
}

type sgen struct {
	r          *rng
	prop       string
	vars       []sgVar
	fns        []sgFn
	names      int
	locals     int // in the current function
	localNames []string
	taken      map[string]bool // by the file
	big        bool
	focus      string // the string this run is about
	paths      []string
	files      []sysFile
	infn       bool
	depth      int
	fuel       int
	links      map[string]string
	sure       map[string]bool // paths that exist for certain
	syncs      int
	mod        int
	inner      int             // loops whose body is made
	alias      string          // a symbolic link to one of the files, never written to
	tools      map[string]sgFn // functions that do one thing with their parameters
	mode       byte            // 'v' values, 'f' files, 'c' commands: what most statements are about
}

type sgFn struct {
	f      *lFn
	effect bool
	mod    int
}

const sgAlias = "lib"

func isStr(t string) bool { return t == "string" || t == "error" }

const printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// sysAlphabet is C08's alphabet.
const sysAlphabet = printable + "\n\t"

var sysSnips = []string{
	`"`, `'`, "`", `\`, `$`, `$HOME`, `${HOME}`, `$(touch pwned)`, "`touch pwned`", `*`, `?`, `[a-z]*`, `~`, `{a,b}`, `-n`, `-e`, `-`, `--`, `-ne`, ` `, "  ", "\n", "\t", `\n`, `\t`, `\\`, `\"`, `\$`,
	`%s`, `%d`, `%%`, `%`, `;`, `;touch pwned`, `&`, `&&`, `|`, `||`, `>pwned`, `<`, `>>pwned`, `#`, `!`, `!!`, `$1`, `$@`, `$*`, `$#`, `$?`, `$$`, `$_`, `${x}`, `$((1+1))`, `$[1+1]`, `$'a'`, `$"a"`,
	`a b`, ` a`, `a `, `"$x"`, `" touch pwned "`, `";touch pwned;"`, `';touch pwned;'`, `)`, `(`, `}`, `{`, `]`, `[`, `==`, `=`, `x=1`, `+1`, `1`, `0`, `00`, `08`, `-1`, `true`, `/`, `//`, `.`, `..`, `a"b"c`, `"a" "b"`, `\a\b\c\e\f\r\v\0\x41`, `\101`,
	`EOF`, "EOF\n", "a\nb", "\n\n", "\na", "a\n", "\ta\t", `a\`, `\ `, `'"'"'`, `$'\n'`, `@`, `^`, `^M`, `%1`, `in`, `do`, `done`, `fi`, `test`, `_h0`, `$_h0`, `${_h0}`, `!x`, `-a`, `-o`, `! -e`, `-eq 1`, `//c`, `/* x */`, "//", "a  b   c",
}

// sysOptions are values which some command takes for an option.
var sysOptions = []string{"-n", "-e", "-E", "-ne", "-nE", "-", "--", "-v", "-p", "-r", "-x", "-a", "-f", "-c", "-h", "--help", "-n x", "+x"}

func (g *sgen) str() string {
	r := g.r
	switch r.n(20) {
	case 0:
		return ""
	case 1, 2, 3:
		return g.focus
	case 4, 5, 6: // one character in first, middle, last and only position
		c := string(sysAlphabet[r.n(len(sysAlphabet))])
		return pick(r, []string{c, c + "ab", "a" + c + "b", "ab" + c, "a " + c + " b", c + c})
	case 7, 8, 9, 10:
		var b strings.Builder
		for n := 1 + r.n(14); n > 0; n-- {
			b.WriteByte(sysAlphabet[r.n(len(sysAlphabet))])
		}
		return b.String()
	case 11:
		var b strings.Builder
		for n := r.n(120); n > 0; n-- {
			b.WriteByte(sysAlphabet[r.n(len(sysAlphabet))])
		}
		return b.String()
	case 12:
		if r.p(40) {
			return pick(r, sysOptions)
		}
		fallthrough
	case 13:
		return pick(r, []string{"a", "abc", "x y", "12", "some text", "Zz9"})
	}
	s := ""
	for n := 1 + r.n(3); n > 0; n-- {
		s += pick(r, sysSnips)
		if r.p(20) {
			s += pick(r, []string{"a", " ", "0", "x1"})
		}
	}
	return s
}

func (g *sgen) lit(s string) *lEx {
	raw := int64(0)
	if g.r.p(30) {
		raw = 1
	}
	return &lEx{K: "str", S: s, I: raw}
}

func (g *sgen) fresh() string {
	g.names++
	r := g.r
	if g.infn { // the names of a function's variables are those of another's
		g.locals++
		n := fmt.Sprintf("%s%d_", pick(r, []string{"s", "t", "v"}), g.locals)
		if g.taken[n] {
			return g.fresh()
		}
		g.localNames = append(g.localNames, n)
		return n
	}
	if len(g.localNames) > 0 && r.p(15) {
		if n := pick(r, g.localNames); !g.taken[n] {
			g.taken[n] = true
			return n
		}
	}
	w := pick(r, []string{"s", "t", "text", "line", "val", "out", "msg", "data", "Key", "x", "y", "name", "a_b", "i_", "res", "str"})
	if r.p(10) {
		w = pick(r, []string{"path", "cmd", "args", "status", "reply", "echo", "read2", "p", "e", "n"})
	}
	return fmt.Sprintf("%s%d", w, g.names)
}

func (g *sgen) pick(ok func(v *sgVar) bool) *sgVar {
	var c []int
	for i := range g.vars {
		if ok(&g.vars[i]) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return nil
	}
	if g.r.p(50) { // what is new is the most interesting
		return &g.vars[c[len(c)-1-g.r.n(min(3, len(c)))]]
	}
	return &g.vars[pick(g.r, c)]
}

func (g *sgen) ofType(t string) *sgVar { return g.pick(func(v *sgVar) bool { return v.t == t }) }

func vr(n string) *lEx { return &lEx{K: "var", N: n} }

func num(i int) *lEx { return &lEx{K: "int", I: int64(i)} }

// sx is a string expression.
func (g *sgen) sx(depth int) *lEx {
	r := g.r
	if depth <= 0 {
		if v := g.ofType("string"); v != nil && r.p(55) {
			return vr(v.n)
		}
		return g.lit(g.str())
	}
	switch r.n(14) {
	case 0, 1, 2:
		return g.lit(g.str())
	case 3, 4, 5, 6:
		return g.sx(0)
	case 7, 8:
		return &lEx{K: "bin", S: "+", Args: []*lEx{g.sx(depth - 1), g.sx(depth - 1)}}
	case 9:
		if v := g.ofType("int"); v != nil {
			return &lEx{K: "itoa", Args: []*lEx{vr(v.n)}}
		}
	case 10:
		return &lEx{K: "group", Args: []*lEx{g.sx(depth - 1)}}
	case 11:
		if c := g.call("string", depth-1, false); c != nil {
			return c
		}
	case 12:
		if v := g.pick(func(v *sgVar) bool { return v.t == "[]string" && v.min > 0 }); v != nil {
			return &lEx{K: "idx", N: v.n, Args: []*lEx{num(r.n(v.min))}}
		}
	case 13:
		if p := g.surePath(); p != nil && (g.mode == 'f' || r.p(30)) {
			return g.readEx(p)
		}
	}
	return g.sx(0)
}

func (g *sgen) call(ret string, depth int, effect bool) *lEx {
	var c []sgFn
	for _, f := range g.fns {
		if f.effect != effect {
			continue
		}
		if ret == "" && (effect || len(f.f.Rets) == 0) || len(f.f.Rets) == 1 && (f.f.Rets[0] == ret || isStr(ret) && isStr(f.f.Rets[0])) || ret == "2" && len(f.f.Rets) == 2 {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return nil
	}
	fn := pick(g.r, c)
	f := fn.f
	e := &lEx{K: "call", N: f.N, Mod: fn.mod}
	if fn.mod != g.mod {
		e.Al = sgAlias
	}
	for _, p := range f.Ps {
		switch p.T {
		case "error":
			if g.r.p(30) {
				e.Args = append(e.Args, &lEx{K: "nil"})
				break
			}
			e.Args = append(e.Args, g.sx(depth))
		case "string":
			e.Args = append(e.Args, g.sx(depth))
		case "int":
			e.Args = append(e.Args, num(g.r.n(10)))
		case "[]string":
			if v := g.ofType("[]string"); v != nil && v.min >= 2 && g.r.p(60) {
				e.Args = append(e.Args, vr(v.n))
			} else {
				e.Args = append(e.Args, g.slice(2+g.r.n(3), depth))
			}
		}
	}
	return e
}

func (g *sgen) slice(n, depth int) *lEx {
	e := &lEx{K: "slice", S: "string"}
	for ; n > 0; n-- {
		e.Args = append(e.Args, g.sx(depth))
	}
	return e
}

// ------------------------------------------------------------------- paths

// Paths which are only looked for.
var sysOdd = []string{"/", "/dev/null", "//dev", "/proc/self/cwd", "..", "/nonexistent dir/x", "/dev/null/x", "../no such thing", "d/", "e f//", "ln/", "d/.", "ln/..", "./", "fi fo", "fi fo/", "a/", "my file/", "-n/", strings.Repeat("d/../", 600) + "d", strings.Repeat("n", 5000), "nodir/", "d/nodir/"}

var sysNames = []string{"a", "b.txt", "notes", "my file", "-n", "-rf", "--", `q"uote`, "$HOME", "`id`", "it's", "*", "a*b", "?", "~", "~root", "x;y", "&", ">", "a|b", "[ab]", "{a,b}", "#x", "!x", `back\slash`, "tab\tname", "new\nline", "%s", "trail ", " lead", "=", "(p)", "a b  c", "$(touch pwned)", "x\\", "a=b", "1", "-", "...", "<in", "\n", "!!", "'", "^", ",", "@", ":", "a:b", "+", "\\n", "$x", `"`}

func (g *sgen) setPaths() {
	r := g.r
	seen := map[string]bool{}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			g.paths = append(g.paths, p)
		}
	}
	n := 2 + r.n(3)
	for len(g.paths) < n {
		p := pick(r, sysNames)
		if r.p(25) {
			if s := strings.ReplaceAll(g.str(), "/", "_"); s != "" && s != "." && s != ".." && len(s) < 200 {
				p = s
			}
		}
		if p == "bin dir" || p == "d" || p == "e f" || p == "ln" {
			continue
		}
		switch r.n(5) {
		case 0:
			add("d/" + p)
		case 1:
			add("e f/" + p)
		default:
			add(p)
		}
	}
	g.files = append(g.files, sysFile{P: "d", K: "dir"}, sysFile{P: "e f", K: "dir"}, sysFile{P: "ln", K: "link", Data: "d"})
	for _, p := range g.paths {
		if r.p(45) {
			g.files = append(g.files, sysFile{P: p, Data: g.fileText()})
		}
	}
	if r.p(25) && !seen["fi fo"] {
		g.files = append(g.files, sysFile{P: "fi fo", K: "fifo"})
	}
	if f := pick(r, g.files); r.p(25) && f.K == "" && !seen["l k"] {
		g.alias = "l k"
		g.files = append(g.files, sysFile{P: "l k", K: "link", Data: f.P})
	}
	for n := r.n(3); n > 0; n-- { // bystanders
		p := pick(r, []string{"a", "pwn", "d/a", "e f/n", "-e", "0", "bystander", "b", "e", "f"})
		if !seen[p] {
			seen[p] = true
			g.files = append(g.files, sysFile{P: p, Data: g.fileText()})
		}
	}
}

// fileText is a file's content; whole lines more often than not.
func (g *sgen) fileText() string {
	r := g.r
	switch r.n(12) {
	case 0:
		return ""
	case 1:
		return "\n"
	case 2:
		return g.str() // maybe without a newline at the end
	case 3:
		return g.str() + "\n" + g.str() + "\n" + g.str() + "\n\n"
	case 4:
		if r.p(30) {
			return strings.Repeat(g.str()+"#\n", 1+r.n(300))
		}
	}
	s := g.str() + "\n"
	if r.p(40) {
		s += g.str() + "\n"
	}
	return s
}

// spell is one of the ways to write a path.
func (g *sgen) spell(p string) string {
	r := g.r
	if strings.HasPrefix(p, "d/") {
		switch r.n(9) {
		case 0:
			return "d//" + p[2:]
		case 1:
			return "ln/" + p[2:]
		case 2:
			return "e f/../" + p
		}
	}
	switch r.n(10) {
	case 0:
		return "./" + p
	case 1:
		return "d/../" + p
	case 2:
		return "/proc/self/cwd/" + p
	case 3:
		return ".//" + p
	}
	return p
}

// pathEx is an expression for a path, its value fixed.
func (g *sgen) pathEx(p string) *lEx {
	r := g.r
	if r.p(40) {
		if v := g.pick(func(v *sgVar) bool { return v.path == p }); v != nil {
			return vr(v.n)
		}
	}
	if r.p(30) {
		if v := g.pick(func(v *sgVar) bool { return slices.Contains(v.ps, p) }); v != nil {
			return &lEx{K: "idx", N: v.n, Args: []*lEx{num(slices.Index(v.ps, p))}}
		}
	}
	s := g.spell(p)
	if r.p(20) {
		if t := g.tool("Same", g.lit(s)); t != nil {
			return t
		}
	}
	if r.p(4) {
		return &lEx{K: "group", Args: []*lEx{g.lit(s)}}
	}
	if r.p(20) && len(s) > 1 {
		i := 1 + r.n(len(s)-1)
		return &lEx{K: "bin", S: "+", Args: []*lEx{g.lit(s[:i]), g.lit(s[i:])}}
	}
	return g.lit(s)
}

// tool is a call of one of the functions that only pass their parameters on.
func (g *sgen) tool(n string, args ...*lEx) *lEx {
	t, ok := g.tools[n]
	if !ok {
		return nil
	}
	e := &lEx{K: "call", N: n, Mod: t.mod, Args: args}
	if t.mod != g.mod {
		e.Al = sgAlias
	}
	return e
}

func (g *sgen) makeTools() []*lItem {
	p, s, a := vr("p"), vr("s"), vr("a")
	ps := func(ts ...string) (out []lPar) {
		for i, t := range ts {
			out = append(out, lPar{N: []string{"p", "s", "a"}[i], T: t})
		}
		return out
	}
	ret := func(e *lEx) []*lSt { return one(&lSt{K: "ret", Ex: []*lEx{e}}) }
	fs := []*lFn{
		{N: "Same", Ps: ps("string"), Rets: []string{"string"}, B: ret(p)},
		{N: "Put", Ps: ps("string", "string", "bool"), B: one(&lSt{K: "write", Ex: []*lEx{p, s, a}})},
		{N: "New", Ps: ps("string", "string"), B: one(&lSt{K: "write", Ex: []*lEx{p, s}})},
		{N: "Load", Ps: ps("string"), Rets: []string{"string"}, B: ret(&lEx{K: "read", Args: []*lEx{p}})},
		{N: "Has", Ps: ps("string"), Rets: []string{"bool"}, B: ret(&lEx{K: "exists", Args: []*lEx{p}})},
	}
	g.tools = map[string]sgFn{}
	var items []*lItem
	for _, f := range fs {
		if g.r.p(70) {
			if len(f.B) == 1 && f.N != "Same" && g.r.p(40) { // by way of a variable
				v := vr("v")
				at := &f.B[0].Ex[0]
				if f.N == "Load" || f.N == "Has" {
					at = &f.B[0].Ex[0].Args[0]
				}
				f.B = append(one(&lSt{K: "def", Ns: []string{"v"}, Ex: []*lEx{*at}}), f.B...)
				*at = v
			}
			g.tools[f.N] = sgFn{f: f, mod: g.mod}
			items = append(items, &lItem{Fn: f})
		}
	}
	return items
}

func (g *sgen) readEx(p *lEx) *lEx {
	if g.alias != "" && g.r.p(8) {
		p = g.lit(g.alias)
	}
	if g.r.p(15) {
		if t := g.tool("Load", p); t != nil {
			return t
		}
	}
	return &lEx{K: "read", Args: []*lEx{p}}
}

func (g *sgen) existsEx(p *lEx) *lEx {
	if g.alias != "" && g.r.p(6) {
		p = g.lit(g.alias)
	} else if g.r.p(6) {
		p = g.lit(pick(g.r, sysOdd))
	}
	if g.r.p(15) {
		if t := g.tool("Has", p); t != nil {
			return t
		}
	}
	return &lEx{K: "exists", Args: []*lEx{p}}
}

func (g *sgen) surePath() *lEx {
	var c []string
	for _, p := range g.paths {
		if g.sure[p] {
			c = append(c, p)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return g.pathEx(pick(g.r, c))
}

func (g *sgen) anyPath() string { return pick(g.r, g.paths) }

// ------------------------------------------------------------------- statements

func one(s *lSt) []*lSt { return []*lSt{s} }

func (g *sgen) unsure() { g.sure = map[string]bool{} }

func (g *sgen) sync(tag string) *lSt {
	g.syncs++
	g.unsure()
	return &lSt{K: "sync", S: fmt.Sprintf("%s%d", tag, g.syncs)}
}

// block is a scope of its own; what it makes sure of doesn't last.
func (g *sgen) block(depth, n int) []*lSt {
	nv := len(g.vars)
	old := g.sure
	g.sure = map[string]bool{}
	for p, b := range old {
		g.sure[p] = b
	}
	var out []*lSt
	for ; n > 0; n-- {
		out = append(out, g.stmts(depth-1)...)
	}
	syncs := len(g.sure) < len(old)
	for p := range old {
		syncs = syncs || !g.sure[p]
	}
	g.sure = old
	if syncs {
		g.unsure()
	}
	g.vars = g.vars[:nv]
	return out
}

func (g *sgen) def(t string, ex *lEx) []*lSt {
	n := g.fresh()
	s := &lSt{K: "def", Ns: []string{n}, Ex: []*lEx{ex}}
	if t == "string" {
		switch g.r.n(5) {
		case 0:
			s = &lSt{K: "var", Ns: []string{n}, T: "string", Ex: []*lEx{ex}}
		case 1:
			s = &lSt{K: "var", Ns: []string{n}, T: pick(g.r, []string{"string", "string", "error"})}
			g.vars = append(g.vars, sgVar{n: n, t: t})
			return []*lSt{s, {K: "asg", Ns: []string{n}, Ex: []*lEx{ex}}}
		}
	}
	g.vars = append(g.vars, sgVar{n: n, t: t})
	return one(s)
}

// mine are variables that may be assigned here: a function assigns its own only.
func (g *sgen) mine(t string) *sgVar {
	return g.pick(func(v *sgVar) bool { return v.t == t && !v.fixed })
}

func (g *sgen) stmts(depth int) []*lSt {
	if g.fuel--; g.fuel < 0 {
		return one(&lSt{K: "print", Ex: []*lEx{g.sx(1)}})
	}
	r := g.r
	k := g.mode
	if r.p(25) {
		k = pick(r, []byte{'v', 'f', 'c'})
	}
	var out []*lSt
	switch k {
	case 'f':
		out = g.fileStmts(depth)
	case 'c':
		out = g.cmdStmts(depth)
	default:
		out = g.valStmts(depth)
	}
	if r.p(4) {
		switch out[0].K { // the same statement twice in a row
		case "print", "run", "write", "expr", "asg", "cmpd":
			out = append(out[:1:1], out...)
		}
	}
	return out
}

func (g *sgen) valStmts(depth int) []*lSt {
	r := g.r
	if depth > 0 && r.p(30) {
		return g.compound(depth)
	}
	switch r.n(29) {
	case 28: // the whole or nothing of a string, which might be empty
		if v := g.pick(func(v *sgVar) bool { return isStr(v.t) }); v != nil {
			ln := &lEx{K: "len", Args: []*lEx{vr(v.n)}}
			e := pick(r, []*lEx{
				{K: "sub", N: v.n, S: "ab", Args: []*lEx{num(0), ln}},
				{K: "sub", N: v.n, S: "b", Args: []*lEx{num(0), ln}},
				{K: "sub", N: v.n, S: "a", Args: []*lEx{num(0), ln}},
				{K: "sub", N: v.n, Args: []*lEx{num(0), ln}},
				{K: "sub", N: v.n, Args: []*lEx{num(0), num(0)}},
				{K: "sub", N: v.n, S: "b", Args: []*lEx{ln, ln}},
			})
			if r.p(50) {
				return one(&lSt{K: "print", Ex: []*lEx{e, vr(v.n)}})
			}
			return g.def("string", e)
		}
	case 22: // several at once
		s := &lSt{K: "def"}
		if r.p(40) {
			s.K, s.T = "var", pick(r, []string{"string", "", "error"})
		}
		var nv []sgVar
		for n := 2 + r.n(2); n > 0; n-- {
			x := g.fresh()
			nv = append(nv, sgVar{n: x, t: "string"})
			s.Ns = append(s.Ns, x)
			s.Ex = append(s.Ex, g.sx(1))
		}
		g.vars = append(g.vars, nv...)
		return one(s)
	case 23: // the new values don't depend on the variables
		a, b := g.mine("string"), g.mine("string")
		if a == nil || b == nil || a.n == b.n {
			break
		}
		return one(&lSt{K: "asg", Ns: []string{a.n, b.n}, Ex: []*lEx{g.lit(g.str()), g.lit(g.str())}})
	case 24:
		if c := g.call("[]string", 1, false); c != nil {
			n := g.fresh()
			g.vars = append(g.vars, sgVar{n: n, t: "[]string", min: 2})
			return one(&lSt{K: "def", Ns: []string{n}, Ex: []*lEx{c}})
		}
	case 25:
		e := &lEx{K: "len", Args: []*lEx{g.sx(1)}}
		if r.p(30) {
			e = &lEx{K: "itoa", Args: []*lEx{e}}
		}
		return one(&lSt{K: "print", Ex: []*lEx{e}})
	case 26:
		return one(&lSt{K: "print", Ex: []*lEx{{K: "cmp", S: pick(r, []string{"==", "!="}), Args: []*lEx{g.sx(1), pick(r, []*lEx{{K: "nil"}, g.lit("")})}}}})
	case 27: // and again
		if v := g.pick(func(v *sgVar) bool { return isStr(v.t) }); v != nil {
			return one(&lSt{K: "print", Ex: []*lEx{vr(v.n), {K: "len", Args: []*lEx{vr(v.n)}}, {K: "cmp", S: "==", Args: []*lEx{vr(v.n), g.sx(0)}}}})
		}
	case 0, 1, 2, 3:
		s := &lSt{K: "print"}
		for n := 1 + r.n(2)*r.n(3); n > 0; n-- {
			if v := g.ofType("int"); v != nil && r.p(15) {
				s.Ex = append(s.Ex, vr(v.n))
			} else {
				s.Ex = append(s.Ex, g.sx(2))
			}
		}
		return one(s)
	case 4, 5, 6:
		return g.def("string", g.sx(2))
	case 7:
		if v := g.mine("string"); v != nil {
			return one(&lSt{K: "asg", Ns: []string{v.n}, Ex: []*lEx{g.sx(2)}})
		}
	case 8:
		if v := g.mine("string"); v != nil {
			return one(&lSt{K: "cmpd", Ns: []string{v.n}, S: "+=", Ex: []*lEx{g.sx(1)}})
		}
	case 9, 10:
		n := r.n(5)
		e := g.slice(n, 1)
		name := g.fresh()
		g.vars = append(g.vars, sgVar{n: name, t: "[]string", min: n})
		if n == 0 && r.p(50) {
			return one(&lSt{K: "var", Ns: []string{name}, T: "[]string"})
		}
		return one(&lSt{K: "def", Ns: []string{name}, Ex: []*lEx{e}})
	case 11, 12:
		v := g.pick(func(v *sgVar) bool { return v.t == "[]string" && !v.fixed })
		if v == nil {
			break
		}
		if r.p(30) { // append
			return one(&lSt{K: "sasg", Ns: []string{v.n}, Ex: []*lEx{{K: "len", Args: []*lEx{vr(v.n)}}, g.sx(1)}})
		}
		i := r.n(v.min + 3)
		v.min = max(v.min, i+1)
		return one(&lSt{K: "sasg", Ns: []string{v.n}, Ex: []*lEx{num(i), g.sx(1)}})
	case 13:
		if v := g.pick(func(v *sgVar) bool { return v.t == "[]string" && v.min > 0 }); v != nil {
			return one(&lSt{K: "print", Ex: []*lEx{{K: "idx", N: v.n, Args: []*lEx{num(r.n(v.min))}}, g.sx(0)}})
		}
	case 14:
		a, b := g.sx(1), g.sx(1)
		if r.p(40) {
			b = a
		}
		n := g.fresh()
		g.vars = append(g.vars, sgVar{n: n, t: "bool", fixed: true})
		return []*lSt{{K: "def", Ns: []string{n}, Ex: []*lEx{{K: "cmp", S: pick(r, []string{"==", "!="}), Args: []*lEx{a, b}}}}, {K: "print", Ex: []*lEx{vr(n)}}}
	case 15:
		if v := g.ofType("string"); v != nil {
			return one(&lSt{K: "print", Ex: []*lEx{{K: "len", Args: []*lEx{vr(v.n)}}}})
		}
	case 16:
		if c := g.call("2", 1, false); c != nil {
			a, b := g.fresh(), g.fresh()
			g.vars = append(g.vars, sgVar{n: a, t: "string"}, sgVar{n: b, t: "string"})
			return one(&lSt{K: "def", Ns: []string{a, b}, Ex: []*lEx{c}})
		}
	case 17:
		return g.input()
	case 18:
		return g.fileStmts(depth)
	case 19:
		return g.cmdStmts(depth)
	case 20:
		if s := g.effect(); s != nil {
			return s
		}
	case 21:
		// A second slice, copied.
		if v := g.pick(func(v *sgVar) bool { return v.t == "[]string" && v.min > 0 }); v != nil {
			n := g.fresh()
			out := []*lSt{{K: "var", Ns: []string{n}, T: "[]string"}}
			out = append(out, &lSt{K: "expr", Ex: []*lEx{{K: "copy", Args: []*lEx{vr(n), vr(v.n)}}}})
			g.vars = append(g.vars, sgVar{n: n, t: "[]string", min: v.min})
			return out
		}
	}
	return one(&lSt{K: "print", Ex: []*lEx{g.sx(2)}})
}

func (g *sgen) input() []*lSt {
	e := &lEx{K: "input"}
	if g.r.p(40) {
		e.Args = []*lEx{g.sx(0)}
	}
	return g.def("string", e)
}

func (g *sgen) effect() []*lSt {
	c := g.call("", 1, true)
	if c == nil {
		return nil
	}
	g.unsure()
	var f *lFn
	for _, x := range g.fns {
		if x.f.N == c.N && x.mod == c.Mod {
			f = x.f
		}
	}
	switch len(f.Rets) {
	case 0:
		return one(&lSt{K: "expr", Ex: []*lEx{c}})
	case 1:
		return g.def("string", c)
	}
	a, b := g.fresh(), g.fresh()
	g.vars = append(g.vars, sgVar{n: a, t: "string"}, sgVar{n: b, t: "string"})
	return one(&lSt{K: "def", Ns: []string{a, b}, Ex: []*lEx{c}})
}

func (g *sgen) compound(depth int) []*lSt {
	r := g.r
	switch r.n(12) {
	case 9: // a loop over the indices
		v := g.pick(func(v *sgVar) bool { return v.t == "[]string" || v.t == "string" && v.fixed })
		if v == nil {
			break
		}
		n, t, i := v.n, v.t, g.fresh()
		v.fixed = true
		e := &lEx{K: "idx", N: n, Args: []*lEx{vr(i)}}
		if t == "string" {
			ln, next := &lEx{K: "len", Args: []*lEx{vr(n)}}, &lEx{K: "bin", S: "+", Args: []*lEx{vr(i), num(1)}}
			e = pick(r, []*lEx{e, e,
				{K: "sub", N: n, Args: []*lEx{vr(i), next}},
				{K: "sub", N: n, Args: []*lEx{num(0), next}},
				{K: "sub", N: n, Args: []*lEx{vr(i), ln}},
				{K: "sub", N: n, S: "a", Args: []*lEx{num(0), vr(i)}},
				{K: "sub", N: n, S: "b", Args: []*lEx{vr(i), ln}},
			})
		}
		b := one(&lSt{K: "print", Ex: []*lEx{e}})
		if t == "[]string" && r.p(50) {
			b = append(b, &lSt{K: "sasg", Ns: []string{n}, Ex: []*lEx{vr(i), {K: "bin", S: "+", Args: []*lEx{e, g.sx(0)}}}})
		}
		nv := len(g.vars)
		g.vars = append(g.vars, sgVar{n: i, t: "int", fixed: true})
		g.unsure()
		b = append(b, g.loop(depth, r1(r))...)
		g.vars = g.vars[:nv]
		g.unsure()
		return one(&lSt{K: "for3", Init: &lSt{K: "def", Ns: []string{i}, Ex: []*lEx{num(0)}}, Ex: []*lEx{{K: "cmp", S: "<", Args: []*lEx{vr(i), {K: "len", Args: []*lEx{vr(n)}}}}}, Post: &lSt{K: "inc", Ns: []string{i}, S: "++"}, B: [][]*lSt{b}})
	case 10: // a switch of conditions
		s := &lSt{K: "switch", Ex: []*lEx{nil}}
		if r.p(40) {
			s.Ex[0] = &lEx{K: "bool", I: 1}
		}
		for n := 1 + r.n(2); n > 0; n-- {
			s.Ex = append(s.Ex, g.cond())
			s.B = append(s.B, g.block(depth, 1))
		}
		if r.p(60) {
			s.Else = true
			s.B = append(s.B, g.block(depth, 1))
		}
		return one(s)
	case 11: // over what a function returns
		if c := g.call("[]string", 1, false); c != nil {
			n := g.fresh()
			g.vars = append(g.vars, sgVar{n: n, t: "[]string", min: 2, fixed: true})
			return append(one(&lSt{K: "def", Ns: []string{n}, Ex: []*lEx{c}}), g.over(n, depth))
		}
	case 0, 1:
		s := &lSt{K: "if", Ex: []*lEx{g.cond()}}
		s.B = append(s.B, g.block(depth, 1+r.n(2)))
		if r.p(30) {
			s.Ex = append(s.Ex, g.cond())
			s.B = append(s.B, g.block(depth, 1+r.n(2)))
		}
		if r.p(50) {
			s.Else = true
			s.B = append(s.B, g.block(depth, 1+r.n(2)))
		}
		return one(s)
	case 2:
		v := g.ofType("string")
		if v == nil {
			break
		}
		s := &lSt{K: "switch", Ex: []*lEx{vr(v.n)}}
		n := 1 + r.n(3)
		for i := 0; i < n; i++ {
			s.Ex = append(s.Ex, g.sx(1))
		}
		if r.p(60) {
			s.Ex[1+r.n(n)] = vr(v.n)
		}
		for i := 0; i < n; i++ {
			s.B = append(s.B, g.block(depth, 1))
		}
		if r.p(60) {
			s.Else = true
			s.B = append(s.B, g.block(depth, 1))
		}
		return one(s)
	case 3: // guarded subscripts
		v := g.ofType("string")
		if v == nil {
			break
		}
		ln := &lEx{K: "len", Args: []*lEx{vr(v.n)}}
		a := r.n(3)
		b := a + r.n(4)
		gd := &lEx{K: "cmp", S: ">", Args: []*lEx{ln, num(b)}}
		x := g.fresh()
		g.vars = append(g.vars, sgVar{n: x, t: "string"})
		var in []*lSt
		in = append(in, &lSt{K: "asg", Ns: []string{x}, Ex: []*lEx{pick(r, []*lEx{
			{K: "idx", N: v.n, Args: []*lEx{num(b)}},
			{K: "idx", N: v.n, Args: []*lEx{num(a)}},
			{K: "sub", N: v.n, Args: []*lEx{num(a), num(b)}},
			{K: "sub", N: v.n, Args: []*lEx{num(a), ln}},
			{K: "sub", N: v.n, Args: []*lEx{num(0), num(b)}},
			{K: "sub", N: v.n, S: "a", Args: []*lEx{num(0), num(b)}},
			{K: "sub", N: v.n, S: "b", Args: []*lEx{num(a), ln}},
			{K: "sub", N: v.n, S: "ab", Args: []*lEx{num(0), ln}},
		})}})
		in = append(in, g.block(depth, r.n(2))...)
		return []*lSt{{K: "var", Ns: []string{x}, T: "string"}, {K: "if", Ex: []*lEx{gd}, B: [][]*lSt{in}}, {K: "print", Ex: []*lEx{vr(x)}}}
	case 4, 5: // over the characters of a string
		n := g.fresh()
		out := one(&lSt{K: "def", Ns: []string{n}, Ex: []*lEx{g.sx(1)}})
		g.vars = append(g.vars, sgVar{n: n, t: "string", fixed: true})
		return append(out, g.over(n, depth))
	case 6:
		if v := g.pick(func(v *sgVar) bool { return v.t == "[]string" }); v != nil {
			v.fixed = true
			return one(g.over(v.n, depth))
		}
	case 7, 8:
		i := g.fresh()
		nv := len(g.vars)
		g.vars = append(g.vars, sgVar{n: i, t: "int", fixed: true})
		s := &lSt{K: "for3", Init: &lSt{K: "def", Ns: []string{i}, Ex: []*lEx{num(0)}}, Ex: []*lEx{{K: "cmp", S: "<", Args: []*lEx{vr(i), num(1 + r.n(3))}}}, Post: &lSt{K: "inc", Ns: []string{i}, S: "++"}}
		g.unsure()
		s.B = [][]*lSt{g.loop(depth, 1+r.n(3))}
		g.vars = g.vars[:nv]
		g.unsure()
		return one(s)
	}
	return one(&lSt{K: "print", Ex: []*lEx{g.sx(2)}})
}

func (g *sgen) over(n string, depth int) *lSt {
	i, c := g.fresh(), g.fresh()
	nv := len(g.vars)
	g.vars = append(g.vars, sgVar{n: i, t: "int", fixed: true}, sgVar{n: c, t: "string", fixed: true})
	g.unsure()
	b := g.loop(depth, r1(g.r))
	b = append(one(&lSt{K: "print", Ex: []*lEx{vr(i), vr(c)}}), b...)
	g.vars = g.vars[:nv]
	g.unsure()
	return &lSt{K: "range", Ns: []string{i, c}, Ex: []*lEx{vr(n)}, B: [][]*lSt{b}}
}

func r1(r *rng) int { return r.n(2) }

// loop is the body of a loop, which may be left early.
func (g *sgen) loop(depth, n int) []*lSt {
	r := g.r
	if !r.p(25) {
		return g.block(depth, n)
	}
	out := g.block(depth, r.n(n+1))
	j := one(&lSt{K: "print", Ex: []*lEx{g.sx(0)}})[:r.n(2)]
	j = append(j, &lSt{K: pick(r, []string{"break", "continue"})})
	out = append(out, &lSt{K: "if", Ex: []*lEx{g.cond()}, B: [][]*lSt{j}})
	return append(out, g.block(depth, r.n(2))...)
}

func (g *sgen) cond() *lEx {
	r := g.r
	grp := func(e *lEx) *lEx { return &lEx{K: "group", Args: []*lEx{e}} }
	switch r.n(9) {
	case 6:
		return &lEx{K: "log", S: pick(r, []string{"&&", "||"}), Args: []*lEx{grp(g.cond()), grp(g.cond())}}
	case 7:
		return &lEx{K: "not", Args: []*lEx{grp(g.cond())}}
	case 8:
		return &lEx{K: "cmp", S: pick(r, []string{"==", "!=", "<", ">"}), Args: []*lEx{{K: "len", Args: []*lEx{g.sx(1)}}, num(r.n(6))}}
	case 0:
		if g.mode == 'f' {
			return g.existsEx(g.pathEx(g.anyPath()))
		}
	case 1:
		if v := g.ofType("bool"); v != nil {
			return vr(v.n)
		}
	case 2:
		if v := g.ofType("int"); v != nil {
			return &lEx{K: "cmp", S: pick(r, []string{"==", "<", "!="}), Args: []*lEx{vr(v.n), num(r.n(4))}}
		}
	}
	a, b := g.sx(1), g.sx(1)
	if r.p(40) {
		b = a
	}
	return &lEx{K: "cmp", S: pick(r, []string{"==", "!="}), Args: []*lEx{a, b}}
}

func (g *sgen) fileStmts(depth int) []*lSt {
	r := g.r
	if depth > 0 && r.p(20) {
		return g.compound(depth)
	}
	p := g.anyPath()
	write := func(p string, data *lEx) *lSt {
		s := &lSt{K: "write", Ex: []*lEx{g.pathEx(p), data}}
		switch r.n(7) {
		case 0, 1, 2:
			s.Ex = append(s.Ex, &lEx{K: "bool", I: 1})
		case 3:
			s.Ex = append(s.Ex, &lEx{K: "bool"})
		case 4:
			if v := g.ofType("bool"); v != nil {
				s.Ex = append(s.Ex, vr(v.n))
			} else {
				s.Ex = append(s.Ex, g.cond())
			}
		}
		return s
	}
	put := func(p string, data *lEx) *lSt {
		s := write(p, data)
		if r.p(20) {
			n := "Put"
			if len(s.Ex) == 2 {
				n = "New"
			}
			if t := g.tool(n, s.Ex...); t != nil {
				return &lSt{K: "expr", Ex: []*lEx{t}}
			}
		}
		return s
	}
	plain := func() *lEx {
		if r.p(15) {
			return g.lit(strings.Repeat(g.str()+"x", 1+r.n(200)))
		}
		return g.sx(0)
	}
	if !g.infn && depth > 1 && r.p(1) && !g.big { // more than an argument of a program can be
		g.big = true
		x := g.fresh()
		n, m := 900+r.n(400), 7
		e := vr(x)
		d := strings.Repeat(g.str()+"#", n)[:n]
		out := one(&lSt{K: "def", Ns: []string{x}, Ex: []*lEx{g.lit(d)}})
		for ; m > 0; m-- {
			out = append(out, &lSt{K: "asg", Ns: []string{x}, Ex: []*lEx{{K: "bin", S: "+", Args: []*lEx{e, e}}}})
		}
		g.sure[p] = true
		q := g.pathEx(p)
		return append(out, put(p, e), &lSt{K: "print", Ex: []*lEx{{K: "cmp", S: "==", Args: []*lEx{g.readEx(q), e}}, {K: "len", Args: []*lEx{e}}}}, &lSt{K: "write", Ex: []*lEx{q, g.sx(0)}})
	}
	switch r.n(28) {
	case 22, 23: // a write that may fail, read back at once
		tag := "wr"
		d := plain()
		out := one(g.sync(tag))
		w := write(p, d)
		e := g.lit(g.spell(p))
		if r.p(30) {
			if v := g.pick(func(v *sgVar) bool { return v.path == p }); v != nil {
				e = vr(v.n)
			}
		}
		x := g.fresh()
		g.syncs++
		s := &lSt{K: "wread", Ns: []string{x}, S: fmt.Sprintf("e%d", g.syncs), Ex: []*lEx{e, d}}
		if len(w.Ex) > 2 && w.Ex[2].K == "bool" {
			s.Ex = append(s.Ex, w.Ex[2])
		}
		g.unsure()
		g.vars = append(g.vars, sgVar{n: x, t: "string"})
		return append(out, s, &lSt{K: "print", Ex: []*lEx{vr(x)}})
	case 24, 25: // before and after
		e := g.pathEx(p)
		ex := func() *lSt { return &lSt{K: "print", Ex: []*lEx{g.existsEx(e)}} }
		out := one(ex())
		switch r.n(4) {
		case 0:
			out = append(out, put(p, g.sx(1)))
			g.sure[p] = true
		case 1:
			out = append(out, g.sync("e"))
		default:
			out = append(out, g.effect()...)
		}
		return append(out, ex())
	case 26, 27:
		e := g.surePath()
		if e == nil {
			break
		}
		a, b := g.fresh(), g.fresh()
		out := one(&lSt{K: "def", Ns: []string{a}, Ex: []*lEx{g.readEx(e)}})
		s := &lSt{K: "write", Ex: []*lEx{e, g.sx(0)}}
		if r.p(60) {
			s.Ex = append(s.Ex, &lEx{K: "bool", I: 1})
		}
		out = append(out, s, &lSt{K: "def", Ns: []string{b}, Ex: []*lEx{g.readEx(e)}}, &lSt{K: "print", Ex: []*lEx{vr(a), vr(b)}})
		g.vars = append(g.vars, sgVar{n: a, t: "string"}, sgVar{n: b, t: "string"})
		return out
	case 0, 1, 2, 3: // write and read back
		out := one(put(p, g.sx(2)))
		g.sure[p] = true
		if r.p(60) {
			out = append(out, &lSt{K: "print", Ex: []*lEx{g.readEx(g.pathEx(p))}})
		}
		return out
	case 4, 5, 6:
		s := put(p, g.sx(1))
		g.sure[p] = true
		return one(s)
	case 7, 8:
		return one(&lSt{K: "print", Ex: []*lEx{g.existsEx(g.pathEx(p))}})
	case 9, 10:
		b := &lSt{K: "print", Ex: []*lEx{g.readEx(g.pathEx(p)), g.sx(0)}}
		s := &lSt{K: "if", Ex: []*lEx{g.existsEx(g.pathEx(p))}, B: [][]*lSt{{b}}}
		if r.p(50) {
			s.Else = true
			s.B = append(s.B, one(&lSt{K: "print", Ex: []*lEx{g.lit("no")}}))
		}
		return one(s)
	case 11, 12:
		if e := g.surePath(); e != nil {
			return g.def("string", g.readEx(e))
		}
	case 13, 14, 15, 16: // a write while the environment misbehaves
		tag := "w"
		d := plain()
		if d.K == "str" || d.K == "var" {
			tag = "w!"
		}
		out := one(g.sync(tag))
		w := write(p, d)
		if len(w.Ex) > 2 && w.Ex[2].K != "bool" || w.Ex[0].K != "str" && w.Ex[0].K != "var" {
			w.Ex[0] = g.lit(g.spell(p))
			w.Ex = w.Ex[:2]
		}
		out = append(out, w)
		return append(out, g.sync("e"))
	case 17, 18: // a read of a slow file
		out := one(g.sync("e"))
		x := g.fresh()
		out = append(out, &lSt{K: "var", Ns: []string{x}, T: "string"})
		in := one(g.sync("r"))
		in = append(in, &lSt{K: "asg", Ns: []string{x}, Ex: []*lEx{g.readEx(g.pathEx(p))}}, g.sync("e"))
		out = append(out, &lSt{K: "if", Ex: []*lEx{g.existsEx(g.pathEx(p))}, B: [][]*lSt{in}})
		g.vars = append(g.vars, sgVar{n: x, t: "string"})
		return append(out, &lSt{K: "print", Ex: []*lEx{vr(x)}})
	case 19:
		return one(g.sync("e"))
	case 20:
		if !g.infn || r.p(50) {
			n := g.fresh()
			switch r.n(5) {
			case 0: // several
				v := sgVar{n: n, t: "[]string", fixed: true}
				e := &lEx{K: "slice", S: "string"}
				for m := 1 + r.n(3); m > 0; m-- {
					p := g.anyPath()
					v.ps = append(v.ps, p)
					e.Args = append(e.Args, g.lit(g.spell(p)))
				}
				v.min = len(v.ps)
				g.vars = append(g.vars, v)
				return one(&lSt{K: "def", Ns: []string{n}, Ex: []*lEx{e}})
			case 1: // what a program says
				a, b := g.fresh(), g.fresh()
				g.vars = append(g.vars, sgVar{n: n, t: "string", fixed: true, path: p})
				out := g.spell(p)
				if strings.HasSuffix(out, "\n") || r.p(50) {
					out += "\n"
				}
				return one(&lSt{K: "rundef", Ns: []string{n, a, b}, Ap: []*lApp{{Prog: "p1", Plan: &sysStage{Out: out}}}})
			case 2: // the middle of something
				sp := g.spell(p)
				w := g.fresh()
				g.vars = append(g.vars, sgVar{n: n, t: "string", fixed: true, path: p})
				x := g.str()
				return []*lSt{{K: "def", Ns: []string{w}, Ex: []*lEx{g.lit(x + sp + g.str())}},
					{K: "def", Ns: []string{n}, Ex: []*lEx{{K: "sub", N: w, Args: []*lEx{num(len(x)), num(len(x) + len(sp))}}}}}
			}
			s := one(&lSt{K: "def", Ns: []string{n}, Ex: []*lEx{g.lit(g.spell(p))}})
			g.vars = append(g.vars, sgVar{n: n, t: "string", fixed: true, path: p})
			return s
		}
	case 21:
		odd := pick(r, []string{"", "d", "e f", "nodir/x", ".", "ln", "d/nodir/y", strings.Repeat("n", 300)})
		if r.p(60) {
			return one(&lSt{K: "print", Ex: []*lEx{g.existsEx(g.lit(odd))}})
		}
		if odd == "nodir/x" || odd == "" {
			return one(&lSt{K: "write", Ex: []*lEx{g.lit(odd), g.sx(1)}})
		}
	}
	if s := g.effect(); s != nil {
		return s
	}
	s := put(p, g.sx(1))
	g.sure[p] = true
	return one(s)
}

func (g *sgen) payload() string {
	r := g.r
	switch r.n(12) {
	case 0:
		return ""
	case 1:
		return g.str()
	case 2:
		return g.str() + "\n\n"
	case 3:
		return "\n"
	case 4:
		if r.p(40) {
			return strings.Repeat(g.str()+"\n", 1+r.n(400))
		}
	case 5:
		if r.p(20) {
			return strings.Repeat("0123456789abcde\n", 4000+r.n(3000))
		}
	}
	return g.str() + "\n"
}

func (g *sgen) plan(last, first bool) *sysStage {
	r := g.r
	p := &sysStage{}
	if r.p(75) {
		p.Out = g.payload()
	}
	if r.p(55) {
		p.Exit = pick(r, []int{1, 2, 3, 126, 127, 128, 129, 130, 137, 141, 254, 255, r.n(256)})
	}
	if r.p(8) {
		p.Sig = int(pick(r, []syscall.Signal{syscall.SIGKILL, syscall.SIGTERM, syscall.SIGABRT, syscall.SIGSEGV, syscall.SIGINT, syscall.SIGHUP}))
		if p.Sig == int(syscall.SIGINT) {
			p.Sig = int(syscall.SIGKILL) // a shell takes it for its own
		}
	}
	if !first {
		p.Read = pick(r, []int{0, 0, 0, 1, 2})
		if p.Read == 2 {
			p.Max = 1 + r.n(40)
		}
	}
	p.Close = r.p(12)
	p.Ign = r.p(10)
	if r.p(15) {
		p.Err = g.str()
	}
	return p
}

// pipeline is 1 to 3 programs, rarely more, and usually of different names.
func (g *sgen) pipeline() []*lApp {
	r := g.r
	n := pick(r, []int{1, 1, 2, 2, 3})
	if r.p(3) {
		n = 4 + r.n(5)
	}
	var out []*lApp
	used := map[string]bool{}
	twice := n > 1 && r.p(15)
	for len(out) < n {
		a := &lApp{Prog: pick(r, sysProgs), Raw: r.p(25)}
		if r.p(10) {
			a.Prog = pick(r, []string{"bin dir/p5", "./bin dir/p5"})
		}
		if twice && len(out) > 0 && r.p(60) {
			a.Prog, a.Raw = pick(r, out).Prog, false
		}
		key := a.Prog[strings.LastIndexByte(a.Prog, '/')+1:]
		if used[key] && !twice {
			continue
		}
		used[key] = true
		switch a.Prog {
		case "p0", "p1", "p2", "prog", "UP", "f", "time":
			a.Id = r.p(60)
		}
		m := pick(r, []int{0, 1, 1, 2, 2, 3, 4, 5})
		if r.p(4) {
			m = 9 + r.n(40)
		}
		for ; m > 0; m-- {
			a.Ex = append(a.Ex, g.sx(r.n(2)))
		}
		a.Plan = g.plan(len(out)+1 == n, len(out) == 0)
		if twice && r.p(30) {
			a.Ex = nil
		} else if twice && r.p(40) {
			a.Ex = append([]*lEx(nil), pick(r, append(out, a)).Ex...)
		}
		if r.p(4) && !twice {
			a.Plan = &sysStage{Miss: pick(r, []string{"none", "noexec"})}
			a.Id = false
			a.Prog = "nosuch" + pick(r, []string{"", " one", "$x", "*"})
			if a.Plan.Miss == "noexec" {
				a.Prog = "noexec"
			}
		}
		out = append(out, a)
	}
	return out
}

func (g *sgen) cmdStmts(depth int) []*lSt {
	r := g.r
	if depth > 0 && r.p(20) {
		return g.compound(depth)
	}
	switch r.n(10) {
	case 0, 1, 2:
		return one(&lSt{K: "run", Ap: g.pipeline()})
	case 3, 4, 5, 6:
		a, b, c := g.fresh(), g.fresh(), g.fresh()
		out := one(&lSt{K: "rundef", Ns: []string{a, b, c}, S: pick(r, []string{"", "", "", "var"}), Ap: g.pipeline()})
		g.vars = append(g.vars, sgVar{n: a, t: "string"}, sgVar{n: c, t: "int"})
		if r.p(50) {
			out = append(out, &lSt{K: "print", Ex: []*lEx{vr(a), vr(c)}})
		}
		return out
	case 7:
		a, c := g.mine("string"), g.mine("int")
		if a == nil || c == nil {
			break
		}
		b := g.fresh()
		out := []*lSt{{K: "var", Ns: []string{b}, T: "string"}, {K: "runasg", Ns: []string{a.n, b, c.n}, Ap: g.pipeline()}}
		return append(out, &lSt{K: "print", Ex: []*lEx{vr(c.n), vr(a.n)}})
	case 8:
		if s := g.effect(); s != nil {
			return s
		}
	}
	return one(&lSt{K: "print", Ex: []*lEx{g.sx(1)}})
}

// function adds a function, with or without effects on the world.
func (g *sgen) function() *lFn {
	r := g.r
	f := &lFn{N: fmt.Sprintf("%s%d", pick(r, []string{"do", "F", "get", "put_", "h"}), len(g.fns))}
	if g.mod > 0 && r.p(80) {
		f.N = fmt.Sprintf("%s%d", pick(r, []string{"Do", "F", "Get"}), len(g.fns))
	} else if r.p(15) {
		n := pick(r, []string{"f", "p0", "prog", "time2", "UP", "cat", "printf", "command"})
		for _, x := range g.fns {
			if x.f.N == n && x.mod == g.mod {
				n = ""
			}
		}
		if n != "" {
			f.N = n
		}
	}
	if f.N == "cat" || f.N == "printf" || f.N == "command" {
		f.N += "_" // names of commands the emitted code needs itself
	}
	effect := r.p(50)
	outer, sure, infn, fuel := g.vars, g.sure, g.infn, g.fuel
	mode := g.mode
	locals := g.locals
	g.sure, g.infn, g.fuel, g.locals = map[string]bool{}, true, 5, 0
	g.vars = nil
	for _, v := range outer { // the variables of the file are only read
		v.fixed = true
		g.vars = append(g.vars, v)
	}
	n := r.n(4)
	if r.p(8) {
		n = 8 + r.n(6)
	}
	for ; n > 0; n-- {
		p := lPar{N: g.fresh(), T: pick(r, []string{"string", "string", "string", "string", "int", "[]string", "error"})}
		f.Ps = append(f.Ps, p)
		t := p.T
		if t == "error" {
			t = "string"
		}
		g.vars = append(g.vars, sgVar{n: p.N, t: t, fixed: p.T == "[]string" || p.T == "int", min: map[bool]int{true: 2}[p.T == "[]string"]})
	}
	if !effect {
		g.mode = 'p'
	}
	for n := 1 + r.n(3); n > 0; n-- {
		if effect {
			f.B = append(f.B, g.stmts(1)...)
		} else {
			f.B = append(f.B, g.pure()...)
		}
	}
	f.Rets = pick(r, [][]string{nil, {"string"}, {"string"}, {"string", "string"}, {"error"}, {"[]string"}})
	if effect && len(f.Rets) > 0 && f.Rets[0] == "[]string" {
		f.Rets = nil
	}
	if !effect && f.Rets == nil {
		f.Rets = []string{"string"}
	}
	if len(f.Rets) > 0 {
		ret := func() *lSt {
			s := &lSt{K: "ret"}
			for _, t := range f.Rets {
				switch {
				case t == "[]string":
					if v := g.pick(func(v *sgVar) bool { return v.t == "[]string" && v.min >= 2 }); v != nil && r.p(60) {
						s.Ex = append(s.Ex, vr(v.n))
					} else {
						s.Ex = append(s.Ex, &lEx{K: "slice", S: "string", Args: []*lEx{g.pureEx(), g.pureEx()}})
					}
				case t == "error" && r.p(30):
					s.Ex = append(s.Ex, &lEx{K: "nil"})
				default:
					s.Ex = append(s.Ex, g.pureEx())
				}
			}
			return s
		}
		if r.p(25) { // early
			f.B = append(f.B, &lSt{K: "if", Ex: []*lEx{{K: "cmp", S: pick(r, []string{"==", "!="}), Args: []*lEx{g.pureEx(), g.pureEx()}}}, B: [][]*lSt{one(ret())}})
		}
		f.B = append(f.B, ret())
	}
	g.vars, g.sure, g.infn, g.fuel, g.mode, g.locals = outer, sure, infn, fuel, mode, locals
	g.fns = append(g.fns, sgFn{f, effect, g.mod})
	return f
}

// pureEx doesn't touch files.
func (g *sgen) pureEx() *lEx {
	s := g.sure
	g.sure = map[string]bool{}
	e := g.sx(1)
	g.sure = s
	return e
}

// pure statements change nothing but local variables.
func (g *sgen) pure() []*lSt {
	r := g.r
	switch r.n(6) {
	case 0:
		if v := g.mine("string"); v != nil {
			return one(&lSt{K: "asg", Ns: []string{v.n}, Ex: []*lEx{g.pureEx()}})
		}
	case 1:
		if v := g.mine("string"); v != nil {
			return one(&lSt{K: "cmpd", Ns: []string{v.n}, S: "+=", Ex: []*lEx{g.pureEx()}})
		}
	case 2:
		n := g.fresh()
		e := &lEx{K: "slice", S: "string", Args: []*lEx{g.pureEx(), g.pureEx()}}
		g.vars = append(g.vars, sgVar{n: n, t: "[]string", min: 2})
		return one(&lSt{K: "def", Ns: []string{n}, Ex: []*lEx{e}})
	case 3:
		if v := g.mine("[]string"); v != nil && v.min > 0 {
			return one(&lSt{K: "sasg", Ns: []string{v.n}, Ex: []*lEx{num(g.r.n(v.min)), g.pureEx()}})
		}
	}
	return g.def("string", g.pureEx())
}

// ------------------------------------------------------------------- whole cases

func genSys(prop string, r *rng, i int) *sysCase {
	for try := 0; ; try++ {
		k := genSysOnce(prop, newRng(r.u64()), i)
		if k != nil {
			return k
		}
		if try > 300 {
			panic("no valid program")
		}
	}
}

func genSysOnce(prop string, r *rng, i int) *sysCase {
	g := &sgen{r: r, prop: prop, sure: map[string]bool{}, taken: map[string]bool{}, fuel: 9 + r.n(22)}
	g.mode = map[string]byte{"C08": 'v', "C17": 'f', "C18": 'c'}[prop]
	// Every run is about one character in one position, all of them in turn.
	ch := string(sysAlphabet[i%len(sysAlphabet)])
	g.focus = []string{ch, ch + "ab", "a" + ch + "b", "ab" + ch, ch + " " + ch, "a" + ch + ch}[(i/len(sysAlphabet))%6]
	g.setPaths()
	var items []*lItem
	tools := r.p(60)
	st := func(ss []*lSt) {
		for _, s := range ss {
			items = append(items, &lItem{St: s})
		}
	}
	mods := []*lMod{{Path: "/src/main.tsh", Style: r.fileStyle()}}
	if r.p(25) { // with functions of another file
		g.mod = 1
		if tools {
			items = append(items, g.makeTools()...)
			tools = false
		}
		for n := r.n(3); n > 0; n-- {
			st(g.def("string", g.sx(1)))
		}
		for n := 1 + r.n(3); n > 0; n-- {
			f := g.function()
			items = append(items, &lItem{Fn: f})
		}
		name := pick(r, []string{"lib.tsh", "my lib.tsh", "d/lib.tsh", "main2.tsh"})
		mods = append(mods, &lMod{Path: "/src/" + name, Style: r.fileStyle(), Items: items})
		mods[0].Imps = []lImp{{Al: sgAlias, P: name, To: 1}}
		var pub []sgFn
		for _, f := range g.fns {
			if publicName(f.f.N) {
				pub = append(pub, f)
			}
		}
		items, g.fns, g.vars, g.mod = nil, pub, nil, 0
		g.unsure()
	}
	if tools {
		items = append(items, g.makeTools()...)
	}
	for n := r.n(3); n > 0; n-- {
		st(g.def("string", g.sx(1)))
	}
	for n := r.n(4); n > 0; n-- {
		items = append(items, &lItem{Fn: g.function()})
	}
	for g.fuel > 0 {
		st(g.stmts(2))
	}
	if r.p(16) {
		e := g.sx(1)
		if r.p(25) {
			e = g.lit(pick(r, sysOptions))
		}
		st(one(&lSt{K: "panic", Ex: []*lEx{e}}))
	}
	mods[0].Items = items
	k := &sysCase{Prop: prop, Prog: &lProg{Mods: mods}, Files: g.files, Sched: r.u64(), Xfsz: pick(r, []string{"i", "i", "d"})}
	if k.Prog.check() != "" {
		return nil
	}
	if !k.rehearse(r, g) {
		return nil
	}
	return k
}

type sgSkip struct{}

// rehearse runs the program in the model alone, chooses what the environment
// does where, and says whether the program is fit for a run.
func (k *sysCase) rehearse(r *rng, g *sgen) (ok bool) {
	w := &sysRun{nodes: map[string]*sysNode{}, fired: map[string]int{}, probes: map[string]int{}, k: k}
	for _, f := range k.Files {
		w.nodes[f.P] = &sysNode{dir: f.K == "dir", fifo: f.K == "fifo", link: map[bool]string{true: f.Data}[f.K == "link"], data: []byte(f.Data)}
	}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case sysStop, sgSkip:
			ok = false
		default:
			panic(x)
		}
	}()
	calm := r.p(25) // no faults at all
	faulty := map[string]int{"C08": 15, "C17": 75, "C18": 30}[k.Prop]
	syncs, armed := 0, -1
	var bang, back bool
	inputs, printed := 0, 0
	var h *lHooks
	h = &lHooks{
		print: func(s string) {
			if printed += len(s); printed > 400_000 {
				panic(sgSkip{})
			}
		},
		exists: w.exists,
		read: func(p string) string {
			s := w.read(p)
			if printed += len(s); printed > 400_000 {
				panic(sgSkip{})
			}
			return s
		},
		sync: func(tag string) {
			id := syncs
			syncs++
			armed = -1
			if f := h.peek; f != nil {
				h.peek = nil
				f()
			}
			if calm {
				return
			}
			for n := r.n(3) * r.n(2); n > 0; n-- {
				a := sysAct{Sync: id, K: pick(r, []string{"put", "put", "add", "del", "mode", "mv"}), P: g.anyPath()}
				if r.p(15) {
					a.P = pick(r, k.Files).P
				}
				switch a.K {
				case "put", "add":
					a.Data = g.fileText()
				case "mode":
					a.N = pick(r, []int{0o600, 0o666, 0o755, 0o777, 0o400, 0o444, 0o500, 0o200, 0})
				case "mv":
					a.Q = g.anyPath()
				}
				k.Acts = append(k.Acts, a)
				// The model's part of it.
				n := w.nodes[a.P]
				file := n != nil && !n.dir && !n.fifo && n.link == ""
				switch {
				case a.K == "put" && (file || n == nil):
					w.nodes[a.P] = &sysNode{data: []byte(a.Data)}
				case a.K == "add" && file:
					n.data = append(append([]byte(nil), n.data...), a.Data...)
					n.deny = 0
				case a.K == "mode" && file:
					n.deny = 6 &^ (a.N >> 6)
				case a.K == "del" && file:
					delete(w.nodes, a.P)
				case a.K == "mv" && file && w.nodes[a.Q] == nil:
					w.nodes[a.Q] = n
					delete(w.nodes, a.P)
				}
			}
			switch {
			case tag[0] == 'w' && r.p(faulty):
				armed, bang, back = id, strings.HasPrefix(tag, "w!"), strings.HasPrefix(tag, "wr")
			case tag[0] == 'r' && r.p(faulty+10):
				k.Acts = append(k.Acts, sysAct{Sync: id, K: "slow", P: g.anyPath()})
			case r.p(2):
				k.Acts = append(k.Acts, sysAct{Sync: id, K: "kill"})
			}
		},
		write: func(p, d string, app bool) {
			if armed >= 0 {
				a := sysAct{Sync: armed, K: pick(r, []string{"fsize", "fsize", "fsize", "ro", "rodir", "isdir", "full", "nofile"})}
				if back { // the file can be read all the same
					a.K = pick(r, []string{"fsize", "fsize", "ro", "ro", "rodir"})
				}
				_, cp := w.node(p)
				a.P = cp
				if r.p(15) || cp == "" {
					a.P = g.anyPath()
				}
				switch a.K {
				case "fsize":
					old := 0
					if n := w.nodes[cp]; n != nil && app {
						old = len(n.data)
					}
					a.N = pick(r, []int{0, old, old + r.n(len(d)+2), old + len(d), old + len(d) + 1, r.n(old + 1)})
					a.P = ""
				case "nofile":
					a.P = ""
					if !bang {
						a.K = "ro"
						a.P = cp
					}
				case "rodir":
					if i := strings.LastIndexByte(cp, '/'); i > 0 {
						a.P = cp[:i]
					} else {
						a.K = "ro"
					}
				}
				k.Acts = append(k.Acts, a)
				armed = -1
				// The write may or may not happen; the rehearsal assumes that it does.
			}
			if printed += len(d); printed > 400_000 {
				panic(sgSkip{})
			}
			w.write(p, d, app)
			if n, _ := w.node(p); n != nil && len(n.data) > 200_000 {
				panic(sgSkip{})
			}
			if n, cp := w.node(p); n != nil && len(n.alts) > 0 {
				n.data, n.alts = n.alts[0].base, nil
				_ = cp
			}
		},
		input: func() string {
			inputs++
			if inputs > 30 {
				panic(sgSkip{})
			}
			s := strings.ReplaceAll(g.str(), "\n", " ")
			if r.p(8) { // a long line
				s = strings.Repeat(s+"#", 20+r.n(300))
				for r.p(60) && len(s) < 9000 {
					s += s
				}
			}
			k.Stdin = append(k.Stdin, s)
			return s
		},
		run: func(s *lSt, args [][]string, capture bool) (string, int64) {
			if !fitArgs(args) {
				panic(sgSkip{})
			}
			last := s.Ap[len(s.Ap)-1].Plan
			if printed += len(last.Out); printed > 400_000 {
				panic(sgSkip{})
			}
			return strings.TrimSuffix(last.Out, "\n"), int64(last.Exit)
		},
	}
	_, _, _, err := k.Prog.runIn(sysForks/4, h, 120000)
	if err != nil {
		return false
	}
	for n := r.n(3); n > 0 && inputs > 0; n-- {
		k.Stdin = append(k.Stdin, strings.ReplaceAll(g.str(), "\n", "\t"))
	}
	k.Open = r.p(20)
	return true
}

// fileStyle decides how a source file looks like.
func (r *rng) fileStyle() int {
	s := r.n(2)
	if r.p(8) {
		s |= 4 | r.n(64)<<5
	}
	if r.p(4) {
		s |= 8
	}
	if r.p(4) {
		s |= 16
	}
	return s
}
