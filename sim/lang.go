package main

import (
	"fmt"
	"path"
	"strconv"
	"strings"
)

// A small model of TypeShell: programs of several modules as data, their text,
// a check that they are valid, and a reference interpreter. Programs stay
// within the fragment whose meaning the README fixes, so the interpreter's
// output is what the linked program has to print.

type lEx struct {
	K    string `json:"k"` // int str bool var call std bin cmp log not group slice idx sub len itoa exists read
	I    int64  `json:"i,omitempty"`
	S    string `json:"s,omitempty"` // string value, operator, element type, std function
	N    string `json:"n,omitempty"` // variable, function
	Al   string `json:"al,omitempty"`
	Mod  int    `json:"m,omitempty"` // call: module of the function
	Args []*lEx `json:"a,omitempty"`
}

type lSt struct {
	K    string   `json:"k"` // def var asg cmpd inc sasg print if switch for3 while range expr ret panic app appdef write copy bad raw
	Ns   []string `json:"ns,omitempty"`
	T    string   `json:"t,omitempty"`
	S    string   `json:"s,omitempty"` // operator, raw text
	Ex   []*lEx   `json:"e,omitempty"`
	Init *lSt     `json:"init,omitempty"`
	Post *lSt     `json:"post,omitempty"`
	B    [][]*lSt `json:"b,omitempty"`
	Ap   []*lApp  `json:"ap,omitempty"`   // run: the stages of a pipeline
	Else bool     `json:"else,omitempty"` // if, switch: the last block is the else/default block
}

// lApp is one program call of a pipeline; what the program does is a plan of
// the simulator, not part of the source.
type lApp struct {
	Prog string    `json:"prog"`
	Id   bool      `json:"id,omitempty"` // the name is written as an identifier
	Raw  bool      `json:"raw,omitempty"`
	Ex   []*lEx    `json:"e,omitempty"`
	Plan *sysStage `json:"plan,omitempty"`
}

type lPar struct {
	N string `json:"n"`
	T string `json:"t"`
}

type lFn struct {
	N    string   `json:"n"`
	Ps   []lPar   `json:"p,omitempty"`
	Rets []string `json:"r,omitempty"`
	B    []*lSt   `json:"b"`
}

type lItem struct {
	Fn *lFn `json:"f,omitempty"`
	St *lSt `json:"s,omitempty"`
}

type lImp struct {
	Al  string `json:"al,omitempty"`
	P   string `json:"p"`  // as written
	To  int    `json:"to"` // module, -1: standard library
	Std string `json:"std,omitempty"`
}

type lMod struct {
	Path  string   `json:"path"` // absolute
	Imps  []lImp   `json:"imps,omitempty"`
	Items []*lItem `json:"items,omitempty"`
	Tail  string   `json:"tail,omitempty"`  // comment line at the end
	Style int      `json:"style,omitempty"` // 1 head, 2 short import, 4 comments, 8 CRLF, 16 no final newline, rest: which comments
}

type lProg struct {
	Mods []*lMod `json:"mods"`
}

// ---------------------------------------------------------------- rendering

func (e *lEx) text() string {
	args := func() string {
		var xs []string
		for _, a := range e.Args {
			xs = append(xs, a.text())
		}
		return strings.Join(xs, ", ")
	}
	switch e.K {
	case "int":
		return strconv.FormatInt(e.I, 10)
	case "str":
		return quoteText(e.S, e.I != 0)
	case "bool":
		return strconv.FormatBool(e.I != 0)
	case "nil":
		return "nil"
	case "var":
		return e.N
	case "call", "std":
		n := e.N
		if e.Al != "" {
			n = e.Al + "." + n
		}
		return n + "(" + args() + ")"
	case "bin", "cmp", "log":
		return e.Args[0].text() + " " + e.S + " " + e.Args[1].text()
	case "not":
		return "!" + e.Args[0].text()
	case "group":
		return "(" + e.Args[0].text() + ")"
	case "slice":
		return "[]" + e.S + "{" + args() + "}"
	case "idx":
		return e.N + "[" + e.Args[0].text() + "]"
	case "sub":
		a, b := e.Args[0].text(), e.Args[1].text()
		if strings.Contains(e.S, "a") {
			a = ""
		}
		if strings.Contains(e.S, "b") {
			b = ""
		}
		return e.N + "[" + a + ":" + b + "]"
	case "len", "itoa", "exists", "read", "input", "copy":
		return e.K + "(" + args() + ")"
	}
	panic("lEx " + e.K)
}

// quoteText writes a string literal; raw asks for backquotes where they can be used.
func quoteText(s string, raw bool) string {
	if raw && !strings.ContainsAny(s, "`\r") {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}

func (s *lSt) apps() string {
	var b strings.Builder
	for i, a := range s.Ap {
		if i > 0 {
			b.WriteString(" | ")
		}
		n := a.Prog
		if !a.Id {
			n = quoteText(n, a.Raw)
		}
		b.WriteString("@" + n + "(" + exTexts(a.Ex) + ")")
	}
	return b.String()
}

func exTexts(es []*lEx) string {
	var xs []string
	for _, e := range es {
		xs = append(xs, e.text())
	}
	return strings.Join(xs, ", ")
}

func (s *lSt) head() string {
	switch s.K {
	case "def":
		return strings.Join(s.Ns, ", ") + " := " + exTexts(s.Ex)
	case "var":
		t := "var " + strings.Join(s.Ns, ", ")
		if s.T != "" {
			t += " " + s.T
		}
		if len(s.Ex) > 0 {
			t += " = " + exTexts(s.Ex)
		}
		return t
	case "asg":
		return strings.Join(s.Ns, ", ") + " = " + exTexts(s.Ex)
	case "cmpd":
		return s.Ns[0] + " " + s.S + " " + s.Ex[0].text()
	case "inc":
		return s.Ns[0] + s.S
	case "sasg":
		return s.Ns[0] + "[" + s.Ex[0].text() + "] = " + s.Ex[1].text()
	case "print", "panic", "write", "copy":
		return s.K + "(" + exTexts(s.Ex) + ")"
	case "expr":
		return s.Ex[0].text()
	case "ret":
		return "return " + exTexts(s.Ex)
	case "app":
		return "@echo(" + exTexts(s.Ex) + ")"
	case "appdef":
		return strings.Join(s.Ns, ", ") + " := @echo(" + exTexts(s.Ex) + ")"
	case "run":
		return s.apps()
	case "rundef":
		if s.S == "var" {
			return "var " + strings.Join(s.Ns, ", ") + " = " + s.apps()
		}
		return strings.Join(s.Ns, ", ") + " := " + s.apps()
	case "runasg":
		return strings.Join(s.Ns, ", ") + " = " + s.apps()
	case "sync":
		return "@vsync(" + strconv.Quote(s.S) + ")"
	case "raw", "bad":
		return s.S
	case "break", "continue":
		return s.K
	}
	panic("lSt " + s.K)
}

func (s *lSt) render(b *strings.Builder, ind string) {
	if s.K == "wread" { // written, read back, and only then looked at
		b.WriteString(ind + "write(" + exTexts(s.Ex) + ")\n" + ind + s.Ns[0] + " := read(" + s.Ex[0].text() + ")\n" + ind + "@vsync(" + strconv.Quote(s.S) + ")\n")
		return
	}
	block := func(sts []*lSt) {
		for _, x := range sts {
			x.render(b, ind+"\t")
		}
	}
	switch s.K {
	case "if":
		for i, bl := range s.B {
			switch {
			case i == 0:
				b.WriteString(ind + "if " + s.Ex[0].text() + " {\n")
			case s.Else && i == len(s.B)-1:
				b.WriteString(" else {\n")
			default:
				b.WriteString(" else if " + s.Ex[i].text() + " {\n")
			}
			block(bl)
			b.WriteString(ind + "}")
		}
		b.WriteString("\n")
	case "switch":
		b.WriteString(ind + "switch ")
		if len(s.Ex) > 0 && s.Ex[0] != nil {
			b.WriteString(s.Ex[0].text() + " ")
		}
		b.WriteString("{\n")
		for i, bl := range s.B {
			if s.Else && i == len(s.B)-1 {
				b.WriteString(ind + "default:\n")
			} else {
				b.WriteString(ind + "case " + s.Ex[i+1].text() + ":\n")
			}
			block(bl)
		}
		b.WriteString(ind + "}\n")
	case "for3":
		b.WriteString(ind + "for " + s.Init.head() + "; " + s.Ex[0].text() + "; " + s.Post.head() + " {\n")
		block(s.B[0])
		b.WriteString(ind + "}\n")
	case "while":
		b.WriteString(ind + "for " + s.Ex[0].text() + " {\n")
		block(s.B[0])
		b.WriteString(ind + "}\n")
	case "range":
		b.WriteString(ind + "for " + strings.Join(s.Ns, ", ") + " := range " + s.Ex[0].text() + " {\n")
		block(s.B[0])
		b.WriteString(ind + "}\n")
	default:
		b.WriteString(ind + s.head() + "\n")
	}
}

func (m *lMod) text() string {
	var b strings.Builder
	if m.Style&1 != 0 {
		b.WriteString("// " + path.Base(m.Path) + "\n\n")
	}
	if len(m.Imps) > 0 {
		line := func(im lImp) string {
			if im.Al != "" {
				return im.Al + " " + strconv.Quote(im.P)
			}
			return strconv.Quote(im.P)
		}
		if len(m.Imps) == 1 && m.Style&2 != 0 {
			b.WriteString("import " + line(m.Imps[0]) + "\n")
		} else {
			b.WriteString("import (\n")
			for _, im := range m.Imps {
				b.WriteString("\t" + line(im) + "\n")
			}
			b.WriteString(")\n")
		}
		b.WriteString("\n")
	}
	for i, it := range m.Items {
		if m.Style&4 != 0 && i%3 == m.Style>>5&3 {
			b.WriteString([]string{"// func Remark() {\n", "// \"\n", "//\n", "// import x \"y.tsh\"\n", "\n\n", "// }\n", "// `\n", "// ${x} $(y) /" + "*\n"}[(i+m.Style>>5)&7])
		}
		if it.St != nil {
			it.St.render(&b, "")
			continue
		}
		f := it.Fn
		var ps []string
		for _, p := range f.Ps {
			ps = append(ps, p.N+" "+p.T)
		}
		b.WriteString("func " + f.N + "(" + strings.Join(ps, ", ") + ")")
		switch {
		case len(f.Rets) == 1:
			b.WriteString(" " + f.Rets[0])
		case len(f.Rets) > 1:
			b.WriteString(" (" + strings.Join(f.Rets, ", ") + ")")
		}
		b.WriteString(" {\n")
		for _, s := range f.B {
			s.render(&b, "\t")
		}
		b.WriteString("}\n\n")
	}
	if m.Tail != "" {
		b.WriteString("// " + m.Tail + "\n")
	}
	t := b.String()
	if m.Style&8 != 0 {
		t = strings.ReplaceAll(t, "\n", "\r\n")
	}
	if m.Style&16 != 0 && len(m.Items) > 0 {
		t = strings.TrimRight(t, "\r\n")
	}
	return t
}

// ------------------------------------------------------------ interpretation

type lSlice struct {
	t  string
	xs []lVal
}

type lVal struct {
	t  string
	i  int64 // ints and bools
	s  string
	sl *lSlice
	rt bool // a string that isn't from the source
}

func (v lVal) out() string {
	if v.t == "string" {
		return v.s
	}
	return strconv.FormatInt(v.i, 10)
}

func zero(t string) lVal {
	if t == "error" {
		t = "string"
	}
	v := lVal{t: t}
	if strings.HasPrefix(t, "[]") {
		v.sl = &lSlice{t: t[2:]}
	}
	return v
}

type lScope struct {
	up *lScope
	m  map[string]*lVal
}

func (s *lScope) find(n string) *lVal {
	for ; s != nil; s = s.up {
		if v, ok := s.m[n]; ok {
			return v
		}
	}
	return nil
}

type lExit struct{ code int }    // the program ends
type lAbort struct{ why string } // the program is outside the model

type lFnRef struct {
	mod int
	n   string
}

// lHooks is the world of a program, where it isn't the interpreter's own.
type lHooks struct {
	print  func(s string)
	exists func(p string) bool
	read   func(p string) string
	write  func(p, d string, app bool)
	sync   func(tag string)
	input  func() string
	run    func(s *lSt, args [][]string, capture bool) (string, int64)
	peek   func()                    // called once, when the next sync has seen the files and not changed them
	cell   func(path string, v lVal) // a string value takes one of the language's paths
}

func (in *lInterp) cell(path string, vs ...lVal) {
	if in.h == nil || in.h.cell == nil {
		return
	}
	for _, v := range vs {
		if v.t == "string" {
			in.h.cell(path, v)
		}
	}
}

type lInterp struct {
	h      *lHooks
	maxStr int
	p      *lProg
	out    []string
	files  map[string]string
	steps  int
	limit  int
	forks  int // rough cost of the script
	global []*lScope
	funcs  map[lFnRef]*lFn
	loaded map[int]bool
	called map[lFnRef]bool
	sites  map[*lEx]bool
	depth  int
}

func (in *lInterp) fail(f string, a ...interface{}) { panic(lAbort{fmt.Sprintf(f, a...)}) }

func (in *lInterp) step(n int) {
	in.steps++
	in.forks += n
	if in.steps > in.limit*20 || in.forks > in.limit {
		in.fail("too long")
	}
}

type lCtl int

const (
	ctlNone lCtl = iota
	ctlBreak
	ctlContinue
	ctlReturn
)

type lFrame struct {
	mod int
	sc  *lScope
	ret []lVal
}

func (in *lInterp) load(mi int) {
	if in.loaded[mi] {
		return
	}
	in.loaded[mi] = true
	m := in.p.Mods[mi]
	for _, im := range m.Imps {
		if im.To >= 0 {
			in.load(im.To)
		}
	}
	fr := &lFrame{mod: mi, sc: in.global[mi]}
	for _, it := range m.Items {
		if it.Fn != nil {
			in.funcs[lFnRef{mi, it.Fn.N}] = it.Fn
			continue
		}
		if c := in.stmt(fr, it.St); c != ctlNone {
			in.fail("control outside")
		}
	}
}

// run returns the printed lines and the exit status.
func (p *lProg) run(limit int) (lines []string, code int, in *lInterp, err error) {
	return p.runIn(limit, nil, 4000)
}

func (p *lProg) runIn(limit int, h *lHooks, maxStr int) (lines []string, code int, in *lInterp, err error) {
	in = &lInterp{p: p, h: h, maxStr: maxStr, files: map[string]string{}, limit: limit, funcs: map[lFnRef]*lFn{}, loaded: map[int]bool{}, called: map[lFnRef]bool{}, sites: map[*lEx]bool{}}
	for range p.Mods {
		in.global = append(in.global, &lScope{m: map[string]*lVal{}})
	}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case lExit:
			lines, code = in.out, x.code
		case lAbort:
			err = fmt.Errorf("%s", x.why)
		default:
			panic(x)
		}
	}()
	in.load(0)
	return in.out, 0, in, nil
}

func (in *lInterp) print(s string) {
	if in.h != nil {
		in.h.print(s)
		return
	}
	in.out = append(in.out, s)
}

func (in *lInterp) block(fr *lFrame, sts []*lSt) lCtl {
	old := fr.sc
	fr.sc = &lScope{up: old, m: map[string]*lVal{}}
	defer func() { fr.sc = old }()
	for _, s := range sts {
		if c := in.stmt(fr, s); c != ctlNone {
			return c
		}
	}
	return ctlNone
}

func (in *lInterp) define(fr *lFrame, n string, v lVal) {
	c := v
	fr.sc.m[n] = &c
}

func (in *lInterp) variable(fr *lFrame, n string) *lVal {
	v := fr.sc.find(n)
	if v == nil {
		in.fail("variable %s", n)
	}
	return v
}

func (in *lInterp) values(fr *lFrame, es []*lEx) []lVal {
	var out []lVal
	for _, e := range es {
		out = append(out, in.eval(fr, e)...)
	}
	return out
}

func (in *lInterp) one(fr *lFrame, e *lEx) lVal {
	vs := in.eval(fr, e)
	if len(vs) != 1 {
		in.fail("value count")
	}
	return vs[0]
}

func (in *lInterp) stmt(fr *lFrame, s *lSt) lCtl {
	in.step(0)
	switch s.K {
	case "def", "var":
		if len(s.Ex) == 0 {
			for _, n := range s.Ns {
				in.define(fr, n, zero(s.T))
			}
			break
		}
		vs := in.values(fr, s.Ex)
		in.cell("assign", vs...)
		for i, n := range s.Ns {
			in.define(fr, n, vs[i])
		}
	case "asg":
		vs := in.values(fr, s.Ex)
		in.cell("assign", vs...)
		for i, n := range s.Ns {
			*in.variable(fr, n) = vs[i]
		}
	case "cmpd":
		r := in.one(fr, s.Ex[0])
		v := in.variable(fr, s.Ns[0])
		*v = in.bin(s.S[:1], *v, r)
	case "inc":
		v := in.variable(fr, s.Ns[0])
		if s.S == "++" {
			v.i++
		} else {
			v.i--
		}
	case "sasg":
		sl := in.variable(fr, s.Ns[0]).sl
		i, v := in.one(fr, s.Ex[0]).i, in.one(fr, s.Ex[1])
		if i < 0 || i > 60 {
			in.fail("index")
		}
		in.step(2)
		in.cell("slice store", v)
		for int64(len(sl.xs)) <= i {
			sl.xs = append(sl.xs, zero(sl.t))
			in.step(1)
		}
		sl.xs[i] = v
	case "print":
		var xs []string
		for _, e := range s.Ex {
			v := in.one(fr, e)
			in.cell("print", v)
			xs = append(xs, v.out())
		}
		in.print(strings.Join(xs, " "))
	case "panic":
		v := in.one(fr, s.Ex[0])
		in.cell("panic", v)
		in.print("panic: " + v.out())
		panic(lExit{1})
	case "expr":
		in.eval(fr, s.Ex[0])
	case "ret":
		fr.ret = in.values(fr, s.Ex)
		in.cell("return", fr.ret...)
		return ctlReturn
	case "app", "appdef":
		var xs []string
		for _, e := range s.Ex {
			xs = append(xs, in.one(fr, e).out())
		}
		in.step(1)
		if s.K == "app" {
			in.print(strings.Join(xs, " "))
			break
		}
		in.define(fr, s.Ns[0], lVal{t: "string", s: strings.Join(xs, " ")})
		in.define(fr, s.Ns[1], lVal{t: "string"})
		in.define(fr, s.Ns[2], lVal{t: "int"})
	case "write":
		pv, dv := in.one(fr, s.Ex[0]), in.one(fr, s.Ex[1])
		p, d := pv.s, dv.s
		in.cell("file path", pv)
		in.cell("file content", dv)
		app := len(s.Ex) > 2 && in.one(fr, s.Ex[2]).i != 0
		in.step(2)
		if in.h != nil {
			in.h.write(p, d, app)
			break
		}
		if !app {
			in.files[p] = ""
		}
		in.files[p] += d + "\n"
	case "wread":
		pv, dv := in.one(fr, s.Ex[0]), in.one(fr, s.Ex[1])
		in.cell("file path", pv)
		in.cell("file content", dv)
		in.step(5)
		in.h.write(pv.s, dv.s, len(s.Ex) > 2 && in.one(fr, s.Ex[2]).i != 0)
		in.h.peek = func() {
			in.define(fr, s.Ns[0], lVal{t: "string", s: in.h.read(pv.s), rt: true})
		}
		in.h.sync(s.S)
	case "copy":
		d, src := in.one(fr, s.Ex[0]).sl, in.one(fr, s.Ex[1]).sl
		if len(d.xs) != len(src.xs) {
			in.fail("copy")
		}
		in.step(3 * len(d.xs))
		copy(d.xs, src.xs)
	case "run", "rundef", "runasg":
		var args [][]string
		for _, a := range s.Ap {
			xs := []string{}
			for _, e := range a.Ex {
				v := in.one(fr, e)
				in.cell("program argument", v)
				xs = append(xs, v.s)
			}
			args = append(args, xs)
		}
		in.step(2)
		out, code := in.h.run(s, args, s.K != "run")
		switch s.K {
		case "rundef":
			in.define(fr, s.Ns[0], lVal{t: "string", s: out, rt: true})
			in.define(fr, s.Ns[1], lVal{t: "string"})
			in.define(fr, s.Ns[2], lVal{t: "int", i: code})
		case "runasg":
			*in.variable(fr, s.Ns[0]) = lVal{t: "string", s: out, rt: true}
			in.variable(fr, s.Ns[2]).i = code
		}
	case "sync":
		in.step(1)
		in.h.sync(s.S)
	case "if":
		n := len(s.B)
		if s.Else {
			n--
		}
		var cs []bool
		for i := 0; i < n; i++ {
			cs = append(cs, in.one(fr, s.Ex[i]).i != 0)
		}
		for i, c := range cs {
			if c {
				return in.block(fr, s.B[i])
			}
		}
		if s.Else {
			return in.block(fr, s.B[n])
		}
	case "switch":
		n := len(s.B)
		if s.Else {
			n--
		}
		tag := lVal{t: "bool", i: 1}
		if s.Ex[0] != nil {
			tag = in.one(fr, s.Ex[0])
		}
		var cs []bool
		for i := 0; i < n; i++ {
			v := in.one(fr, s.Ex[i+1])
			in.step(1)
			in.cell("compare", tag, v)
			cs = append(cs, v.i == tag.i && v.s == tag.s)
		}
		for i, c := range cs {
			if c {
				return in.block(fr, s.B[i])
			}
		}
		if s.Else {
			return in.block(fr, s.B[n])
		}
	case "for3":
		old := fr.sc
		fr.sc = &lScope{up: old, m: map[string]*lVal{}}
		defer func() { fr.sc = old }()
		in.stmt(fr, s.Init)
		for first := true; ; first = false {
			in.step(1)
			if !first {
				in.stmt(fr, s.Post)
			}
			if in.one(fr, s.Ex[0]).i == 0 {
				return ctlNone
			}
			if c := in.block(fr, s.B[0]); c == ctlReturn {
				return c
			} else if c == ctlBreak {
				return ctlNone
			}
		}
	case "while":
		for {
			in.step(1)
			if in.one(fr, s.Ex[0]).i == 0 {
				return ctlNone
			}
			if c := in.block(fr, s.B[0]); c == ctlReturn {
				return c
			} else if c == ctlBreak {
				return ctlNone
			}
		}
	case "range":
		old := fr.sc
		fr.sc = &lScope{up: old, m: map[string]*lVal{}}
		defer func() { fr.sc = old }()
		it := in.one(fr, s.Ex[0])
		in.cell("range", it)
		n := len(it.s)
		if it.sl != nil {
			n = len(it.sl.xs)
		}
		for i := 0; i < n; i++ {
			in.step(3)
			fr.sc.m = map[string]*lVal{}
			in.define(fr, s.Ns[0], lVal{t: "int", i: int64(i)})
			if len(s.Ns) > 1 {
				if it.sl != nil {
					in.define(fr, s.Ns[1], it.sl.xs[i])
				} else {
					in.define(fr, s.Ns[1], lVal{t: "string", s: it.s[i : i+1], rt: it.rt})
				}
			}
			// The number of evaluations of the operand is not specified: it must
			// not matter, and nothing may resize what is ranged over.
			if again := in.one(fr, s.Ex[0]); it.sl == nil && again.s != it.s || it.sl != nil && (len(again.sl.xs) != n || len(it.sl.xs) != n || again.sl.xs[i].s != it.sl.xs[i].s || again.sl.xs[i].i != it.sl.xs[i].i) {
				in.fail("range operand changes")
			}
			if c := in.block(fr, s.B[0]); c == ctlReturn {
				return c
			} else if c == ctlBreak {
				return ctlNone
			}
		}
		if it.sl != nil && len(it.sl.xs) != n {
			in.fail("range operand changes")
		}
	case "break":
		return ctlBreak
	case "continue":
		return ctlContinue
	case "bad":
	default:
		in.fail("statement %s", s.K)
	}
	return ctlNone
}

func (in *lInterp) bin(op string, a, b lVal) lVal {
	if a.t == "string" {
		if len(a.s)+len(b.s) > in.maxStr {
			in.fail("long string")
		}
		in.cell("concatenate", a, b)
		return lVal{t: "string", s: a.s + b.s, rt: a.rt || b.rt}
	}
	v := lVal{t: "int"}
	switch op {
	case "+":
		v.i = a.i + b.i
	case "-":
		v.i = a.i - b.i
	case "*":
		v.i = a.i * b.i
	default:
		if b.i == 0 {
			in.fail("division")
		}
		if op == "/" {
			v.i = a.i / b.i
		} else {
			v.i = a.i % b.i
		}
	}
	return v
}

func boolVal(b bool) lVal {
	if b {
		return lVal{t: "bool", i: 1}
	}
	return lVal{t: "bool"}
}

func (in *lInterp) eval(fr *lFrame, e *lEx) []lVal {
	in.step(0)
	is := func(v lVal) []lVal { return []lVal{v} }
	switch e.K {
	case "int":
		return is(lVal{t: "int", i: e.I})
	case "str":
		return is(lVal{t: "string", s: e.S})
	case "bool":
		return is(boolVal(e.I != 0))
	case "nil":
		return is(lVal{t: "string"})
	case "var":
		return is(*in.variable(fr, e.N))
	case "group":
		return is(in.one(fr, e.Args[0]))
	case "call":
		f := in.funcs[lFnRef{e.Mod, e.N}]
		if f == nil {
			in.fail("function %s", e.N)
		}
		var args []lVal
		for _, a := range e.Args {
			args = append(args, in.one(fr, a))
		}
		in.cell("pass", args...)
		in.called[lFnRef{e.Mod, e.N}] = true
		in.sites[e] = true
		if in.depth++; in.depth > 60 {
			in.fail("depth")
		}
		nf := &lFrame{mod: e.Mod, sc: &lScope{up: in.global[e.Mod], m: map[string]*lVal{}}}
		for i, p := range f.Ps {
			in.define(nf, p.N, args[i])
		}
		for _, s := range f.B {
			if in.stmt(nf, s) == ctlReturn {
				break
			}
		}
		in.depth--
		return nf.ret
	case "std":
		var a []lVal
		for _, x := range e.Args {
			a = append(a, in.one(fr, x))
		}
		in.sites[e] = true
		return in.stdCall(e.N, a)
	case "bin":
		l := in.one(fr, e.Args[0])
		return is(in.bin(e.S, l, in.one(fr, e.Args[1])))
	case "cmp":
		l, r := in.one(fr, e.Args[0]), in.one(fr, e.Args[1])
		in.step(1)
		in.cell("compare", l, r)
		switch e.S {
		case "==":
			return is(boolVal(l.i == r.i && l.s == r.s))
		case "!=":
			return is(boolVal(l.i != r.i || l.s != r.s))
		case "<":
			return is(boolVal(l.i < r.i))
		case "<=":
			return is(boolVal(l.i <= r.i))
		case ">":
			return is(boolVal(l.i > r.i))
		}
		return is(boolVal(l.i >= r.i))
	case "log":
		l, r := in.one(fr, e.Args[0]).i != 0, in.one(fr, e.Args[1]).i != 0
		in.step(1)
		if e.S == "&&" {
			return is(boolVal(l && r))
		}
		return is(boolVal(l || r))
	case "not":
		in.step(1)
		return is(boolVal(in.one(fr, e.Args[0]).i == 0))
	case "slice":
		sl := &lSlice{t: e.S}
		for _, a := range e.Args {
			v := in.one(fr, a)
			in.cell("slice store", v)
			sl.xs = append(sl.xs, v)
		}
		return is(lVal{t: "[]" + e.S, sl: sl})
	case "idx":
		v := *in.variable(fr, e.N)
		i := in.one(fr, e.Args[0]).i
		in.step(1)
		if v.sl == nil {
			if i < 0 || i >= int64(len(v.s)) {
				in.fail("index")
			}
			in.cell("subscript", v)
			return is(lVal{t: "string", s: v.s[i : i+1], rt: v.rt})
		}
		if i < 0 || i >= int64(len(v.sl.xs)) {
			in.fail("index")
		}
		in.cell("slice load", v.sl.xs[i])
		return is(v.sl.xs[i])
	case "sub":
		a, b := int64(0), int64(0)
		if !strings.Contains(e.S, "a") {
			a = in.one(fr, e.Args[0]).i
		}
		if !strings.Contains(e.S, "b") {
			b = in.one(fr, e.Args[1]).i
		}
		v := *in.variable(fr, e.N)
		if strings.Contains(e.S, "b") {
			b = int64(len(v.s))
		}
		if a < 0 || b < a || b > int64(len(v.s)) {
			in.fail("range")
		}
		in.cell("subscript", v)
		return is(lVal{t: "string", s: v.s[a:b], rt: v.rt})
	case "len":
		v := in.one(fr, e.Args[0])
		in.step(1)
		in.cell("measure", v)
		if v.sl != nil {
			return is(lVal{t: "int", i: int64(len(v.sl.xs))})
		}
		return is(lVal{t: "int", i: int64(len(v.s))})
	case "itoa":
		return is(lVal{t: "string", s: strconv.FormatInt(in.one(fr, e.Args[0]).i, 10)})
	case "exists":
		p := in.one(fr, e.Args[0]).s
		in.step(1)
		if in.h != nil {
			return is(boolVal(in.h.exists(p)))
		}
		_, ok := in.files[p]
		return is(boolVal(ok))
	case "read":
		p := in.one(fr, e.Args[0]).s
		in.step(2)
		if in.h != nil {
			return is(lVal{t: "string", s: in.h.read(p), rt: true})
		}
		d, ok := in.files[p]
		if !ok {
			in.fail("read")
		}
		return is(lVal{t: "string", s: strings.TrimSuffix(d, "\n")})
	case "input":
		for _, a := range e.Args {
			in.one(fr, a)
		}
		in.step(1)
		return is(lVal{t: "string", s: in.h.input(), rt: true})
	case "copy":
		d, src := in.one(fr, e.Args[0]).sl, in.one(fr, e.Args[1]).sl
		if len(d.xs) > len(src.xs) {
			in.fail("copy")
		}
		in.step(3 * len(src.xs))
		d.xs = append(d.xs[:0], src.xs...)
		return is(lVal{t: "int", i: int64(len(src.xs))})
	}
	panic("eval " + e.K)
}

// stdCall is the part of std/strings the programs use.
func (in *lInterp) stdCall(n string, a []lVal) []lVal {
	if a[0].sl == nil && len(a[0].s) > 12 {
		in.fail("long")
	}
	in.step(4 + 6*len(a[0].s))
	switch n {
	case "Contains":
		return []lVal{boolVal(strings.Contains(a[0].s, a[1].s))}
	case "HasPrefix":
		return []lVal{boolVal(strings.HasPrefix(a[0].s, a[1].s))}
	case "HasSuffix":
		return []lVal{boolVal(strings.HasSuffix(a[0].s, a[1].s))}
	case "Repeat":
		return []lVal{{t: "string", s: strings.Repeat(a[0].s, int(a[1].i))}}
	case "Join":
		var xs []string
		for _, x := range a[0].sl.xs {
			xs = append(xs, x.s)
		}
		in.step(3 * len(xs))
		return []lVal{{t: "string", s: strings.Join(xs, a[1].s)}}
	case "TrimPrefix":
		return []lVal{{t: "string", s: strings.TrimPrefix(a[0].s, a[1].s)}}
	}
	panic("std " + n)
}

// --------------------------------------------------------------- static check

type lChk struct {
	p   *lProg
	mod int
	fns map[string]*lFn // "mod/name"
	err string
}

func publicName(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

// check says whether every name of the program is resolvable where it is used.
func (p *lProg) check() string {
	c := &lChk{p: p}
	for i, m := range p.Mods {
		c.mod = i
		c.fns = map[string]*lFn{}
		al := map[string]bool{}
		for _, im := range m.Imps {
			n := im.Al
			if n == "" {
				n = im.Std
			}
			if al[n] {
				return "alias twice"
			}
			al[n] = true
			if im.To >= 0 {
				for _, it := range p.Mods[im.To].Items {
					if it.Fn != nil && publicName(it.Fn.N) {
						c.fns[n+"."+it.Fn.N] = it.Fn
					}
				}
			}
		}
		vars := &lScope{m: map[string]*lVal{}}
		for _, it := range m.Items {
			if it.Fn == nil {
				c.stmt(vars, it.St, nil)
			} else {
				f := it.Fn
				if c.fns[f.N] != nil {
					return "function twice"
				}
				fv := &lScope{up: vars, m: map[string]*lVal{}}
				for _, x := range f.Ps {
					if fv.find(x.N) != nil {
						return "parameter name"
					}
					fv.m[x.N] = &lVal{t: x.T}
				}
				for _, s := range f.B {
					c.stmt(fv, s, f)
				}
				if len(f.Rets) > 0 && (len(f.B) == 0 || f.B[len(f.B)-1].K != "ret") {
					return "missing return"
				}
				c.fns[f.N] = f
			}
			if c.err != "" {
				return c.err
			}
		}
	}
	return ""
}

func (c *lChk) bad(f string, a ...interface{}) {
	if c.err == "" {
		c.err = fmt.Sprintf(f, a...)
	}
}

func (c *lChk) ex(sc *lScope, e *lEx) {
	if e == nil {
		return
	}
	switch e.K {
	case "var", "idx", "sub":
		if sc.find(e.N) == nil {
			c.bad("variable %s", e.N)
		}
	case "call":
		n := e.N
		if e.Al != "" {
			n = e.Al + "." + n
		}
		if f := c.fns[n]; f == nil || len(f.Ps) != len(e.Args) {
			c.bad("function %s", n)
		}
	case "std":
		ok := false
		for _, im := range c.p.Mods[c.mod].Imps {
			ok = ok || im.To < 0 && (im.Al == e.Al || im.Al == "" && im.Std == e.Al)
		}
		if !ok {
			c.bad("alias %s", e.Al)
		}
	}
	for _, a := range e.Args {
		c.ex(sc, a)
	}
}

func (c *lChk) block(sc *lScope, sts []*lSt, f *lFn) {
	in := &lScope{up: sc, m: map[string]*lVal{}}
	for _, s := range sts {
		c.stmt(in, s, f)
	}
}

func (c *lChk) stmt(sc *lScope, s *lSt, f *lFn) {
	if s == nil {
		return
	}
	inner := sc
	if s.K == "for3" || s.K == "range" {
		inner = &lScope{up: sc, m: map[string]*lVal{}}
		c.stmt(inner, s.Init, f)
	}
	for _, e := range s.Ex {
		c.ex(inner, e)
	}
	for _, a := range s.Ap {
		for _, e := range a.Ex {
			c.ex(inner, e)
		}
	}
	switch s.K {
	case "def", "var", "appdef", "rundef", "range", "wread":
		for _, n := range s.Ns {
			if inner.find(n) != nil {
				c.bad("variable %s twice", n)
			}
			inner.m[n] = &lVal{}
		}
	case "asg", "cmpd", "inc", "sasg", "runasg":
		for _, n := range s.Ns {
			if sc.find(n) == nil {
				c.bad("variable %s", n)
			}
		}
	case "ret":
		if f == nil || len(f.Rets) != len(s.Ex) {
			c.bad("return")
		}
	}
	c.stmt(inner, s.Post, f)
	for _, b := range s.B {
		c.block(inner, b, f)
	}
}
