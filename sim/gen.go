package main

import (
	"fmt"
	"strings"
)

// The generator of TypeShell programs: valid by construction for the language
// of README.md, over every statement and expression form. It is used where the
// meaning of the program does not matter (C13, C14, C19); C09, C17 and C18 have
// their own generators with a reference model.

type gvar struct{ name, typ string }

type gfunc struct {
	alias  string // "" when in the same file
	name   string
	params []string
	rets   []string
}

func (f gfunc) full() string {
	if f.alias != "" {
		return f.alias + "." + f.name
	}
	return f.name
}

type pgen struct {
	r             *rng
	vars          []gvar
	funcs         []gfunc
	out           strings.Builder
	ind           int
	depth         int // nesting of blocks
	inFunc        bool
	inLoop        int
	inCase        int
	names         int
	budget        int
	mask          uint64 // swarm: which forms this program uses
	rich          bool   // odd string contents
	globals       bool   // functions may touch globals
	loopVar       map[string]bool
	breakAnywhere bool
}

var scalarTypes = []string{"int", "string", "bool"}
var sliceTypes = []string{"[]int", "[]string", "[]bool"}

func (g *pgen) typ() string {
	if g.r.p(25) {
		return pick(g.r, sliceTypes)
	}
	return pick(g.r, scalarTypes)
}

var nameParts = []string{"a", "b", "x", "y", "val", "Foo", "counter", "_h0", "s1", "Tmp", "idx", "left", "if1", "rv", "forX", "trans", "res_2", "LF", "i", "n"}

func (g *pgen) name() string {
	g.names++
	return fmt.Sprintf("%s%d", pick(g.r, nameParts), g.names)
}

func (g *pgen) line(f string, a ...interface{}) {
	g.out.WriteString(strings.Repeat("\t", g.ind))
	fmt.Fprintf(&g.out, f, a...)
	g.out.WriteByte('\n')
}

func (g *pgen) varOf(t string) (string, bool) {
	var c []string
	for _, v := range g.vars {
		if v.typ == t {
			c = append(c, v.name)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	return pick(g.r, c), true
}

func (g *pgen) callOf(t string, d int) (string, bool) {
	var c []gfunc
	for _, f := range g.funcs {
		if len(f.rets) == 1 && f.rets[0] == t {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	return g.call(pick(g.r, c), d), true
}

func (g *pgen) call(f gfunc, d int) string {
	var args []string
	for _, p := range f.params {
		args = append(args, g.expr(p, d-1))
	}
	return f.full() + "(" + strings.Join(args, ", ") + ")"
}

var plainWords = []string{"", "a", "hello", "two words", "x,y", "0", "-1", "a.b", "end"}
var oddWords = []string{"!", "$HOME", "`+`", "100%", "a!b", "%OS%", "it's", "a;b", "*", "~", "a\tb", "$", "^", "&", "<>", "é", "日本", "#no", "\\\\", `\"q\"`, "a\\nb"}

func (g *pgen) str() string {
	if g.rich && g.r.p(40) {
		w := pick(g.r, oddWords)
		if w == "`+`" {
			return "`raw \\ string`"
		}
		return `"` + w + `"`
	}
	return `"` + pick(g.r, plainWords) + `"`
}

func (g *pgen) has(bit int) bool { return g.mask&(1<<uint(bit)) != 0 }

func (g *pgen) index() string {
	if v, ok := g.varOf("int"); ok && g.r.p(40) {
		return v
	}
	return fmt.Sprint(g.r.n(4))
}

func (g *pgen) expr(t string, d int) string {
	r := g.r
	g.budget--
	if d <= 0 || g.budget <= 0 {
		if v, ok := g.varOf(t); ok && r.p(60) {
			return v
		}
		return g.lit(t)
	}
	for try := 0; try < 8; try++ {
		switch r.n(9) {
		case 0, 1:
			if v, ok := g.varOf(t); ok {
				return v
			}
		case 2:
			return g.lit(t)
		case 3:
			if c, ok := g.callOf(t, d); ok && g.has(0) {
				return c
			}
		case 4:
			if g.has(1) && !strings.HasPrefix(t, "[]") {
				if v, ok := g.varOf("[]" + t); ok {
					return v + "[" + g.index() + "]"
				}
			}
		case 5:
			if g.has(2) && !strings.HasPrefix(t, "[]") {
				return "(" + g.expr(t, d-1) + ")"
			}
		default:
			switch t {
			case "int":
				switch r.n(4) {
				case 0:
					if g.has(3) {
						if s, ok := g.varOf(pick(r, append([]string{"string"}, sliceTypes...))); ok {
							return "len(" + s + ")"
						}
						return "len(" + g.str() + ")"
					}
				case 1:
					if g.has(4) {
						st := pick(r, sliceTypes)
						if s, ok := g.varOf(st); ok {
							return "copy(" + s + ", " + g.expr(st, d-1) + ")"
						}
					}
				default:
					return g.expr("int", d-1) + " " + pick(r, []string{"+", "-", "*", "/", "%"}) + " " + g.operand("int", d-1)
				}
			case "bool":
				switch r.n(6) {
				case 0:
					if g.has(5) {
						return "exists(" + g.expr("string", d-1) + ")"
					}
				case 1:
					return "!" + g.operand("bool", d-1)
				case 2, 3:
					op := pick(r, []string{"==", "!=", "<", "<=", ">", ">="})
					return g.expr("int", d-1) + " " + op + " " + g.operand("int", d-1)
				case 4:
					return g.operand("string", d-1) + " " + pick(r, []string{"==", "!="}) + " " + g.operand("string", d-1)
				case 5:
					return g.operand("bool", d-1) + " " + pick(r, []string{"&&", "||", "==", "!="}) + " " + g.operand("bool", d-1)
				}
			case "string":
				switch r.n(7) {
				case 0:
					if g.has(6) {
						return "itoa(" + g.expr("int", d-1) + ")"
					}
				case 1:
					if g.has(7) {
						if s, ok := g.varOf("string"); ok {
							switch r.n(4) {
							case 0:
								return s + "[" + g.index() + "]"
							case 1:
								return s + "[:" + g.index() + "]"
							case 2:
								return s + "[" + g.index() + ":]"
							default:
								return s + "[" + g.index() + ":" + g.index() + "]"
							}
						}
					}
				case 2:
					if g.has(8) {
						return "read(" + g.expr("string", d-1) + ")"
					}
				case 3:
					if g.has(9) {
						if r.p(50) {
							return "input()"
						}
						return "input(" + g.expr("string", d-1) + ")"
					}
				case 4:
					return "nil"
				default:
					return g.expr("string", d-1) + " + " + g.operand("string", d-1)
				}
			}
		}
	}
	return g.lit(t)
}

func (g *pgen) operand(t string, d int) string {
	if g.r.p(50) {
		if v, ok := g.varOf(t); ok {
			return v
		}
		return g.lit(t)
	}
	return "(" + g.expr(t, d) + ")"
}

func (g *pgen) lit(t string) string {
	r := g.r
	switch t {
	case "int":
		return fmt.Sprint(r.n(20) - 3)
	case "bool":
		return pick(r, []string{"true", "false"})
	case "string":
		return g.str()
	}
	e := t[2:]
	var xs []string
	for i := r.n(4); i > 0; i-- {
		xs = append(xs, g.expr(e, 0))
	}
	return t + "{" + strings.Join(xs, ", ") + "}"
}

func (g *pgen) appCall() string {
	var parts []string
	for i := 1 + g.r.n(3)*g.r.n(2); i > 0; i-- {
		var args []string
		for k := g.r.n(3); k > 0; k-- {
			args = append(args, g.expr("string", 1))
		}
		name := pick(g.r, []string{"ls", "grep", "cat", `"/bin/ls"`, "`my prog`", "echo"})
		parts = append(parts, "@"+name+"("+strings.Join(args, ", ")+")")
	}
	return strings.Join(parts, " | ")
}

func (g *pgen) block(n int) {
	save := len(g.vars)
	g.ind++
	g.depth++
	for i := 0; i < n; i++ {
		g.stmt()
	}
	g.depth--
	g.ind--
	g.vars = g.vars[:save]
}

func (g *pgen) assignable(t string) (string, bool) {
	var c []string
	for _, v := range g.vars {
		if v.typ == t && !g.loopVar[v.name] {
			c = append(c, v.name)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	return pick(g.r, c), true
}

func (g *pgen) stmt() {
	r := g.r
	g.budget -= 2
	simple := g.depth >= 4 || g.budget <= 0
	for try := 0; try < 10; try++ {
		k := r.n(20)
		if simple && k >= 11 {
			k %= 4
		}
		switch k {
		case 0, 1: // definitions
			t := g.typ()
			n := g.name()
			switch r.n(4) {
			case 0:
				g.line("var %s %s", n, t)
			case 1:
				g.line("var %s %s = %s", n, t, g.expr(t, 2))
			case 2:
				g.line("var %s = %s", n, g.expr(t, 2))
			default:
				g.line("%s := %s", n, g.expr(t, 2))
			}
			g.vars = append(g.vars, gvar{n, t})
			return
		case 2:
			var xs []string
			for i := r.n(3); i >= 0; i-- {
				xs = append(xs, g.expr(g.typ2(), 2))
			}
			g.line("print(%s)", strings.Join(xs, ", "))
			return
		case 3: // assignment
			t := g.typ()
			if v, ok := g.assignable(t); ok {
				g.line("%s = %s", v, g.expr(t, 2))
				return
			}
		case 4:
			if v, ok := g.assignable("int"); ok {
				if r.p(50) {
					g.line("%s%s", v, pick(r, []string{"++", "--"}))
				} else {
					g.line("%s %s %s", v, pick(r, []string{"+=", "-=", "*=", "/=", "%="}), g.expr("int", 2))
				}
				return
			}
		case 5:
			if v, ok := g.assignable("string"); ok {
				g.line("%s += %s", v, g.expr("string", 2))
				return
			}
		case 6:
			t := pick(r, scalarTypes)
			if v, ok := g.varOf("[]" + t); ok {
				g.line("%s[%s] = %s", v, g.index(), g.expr(t, 2))
				return
			}
		case 7: // multiple definition and assignment
			t1, t2 := pick(r, scalarTypes), pick(r, scalarTypes)
			if r.p(50) {
				a, b := g.name(), g.name()
				if r.p(50) {
					g.line("%s, %s := %s, %s", a, b, g.expr(t1, 1), g.expr(t2, 1))
					g.vars = append(g.vars, gvar{a, t1}, gvar{b, t2})
				} else {
					g.line("var %s, %s %s = %s, %s", a, b, t1, g.expr(t1, 1), g.expr(t1, 1))
					g.vars = append(g.vars, gvar{a, t1}, gvar{b, t1})
				}
				return
			}
			a, ok1 := g.assignable(t1)
			b, ok2 := g.assignable(t2)
			if ok1 && ok2 {
				g.line("%s, %s = %s, %s", a, b, g.expr(t1, 1), g.expr(t2, 1))
				return
			}
		case 8: // call statement or multi-value call
			if len(g.funcs) == 0 || !g.has(0) {
				continue
			}
			f := pick(r, g.funcs)
			if len(f.rets) > 1 && r.p(70) {
				var ns []string
				for _, t := range f.rets {
					n := g.name()
					ns = append(ns, n)
					defer func(n, t string) { g.vars = append(g.vars, gvar{n, t}) }(n, t)
				}
				g.line("%s := %s", strings.Join(ns, ", "), g.call(f, 2))
				return
			}
			g.line("%s", g.call(f, 2))
			return
		case 9:
			if !g.has(10) {
				continue
			}
			if r.p(50) {
				a, b, c := g.name(), g.name(), g.name()
				g.line("%s, %s, %s := %s", a, b, c, g.appCall())
				g.vars = append(g.vars, gvar{a, "string"}, gvar{b, "string"}, gvar{c, "int"})
			} else {
				g.line("%s", g.appCall())
			}
			return
		case 10:
			if !g.has(11) {
				continue
			}
			if r.p(20) {
				g.line("panic(%s)", g.expr("string", 1))
			} else if r.p(50) {
				g.line("write(%s, %s)", g.expr("string", 1), g.expr("string", 2))
			} else {
				g.line("write(%s, %s, %s)", g.expr("string", 1), g.expr("string", 2), g.expr("bool", 1))
			}
			return
		case 11, 12, 13:
			g.line("if %s {", g.expr("bool", 2))
			g.block(r.n(4))
			for i := r.n(3) * r.n(2); i > 0; i-- {
				g.line("} else if %s {", g.expr("bool", 2))
				g.block(r.n(3))
			}
			if r.p(40) {
				g.line("} else {")
				g.block(r.n(3))
			}
			g.line("}")
			return
		case 14, 15:
			if !g.has(12) {
				continue
			}
			t := pick(r, scalarTypes)
			if r.p(30) {
				t = "bool"
				g.line("switch {")
			} else {
				g.line("switch %s {", g.expr(t, 1))
			}
			g.inCase++
			for i := r.n(4); i > 0; i-- {
				g.line("case %s:", g.expr(t, 1))
				g.block(1 + r.n(3))
				if r.p(15) && g.breakAnywhere {
					g.line("break")
				}
			}
			if r.p(50) {
				g.line("default:")
				g.block(r.n(3))
			}
			g.inCase--
			g.line("}")
			return
		case 16, 17:
			if !g.has(13) {
				continue
			}
			save := len(g.vars)
			switch r.n(5) {
			case 0:
				g.line("for {")
			case 1:
				g.line("for %s {", g.expr("bool", 1))
			case 2:
				n := g.name()
				g.line("for %s := %s; %s < %s; %s++ {", n, g.expr("int", 1), n, g.expr("int", 1), n)
				g.vars = append(g.vars, gvar{n, "int"})
				g.loopVar[n] = true
			case 3:
				n := g.name()
				t := pick(r, append([]string{"string"}, sliceTypes...))
				e, ok := g.varOf(t)
				if !ok {
					e = g.lit(t)
				}
				g.line("for %s := range %s {", n, e)
				g.vars = append(g.vars, gvar{n, "int"})
			default:
				n, m := g.name(), g.name()
				t := pick(r, sliceTypes)
				e, ok := g.varOf(t)
				if !ok {
					e = g.lit(t)
				}
				g.line("for %s, %s := range %s {", n, m, e)
				g.vars = append(g.vars, gvar{n, "int"}, gvar{m, t[2:]})
			}
			g.inLoop++
			g.block(r.n(4))
			if r.p(30) {
				g.ind++
				g.line("%s", pick(r, []string{"break", "continue"}))
				g.ind--
			}
			g.inLoop--
			g.line("}")
			g.vars = g.vars[:save]
			return
		case 18:
			if g.inLoop > 0 {
				g.line("%s", pick(r, []string{"break", "continue"}))
				return
			}
		case 19:
			g.line("// %s", pick(r, []string{"note", "x := 1", "\"", "/* odd"[3:]}))
			return
		}
	}
	g.line("print(%s)", g.lit("string"))
}

func (g *pgen) typ2() string {
	if g.r.p(10) {
		return pick(g.r, sliceTypes)
	}
	return pick(g.r, scalarTypes)
}

func (g *pgen) function(public bool) gfunc {
	r := g.r
	f := gfunc{name: g.name()}
	if public {
		f.name = "P" + f.name
	} else {
		f.name = "p" + f.name
	}
	saveVars, saveGlobals := g.vars, len(g.vars)
	_ = saveGlobals
	var local []gvar
	if g.globals {
		local = append(local, g.vars...)
	}
	var ps []string
	for i := r.n(4); i > 0; i-- {
		t := g.typ()
		n := g.name()
		ps = append(ps, n+" "+t)
		f.params = append(f.params, t)
		local = append(local, gvar{n, t})
	}
	for i := r.n(4); i > 0; i-- {
		f.rets = append(f.rets, g.typ())
	}
	g.vars = local
	rt := ""
	switch {
	case len(f.rets) == 1 && r.p(80):
		rt = " " + f.rets[0]
	case len(f.rets) > 0:
		rt = " (" + strings.Join(f.rets, ", ") + ")"
	}
	paren := "(" + strings.Join(ps, ", ") + ")"
	if len(ps) == 0 && len(f.rets) < 2 && r.p(20) && !strings.HasPrefix(rt, " (") {
		paren = ""
	}
	g.line("func %s%s%s {", f.name, paren, rt)
	g.inFunc = true
	g.ind++
	g.depth++
	for i := r.n(5); i > 0; i-- {
		g.stmt()
	}
	if len(f.rets) > 0 {
		var xs []string
		for _, t := range f.rets {
			xs = append(xs, g.expr(t, 2))
		}
		g.line("return %s", strings.Join(xs, ", "))
	}
	g.depth--
	g.ind--
	g.inFunc = false
	g.line("}")
	g.vars = saveVars
	return f
}

// module is one generated source file.
type module struct {
	path    string
	text    string
	imports []int // indices of imported modules; -1 strings, -2 os
	public  []gfunc
}

var stdStrings = []gfunc{
	{"", "Index", []string{"string", "string"}, []string{"int"}},
	{"", "Contains", []string{"string", "string"}, []string{"bool"}},
	{"", "Join", []string{"[]string", "string"}, []string{"string"}},
	{"", "HasPrefix", []string{"string", "string"}, []string{"bool"}},
	{"", "HasSuffix", []string{"string", "string"}, []string{"bool"}},
	{"", "Count", []string{"string", "string"}, []string{"int"}},
}

var stdOs = []gfunc{{"", "Shell", nil, []string{"string"}}}

// genModules makes an acyclic program of n files; file 0 is the main one.
func genModules(r *rng, n int, size int, std bool) []*module {
	ms := make([]*module, n)
	names := []string{"main.tsh", "lib.tsh", "util.tsh", "sub/deep.tsh", "sub/mod x.tsh", "other.tsh", "sub/more/z.tsh", "q.tsh"}
	for i := n - 1; i >= 0; i-- {
		m := &module{path: names[i%len(names)]}
		if i >= len(names) {
			m.path = fmt.Sprintf("m%d.tsh", i)
		}
		g := &pgen{r: r, budget: size, mask: r.u64() | r.u64(), rich: r.p(50), globals: i == 0 && r.p(70), breakAnywhere: r.p(30), loopVar: map[string]bool{}}
		type imp struct{ alias, path string }
		var imps []imp
		for j := i + 1; j < n; j++ {
			if i == 0 && j == 1 || r.p(40) {
				for k := 0; k == 0 || k == 1 && r.p(15); k++ {
					a := fmt.Sprintf("%s%d", pick(r, []string{"m", "Lib", "u"}), j*10+k)
					imps = append(imps, imp{a, relPath(m.path, ms[j].path)})
					for _, f := range ms[j].public {
						f.alias = a
						g.funcs = append(g.funcs, f)
					}
					m.imports = append(m.imports, j)
				}
			}
		}
		if std && r.p(30) {
			a := pick(r, []string{"", "st", "strings2"})
			imps = append(imps, imp{a, "strings"})
			if a == "" {
				a = "strings"
			}
			for _, f := range stdStrings {
				f.alias = a
				g.funcs = append(g.funcs, f)
			}
			m.imports = append(m.imports, -1)
		}
		if std && r.p(8) {
			imps = append(imps, imp{"", "os"})
			for _, f := range stdOs {
				f.alias = "os"
				g.funcs = append(g.funcs, f)
			}
			m.imports = append(m.imports, -2)
		}
		shuffle(r, imps)
		if len(imps) == 1 && r.p(50) {
			g.line("import %s%q", sp(imps[0].alias), imps[0].path)
		} else if len(imps) > 0 {
			g.line("import (")
			for _, im := range imps {
				g.line("\t%s%q", sp(im.alias), im.path)
			}
			g.line(")")
		}
		if r.p(30) {
			g.line("/* file %d */", i)
		}
		for k := r.n(4); k > 0; k-- {
			g.stmt()
		}
		var local []gfunc
		for k := r.n(4); k > 0 || i > 0 && k == 0 && len(m.public) == 0; k-- {
			f := g.function(i > 0 && (r.p(70) || k <= 0))
			if f.name[0] == 'P' {
				m.public = append(m.public, f)
			}
			local = append(local, f)
			if i == 0 || r.p(80) {
				g.funcs = append(g.funcs, f)
			}
			if i == 0 {
				g.stmt()
			}
		}
		_ = local
		for k := r.n(5); k > 0; k-- {
			g.stmt()
		}
		m.text = g.out.String()
		if r.p(10) {
			m.text = strings.TrimRight(m.text, "\n")
		}
		if r.p(8) {
			m.text = strings.ReplaceAll(m.text, "\n", "\r\n")
		}
		ms[i] = m
	}
	return ms
}

func sp(s string) string {
	if s == "" {
		return ""
	}
	return s + " "
}

// relPath gives the path of b relative to the directory of a.
func relPath(a, b string) string {
	da := strings.Split(a, "/")
	da = da[:len(da)-1]
	db := strings.Split(b, "/")
	for len(da) > 0 && len(db) > 1 && da[0] == db[0] {
		da, db = da[1:], db[1:]
	}
	return strings.Repeat("../", len(da)) + strings.Join(db, "/")
}
