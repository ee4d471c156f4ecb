package main

import (
	"crypto/sha256"
	"fmt"
	"path"
	"strings"
)

// lgFn is what the generator knows about a function.
type lgFn struct {
	mod    int
	f      *lFn
	impure bool // prints or changes something
	reads  bool // its result may depend on variables of its file
	cost   int
	slices []int // minimal length of slice parameters
}

type lgVar struct {
	n, t   string
	global bool
	known  int  // string constants: length; slices: minimal length
	fixed  bool // never assigned
}

type lgMod struct {
	m     *lMod
	fns   []*lgFn
	imps  []lgImp
	order []string
}

type lgImp struct {
	al  string
	to  int
	std bool
}

type lgen struct {
	r    *rng
	p    *lProg
	mods []*lgMod
	mi   int

	// the current function or statement
	vars   []lgVar
	fn     *lgFn // nil at top level
	impure bool  // the statement may call impure functions and reads no globals
	cost   int
	budget int
	loops  int
	mult   int
	seq    int
	taken  map[string]bool
	top    bool
	noGlob bool
	still  bool // the expression must not depend on anything that changes
}

var lgNames = []string{"a", "b", "c", "d", "x", "y", "n", "s", "total", "count", "name", "list", "val", "tmp", "item", "state"}
var lgPublicVars = []string{"Total", "Count", "State", "Name", "X"}
var lgPublicFns = []string{"Get", "Run", "Calc", "Make", "Show", "Next", "Init", "Join", "Contains", "A", "B", "Get_all", "X2", "HTTP_", "Zz"}
var lgPrivateFns = []string{"helper", "calc", "next", "get", "run", "make", "show", "f", "g", "util", "_get", "_Make", "__x", "get_All", "runX"}
var lgAliases = []string{"m", "lib", "util", "a", "b", "x", "strings", "os", "helper", "dep", "Get", "get", "total", "h1", "alpha", "M"}
var lgWords = []string{"red", "green", "ox", "hi there", "q", "seven", "k2", "blue sky", "zed", "Mono"}

func (g *lgen) fresh(pool []string) string {
	for i := 0; i < 8; i++ {
		n := pick(g.r, pool)
		if !g.taken[n] {
			g.taken[n] = true
			return n
		}
	}
	for {
		g.seq++
		n := fmt.Sprintf("%s%d", pick(g.r, pool), g.seq)
		if !g.taken[n] {
			g.taken[n] = true
			return n
		}
	}
}

func (g *lgen) scalar() string { return pick(g.r, []string{"int", "int", "string", "string", "bool"}) }

func (g *lgen) pickVar(ok func(v *lgVar) bool) *lgVar {
	var c []*lgVar
	for i := range g.vars {
		v := &g.vars[i]
		if v.global && (g.impure || g.noGlob) && !strings.HasPrefix(v.t, "[]") {
			continue
		}
		if g.still && (!v.fixed || strings.HasPrefix(v.t, "[]")) {
			continue
		}
		if ok(v) {
			c = append(c, v)
		}
	}
	if len(c) == 0 {
		return nil
	}
	v := pick(g.r, c)
	if v.global && g.fn != nil {
		g.fn.reads = true
	}
	return v
}

// call makes a call of a function that returns what rets says, or nil.
func (g *lgen) call(rets []string, depth int) *lEx {
	type cand struct {
		f  *lgFn
		al string
	}
	var cs []cand
	fits := func(f *lgFn) bool {
		if f.impure && !g.impure || f.reads && g.still || f.cost*g.mult > g.budget-g.cost {
			return false
		}
		if rets == nil {
			return true
		}
		if len(f.f.Rets) != len(rets) {
			return false
		}
		for i := range rets {
			if f.f.Rets[i] != rets[i] {
				return false
			}
		}
		return true
	}
	me := g.mods[g.mi]
	for _, f := range me.fns {
		if fits(f) {
			cs = append(cs, cand{f, ""})
		}
	}
	for _, im := range me.imps {
		if im.std {
			continue
		}
		for _, f := range g.mods[im.to].fns {
			if publicName(f.f.N) && fits(f) {
				cs = append(cs, cand{f, im.al})
				cs = append(cs, cand{f, im.al})
			}
		}
	}
	if len(cs) == 0 {
		return nil
	}
	c := pick(g.r, cs)
	g.cost += c.f.cost * g.mult
	if c.f.impure && g.fn != nil {
		g.fn.impure = true
	}
	if c.f.reads && g.fn != nil {
		g.fn.reads = true
	}
	e := &lEx{K: "call", N: c.f.f.N, Al: c.al, Mod: c.f.mod}
	for _, p := range c.f.f.Ps {
		e.Args = append(e.Args, g.expr(p.T, depth-1))
	}
	return e
}

func (g *lgen) stdExpr(t string, depth int) *lEx {
	if g.cost+30*g.mult > g.budget {
		return nil
	}
	var al []string
	for _, im := range g.mods[g.mi].imps {
		if im.std {
			al = append(al, im.al)
		}
	}
	if len(al) == 0 {
		return nil
	}
	word := func() *lEx { return &lEx{K: "str", S: pick(g.r, []string{"red", "ox", "q", "k2", "zed", "ab"})} }
	e := &lEx{K: "std", Al: pick(g.r, al)}
	g.cost += 30 * g.mult
	switch t {
	case "bool":
		e.N = pick(g.r, []string{"Contains", "HasPrefix", "HasSuffix"})
		e.Args = []*lEx{word(), word()}
	case "string":
		switch g.r.n(3) {
		case 0:
			e.N = "Repeat"
			e.Args = []*lEx{word(), {K: "int", I: int64(1 + g.r.n(3))}}
		case 1:
			e.N = "TrimPrefix"
			e.Args = []*lEx{word(), word()}
		default:
			e.N = "Join"
			e.Args = []*lEx{{K: "slice", S: "string", Args: []*lEx{word(), word()}}, word()}
		}
	default:
		return nil
	}
	return e
}

func (g *lgen) lit(t string) *lEx {
	switch t {
	case "int":
		return &lEx{K: "int", I: int64(g.r.n(20))}
	case "bool":
		return &lEx{K: "bool", I: int64(g.r.n(2))}
	case "string":
		return &lEx{K: "str", S: pick(g.r, lgWords)}
	}
	e := &lEx{K: "slice", S: t[2:]}
	for n := 2 + g.r.n(2); n > 0; n-- {
		e.Args = append(e.Args, g.lit(t[2:]))
	}
	return e
}

// expr makes an expression of type t; depth limits its height.
func (g *lgen) expr(t string, depth int) *lEx {
	r := g.r
	if depth > 0 && r.p(45) {
		if e := g.call([]string{t}, depth); e != nil {
			return e
		}
	}
	leaf := func() *lEx {
		if r.p(60) {
			if v := g.pickVar(func(v *lgVar) bool { return v.t == t }); v != nil {
				return &lEx{K: "var", N: v.n}
			}
		}
		return g.lit(t)
	}
	if depth <= 0 || r.p(20) || g.cost+4*g.mult > g.budget {
		return leaf()
	}
	d := depth - 1
	wrap := func(e *lEx) *lEx { // operators inside an operand get a group
		if e.K == "bin" || e.K == "cmp" || e.K == "log" {
			return &lEx{K: "group", Args: []*lEx{e}}
		}
		return e
	}
	two := func(k, op, t string) *lEx {
		return &lEx{K: k, S: op, Args: []*lEx{wrap(g.expr(t, d)), wrap(g.expr(t, d))}}
	}
	if r.p(6) {
		if e := g.stdExpr(t, d); e != nil {
			return e
		}
	}
	elem := func() *lEx {
		v := g.pickVar(func(v *lgVar) bool { return v.t == "[]"+t })
		if v == nil {
			return nil
		}
		g.cost += g.mult
		return &lEx{K: "idx", N: v.n, Args: []*lEx{{K: "int", I: int64(r.n(2))}}}
	}
	switch t {
	case "int":
		switch r.n(7) {
		case 0, 1:
			return two("bin", pick(r, []string{"+", "-", "*"}), "int")
		case 2:
			return &lEx{K: "bin", S: pick(r, []string{"/", "%"}), Args: []*lEx{wrap(g.expr("int", d)), {K: "int", I: int64(1 + r.n(7))}}}
		case 3:
			g.cost += g.mult
			return &lEx{K: "len", Args: []*lEx{g.expr("string", d)}}
		case 4:
			g.cost += 2 * g.mult
			return &lEx{K: "len", Args: []*lEx{g.expr(pick(r, []string{"[]int", "[]string"}), d)}}
		case 5:
			if e := elem(); e != nil {
				return e
			}
		}
	case "string":
		switch r.n(7) {
		case 0, 1:
			return two("bin", "+", "string")
		case 2:
			return &lEx{K: "itoa", Args: []*lEx{g.expr("int", d)}}
		case 3:
			if e := elem(); e != nil {
				return e
			}
		case 4, 5:
			if v := g.pickVar(func(v *lgVar) bool { return v.t == "string" && v.fixed && v.known > 0 }); v != nil {
				a := r.n(v.known)
				if r.p(50) {
					return &lEx{K: "idx", N: v.n, Args: []*lEx{{K: "int", I: int64(a)}}}
				}
				return &lEx{K: "sub", N: v.n, Args: []*lEx{{K: "int", I: int64(a)}, {K: "int", I: int64(a + r.n(v.known-a+1))}}}
			}
		}
	case "bool":
		switch r.n(8) {
		case 0, 1:
			g.cost += g.mult
			return two("cmp", pick(r, []string{"==", "!=", "<", "<=", ">", ">="}), "int")
		case 2:
			g.cost += g.mult
			return two("cmp", pick(r, []string{"==", "!="}), "string")
		case 3, 4:
			g.cost += g.mult
			return two("log", pick(r, []string{"&&", "||"}), "bool")
		case 5:
			g.cost += g.mult
			return &lEx{K: "not", Args: []*lEx{{K: "group", Args: []*lEx{g.expr("bool", d)}}}}
		case 6:
			g.cost += g.mult
			return &lEx{K: "exists", Args: []*lEx{g.expr("string", d)}}
		}
	case "[]int", "[]string":
		if r.p(60) {
			g.cost += 2 * g.mult
			e := &lEx{K: "slice", S: t[2:]}
			for n := 2 + r.n(2); n > 0; n-- {
				e.Args = append(e.Args, g.expr(t[2:], d))
			}
			return e
		}
	}
	return leaf()
}

func (g *lgen) mode() {
	g.impure = g.r.p(55)
	g.noGlob = false
}

func (g *lgen) mark() {
	if g.fn != nil {
		g.fn.impure = true
	}
}

func (g *lgen) scoped(f func() []*lSt) []*lSt {
	n := len(g.vars)
	b := f()
	g.vars = g.vars[:n]
	return b
}

func (g *lgen) block(depth int) []*lSt {
	return g.scoped(func() []*lSt {
		top := g.top
		g.top = false
		defer func() { g.top = top }()
		var b []*lSt
		for n := g.r.n(3); n >= 0; n-- {
			b = append(b, g.stmt(depth-1))
		}
		return b
	})
}

// addVar makes a variable known. Variables of the top level itself are global.
func (g *lgen) addVar(v lgVar) {
	v.global = g.top && g.fn == nil
	g.vars = append(g.vars, v)
}

func (g *lgen) isConst(e *lEx) (int, bool) {
	if e.K == "str" {
		return len(e.S), true
	}
	return 0, false
}

func (g *lgen) stmt(depth int) *lSt {
	r := g.r
	g.mode()
	if depth <= 0 || g.cost > g.budget*8/10 {
		return g.simple()
	}
	switch r.n(14) {
	case 0, 1:
		s := &lSt{K: "if"}
		g.cost++
		n := 1 + r.n(3)*r.n(2)
		for i := 0; i < n; i++ {
			s.Ex = append(s.Ex, g.expr("bool", 2))
		}
		for i := 0; i < n; i++ {
			s.B = append(s.B, g.block(depth))
		}
		if r.p(50) {
			s.Else = true
			s.B = append(s.B, g.block(depth))
		}
		return s
	case 2:
		s := &lSt{K: "switch"}
		g.impure = false // the number of evaluations of a tag is not specified
		t := pick(r, []string{"int", "string", "bool"})
		var tag *lEx
		if r.p(75) {
			tag = g.expr(t, 1)
		} else {
			t = "bool"
		}
		s.Ex = append(s.Ex, tag)
		n := 1 + r.n(3)
		g.cost += n * g.mult
		for i := 0; i < n; i++ {
			s.Ex = append(s.Ex, g.expr(t, 1))
		}
		for i := 0; i < n; i++ {
			s.B = append(s.B, g.block(depth))
		}
		if r.p(60) {
			s.Else = true
			s.B = append(s.B, g.block(depth))
		}
		return s
	case 3, 4:
		if g.loops < 2 {
			return g.loop(depth)
		}
	case 5:
		if r.p(60) {
			if c := g.call(nil, 2); c != nil {
				return &lSt{K: "expr", Ex: []*lEx{c}}
			}
		}
	}
	return g.simple()
}

func (g *lgen) loop(depth int) *lSt {
	r := g.r
	n := 1 + r.n(3)
	old, mult, top := len(g.vars), g.mult, g.top
	defer func() { g.vars, g.mult, g.top = g.vars[:old], mult, top }()
	g.loops++
	defer func() { g.loops-- }()
	g.top = false // loop variables are not visible to functions
	g.mult *= n + 1
	body := func() []*lSt {
		b := g.block(depth)
		if r.p(15) {
			b = append([]*lSt{{K: "if", Ex: []*lEx{g.pureBool()}, B: [][]*lSt{{{K: pick(r, []string{"break", "continue"})}}}}}, b...)
		}
		return b
	}
	switch r.n(3) {
	case 0:
		v := g.fresh(lgNames)
		s := &lSt{K: "for3", Init: &lSt{K: "def", Ns: []string{v}, Ex: []*lEx{{K: "int", I: 0}}}, Post: &lSt{K: "inc", Ns: []string{v}, S: "++"}}
		if r.p(25) {
			g.mode()
			g.impure = false
			// A '{' ahead of the header's first ';' makes the parser take another form.
			if e := g.call([]string{"int"}, 1); e != nil && !strings.Contains(e.text(), "{") {
				s.Init.Ex[0] = &lEx{K: "bin", S: "*", Args: []*lEx{e, {K: "int", I: 0}}}
			}
		}
		g.vars = append(g.vars, lgVar{n: v, t: "int", fixed: true})
		cond := &lEx{K: "cmp", S: "<", Args: []*lEx{{K: "var", N: v}, {K: "int", I: int64(n)}}}
		g.impure = r.p(40)
		g.cost += g.mult * 2
		if r.p(45) {
			cond = &lEx{K: "log", S: "&&", Args: []*lEx{cond, {K: "group", Args: []*lEx{g.expr("bool", 2)}}}}
		}
		if r.p(30) {
			g.impure = r.p(40)
			if e := g.call([]string{"int"}, 1); e != nil {
				s.Post = &lSt{K: "cmpd", Ns: []string{v}, S: "+=", Ex: []*lEx{{K: "bin", S: "+", Args: []*lEx{{K: "int", I: 1}, {K: "group", Args: []*lEx{{K: "bin", S: "*", Args: []*lEx{e, {K: "int", I: 0}}}}}}}}}
			}
		}
		s.Ex = []*lEx{cond}
		s.B = [][]*lSt{body()}
		return s
	case 1:
		g.impure = false // the number of evaluations of a range operand is not specified
		t := pick(r, []string{"[]int", "[]string", "string"})
		var it *lEx
		if xs := g.pickVar(func(v *lgVar) bool { return v.t == t && t != "string" }); xs != nil && r.p(40) {
			it = &lEx{K: "var", N: xs.n}
		} else {
			g.still = true
			it = g.expr(t, 1)
			g.still = false
		}
		i, v := g.fresh(lgNames), g.fresh(lgNames)
		s := &lSt{K: "range", Ns: []string{i, v}, Ex: []*lEx{it}}
		g.vars = append(g.vars, lgVar{n: i, t: "int", fixed: true})
		if r.p(25) {
			s.Ns = s.Ns[:1]
		} else {
			g.vars = append(g.vars, lgVar{n: v, t: strings.TrimPrefix(t, "[]"), fixed: true})
		}
		g.cost += 12 * mult
		g.mult = mult * 5
		s.B = [][]*lSt{body()}
		return s
	}
	// while with a counter of its own
	v := g.fresh(lgNames)
	g.vars = append(g.vars, lgVar{n: v, t: "int", fixed: true})
	g.impure = r.p(40)
	g.cost += 2 * g.mult
	cond := &lEx{K: "cmp", S: "<", Args: []*lEx{{K: "var", N: v}, {K: "int", I: int64(n)}}}
	if r.p(40) {
		cond = &lEx{K: "log", S: "&&", Args: []*lEx{cond, {K: "group", Args: []*lEx{g.expr("bool", 1)}}}}
	}
	s := &lSt{K: "while", Ex: []*lEx{cond}}
	s.B = [][]*lSt{append([]*lSt{{K: "inc", Ns: []string{v}, S: "++"}}, g.block(depth)...)}
	// The counter is defined in a block around the loop.
	return &lSt{K: "if", Ex: []*lEx{{K: "bool", I: 1}}, B: [][]*lSt{{{K: "def", Ns: []string{v}, Ex: []*lEx{{K: "int", I: 0}}}, s}}}
}

func (g *lgen) pureBool() *lEx {
	g.impure = false
	return g.expr("bool", 1)
}

func (g *lgen) simple() *lSt {
	r := g.r
	g.mode()
	topVar := g.top && g.fn == nil
	switch k := r.n(16); k {
	case 0, 1, 2, 3:
		g.mark()
		s := &lSt{K: "print"}
		for n := 1 + r.n(3); n > 0; n-- {
			s.Ex = append(s.Ex, g.expr(g.scalar(), 2))
		}
		return s
	case 4, 5, 6: // definition
		pool := lgNames
		if topVar && r.p(30) {
			pool = lgPublicVars
		}
		if r.p(30) {
			rets := pick(r, [][]string{{"int", "string"}, {"string", "bool"}, {"int", "int"}, {"string", "int", "bool"}, {"int", "[]int"}})
			if c := g.call(rets, 2); c != nil {
				s := &lSt{K: "def", Ex: []*lEx{c}}
				for range rets {
					s.Ns = append(s.Ns, g.fresh(pool))
				}
				for i, n := range s.Ns {
					g.addVar(lgVar{n: n, t: rets[i], known: 2})
				}
				return s
			}
		}
		t := g.scalar()
		if r.p(25) {
			t = pick(r, []string{"[]int", "[]string"})
		}
		s := &lSt{K: "def"}
		var ts []string
		if r.p(15) { // several at once, with functions that read no globals
			g.impure = false
			for n := 2; n > 0; n-- {
				t := g.scalar()
				ts = append(ts, t)
				s.Ex = append(s.Ex, g.expr(t, 1))
			}
		} else {
			ts = []string{t}
			s.Ex = []*lEx{g.expr(t, 2)}
			if r.p(20) {
				s.K = "var"
				if r.p(50) {
					s.T = t
				}
			} else if r.p(10) && !strings.HasPrefix(t, "[]") {
				s.K, s.T, s.Ex = "var", t, nil
			}
		}
		for i, t := range ts {
			n := g.fresh(pool)
			s.Ns = append(s.Ns, n)
			v := lgVar{n: n, t: t}
			if len(s.Ex) > i {
				v.known, v.fixed = g.isConst(s.Ex[i])
				if v.fixed && r.p(40) {
					v.fixed = false
				}
			}
			g.addVar(v)
		}
		return s
	case 7, 8: // assignment
		imp := g.impure
		g.impure = false
		v := g.pickVar(func(v *lgVar) bool { return !v.fixed && !strings.HasPrefix(v.t, "[]") })
		g.impure = imp
		if v == nil {
			break
		}
		if v.global {
			g.mark()
		}
		n, t, glob := v.n, v.t, v.global
		switch {
		case r.p(30) && t == "int":
			return &lSt{K: "inc", Ns: []string{n}, S: pick(r, []string{"++", "--"})}
		case r.p(30) && t == "int":
			if glob {
				g.impure = false // the old value might be read after the call
			}
			return &lSt{K: "cmpd", Ns: []string{n}, S: pick(r, []string{"+=", "-="}), Ex: []*lEx{g.expr(t, 2)}}
		case r.p(30) && t == "string":
			if glob {
				g.impure = false
			}
			return &lSt{K: "cmpd", Ns: []string{n}, S: "+=", Ex: []*lEx{g.lit(t)}}
		}
		if t == "string" { // keep them short
			return &lSt{K: "asg", Ns: []string{n}, Ex: []*lEx{{K: "itoa", Args: []*lEx{g.expr("int", 1)}}}}
		}
		return &lSt{K: "asg", Ns: []string{n}, Ex: []*lEx{g.expr(t, 2)}}
	case 9: // element
		v := g.pickVar(func(v *lgVar) bool { return strings.HasPrefix(v.t, "[]") })
		if v == nil {
			break
		}
		g.mark()
		g.cost += 4 * g.mult
		idx := &lEx{K: "int", I: int64(r.n(4))}
		n, t := v.n, v.t
		if r.p(30) {
			if e := g.call([]string{"int"}, 1); e != nil {
				// Any int becomes an index 0..3.
				m := &lEx{K: "bin", S: "%", Args: []*lEx{e, {K: "int", I: 2}}}
				idx = &lEx{K: "bin", S: "+", Args: []*lEx{{K: "group", Args: []*lEx{m}}, {K: "int", I: 1}}}
			}
		}
		return &lSt{K: "sasg", Ns: []string{n}, Ex: []*lEx{idx, g.expr(t[2:], 2)}}
	case 10: // program
		g.mark()
		g.cost += 2 * g.mult
		word := func() *lEx {
			if r.p(60) {
				if e := g.call([]string{"int"}, 1); e != nil {
					return e
				}
			}
			return &lEx{K: "str", S: pick(r, lgWords)}
		}
		es := []*lEx{word()}
		if r.p(50) {
			es = append(es, word())
		}
		if r.p(50) {
			return &lSt{K: "app", Ex: es}
		}
		s := &lSt{K: "appdef", Ex: es, Ns: []string{g.fresh(lgNames), g.fresh(lgNames), g.fresh(lgNames)}}
		for i, t := range []string{"string", "string", "int"} {
			g.addVar(lgVar{n: s.Ns[i], t: t})
		}
		return s
	case 11: // file
		g.mark()
		g.cost += 5 * g.mult
		p := &lEx{K: "str", S: pick(r, []string{"file0", "file1"})}
		s := &lSt{K: "write", Ex: []*lEx{p, {K: "bin", S: "+", Args: []*lEx{{K: "str", S: pick(r, []string{"w", "k"})}, {K: "itoa", Args: []*lEx{g.expr("int", 1)}}}}}}
		if r.p(40) {
			s.Ex = append(s.Ex, &lEx{K: "bool", I: 0})
			if r.p(50) {
				g.cost += g.mult
				s.Ex[2] = &lEx{K: "log", S: "&&", Args: []*lEx{{K: "group", Args: []*lEx{g.expr("bool", 1)}}, {K: "bool", I: 0}}}
			}
		}
		// read it at once
		b := []*lSt{s, {K: "print", Ex: []*lEx{{K: "read", Args: []*lEx{p}}}}}
		return &lSt{K: "if", Ex: []*lEx{{K: "bool", I: 1}}, B: [][]*lSt{b}}
	case 12, 13:
		if c := g.call(nil, 2); c != nil {
			return &lSt{K: "expr", Ex: []*lEx{c}}
		}
	}
	g.mark()
	return &lSt{K: "print", Ex: []*lEx{g.expr(g.scalar(), 2)}}
}

// function adds one function to the current module.
func (g *lgen) function() {
	r := g.r
	me := g.mods[g.mi]
	pool := lgPrivateFns
	if r.p(60) {
		pool = lgPublicFns
	}
	used := map[string]bool{}
	for _, f := range me.fns {
		used[f.f.N] = true
	}
	name := pick(r, pool)
	for i := 0; used[name]; i++ {
		name = fmt.Sprintf("%s%d", pick(r, pool), i)
	}
	f := &lFn{N: name}
	lf := &lgFn{mod: g.mi, f: f}
	oldVars, oldTaken, oldTop := g.vars, g.taken, g.top
	g.taken = map[string]bool{}
	g.vars = nil
	for _, v := range oldVars { // visible globals
		if v.global {
			g.vars = append(g.vars, v)
		}
		g.taken[v.n] = true
	}
	for n := range oldTaken {
		g.taken[n] = true
	}
	g.fn, g.top = lf, false
	g.cost, g.budget, g.mult = 1, 12+r.n(30), 1
	g.noGlob = false
	for n := r.n(4); n > 0; n-- {
		t := g.scalar()
		if r.p(15) {
			t = pick(r, []string{"[]int", "[]string"})
		}
		p := lPar{g.fresh(lgNames), t}
		f.Ps = append(f.Ps, p)
		g.vars = append(g.vars, lgVar{n: p.N, t: t})
	}
	switch r.n(8) {
	case 0, 1:
	case 2:
		f.Rets = pick(r, [][]string{{"int", "string"}, {"string", "bool"}, {"int", "int"}, {"string", "int", "bool"}, {"int", "[]int"}})
	case 3:
		f.Rets = []string{pick(r, []string{"[]int", "[]string"})}
	default:
		f.Rets = []string{g.scalar()}
	}
	for n := r.n(4); n > 0; n-- {
		f.B = append(f.B, g.stmt(2))
		if len(f.Rets) > 0 && r.p(10) {
			g.mode()
			g.impure = false
			f.B = append(f.B, &lSt{K: "if", Ex: []*lEx{g.expr("bool", 2)}, B: [][]*lSt{{g.ret(f)}}})
		}
	}
	if len(f.Rets) > 0 {
		f.B = append(f.B, g.ret(f))
	}
	lf.cost = g.cost
	g.fn, g.vars, g.taken, g.top = nil, oldVars, oldTaken, oldTop
	me.fns = append(me.fns, lf)
	me.m.Items = append(me.m.Items, &lItem{Fn: f})
}

func (g *lgen) ret(f *lFn) *lSt {
	g.mode()
	s := &lSt{K: "ret"}
	for _, t := range f.Rets {
		s.Ex = append(s.Ex, g.expr(t, 2))
	}
	return s
}

// relTo spells path `to` from directory `dir`.
func relTo(dir, to string) string {
	d, t := strings.Split(strings.Trim(dir, "/"), "/"), strings.Split(strings.Trim(to, "/"), "/")
	i := 0
	for i < len(d) && i < len(t)-1 && d[i] == t[i] {
		i++
	}
	var out []string
	for range d[i:] {
		out = append(out, "..")
	}
	return strings.Join(append(out, t[i:]...), "/")
}

// genLinked makes a program of several files.
func genLinked(r *rng) *lProg {
	g := &lgen{r: r, p: &lProg{}}
	n := 2 + r.n(3)*r.n(3)
	if r.p(10) {
		n = 1
	}
	if r.p(3) {
		n = 7 + r.n(14)
	}
	dirs := []string{"/src/app", "/src/app", "/src/app/lib", "/src/app/lib/deep", "/src/shared", "/src/0abc", "/src/app/a b", "/src", "/src/shared/lib", "/src/0abc/lib", "/src/app/lib/lib"}
	used := map[string]bool{}
	alike := r.p(20) // files share their name, and maybe their folders'
	for i := 0; i < n; i++ {
		p := "/src/app/main.tsh"
		for i > 0 && (used[p] || p == "/src/app/main.tsh" || strings.HasSuffix(p, "/lib")) {
			p = pick(r, dirs) + "/" + pick(r, []string{"a", "b", "util", "lib", "strings", "os", "0", "main", "x-y", "Mod", "dep"}) + pick(r, []string{".tsh", ".tsh", ".tsh", "", ".txt"})
			if alike && r.p(80) {
				p = pick(r, dirs) + "/util.tsh"
			}
		}
		if i > 0 && r.p(12) {
			if q := lgStdDir + pick(r, lgStdNames) + ".tsh"; !used[q] {
				p = q
			}
		}
		used[p] = true
		m := &lMod{Path: p, Style: r.n(4)}
		g.p.Mods = append(g.p.Mods, m)
		g.mods = append(g.mods, &lgMod{m: m})
	}
	// The import graph: edges go from lower to higher numbers.
	edges := map[[2]int]bool{}
	for j := 1; j < n; j++ {
		edges[[2]int{r.n(j), j}] = true
		for i := 0; i < j; i++ {
			if r.p(25) {
				edges[[2]int{i, j}] = true
			}
		}
	}
	for i := n - 1; i >= 0; i-- {
		me := g.mods[i]
		al := map[string]bool{}
		alias := func() string {
			for {
				a := pick(r, lgAliases)
				if al[a] {
					a = fmt.Sprintf("%s%d", a, r.n(90))
				}
				if !al[a] {
					al[a] = true
					return a
				}
			}
		}
		add := func(j int) {
			to := g.p.Mods[j].Path
			if strings.HasPrefix(to, lgStdDir) {
				im := g.stdImport(me.m.Path, to, used)
				im.To = j
				if im.Std != "" && !al[im.Std] && r.p(40) {
					al[im.Std] = true
				} else {
					im.Al = alias()
				}
				me.m.Imps = append(me.m.Imps, im)
				me.imps = append(me.imps, lgImp{al: im.alias(), to: j})
				return
			}
			a := alias()
			p := relTo(path.Dir(me.m.Path), to)
			k := r.n(12)
			if strings.HasPrefix(me.m.Path, lgStdDir) {
				k = 3 * r.n(2) // the folder of the executable may be anywhere
			}
			for _, im := range g.p.Mods[j].Imps {
				if im.To >= 0 && !strings.HasPrefix(im.P, "/") && k >= 4 {
					k = 11 // its own imports would be looked for next to the link
				}
			}
			switch k {
			case 0:
				p = to
			case 1:
				p = "./" + p
			case 2:
				p = "x/../" + p
			case 3:
				p = path.Dir(to) + "//" + path.Base(to)
			case 4:
				p = fmt.Sprintf("/links/m%d", j) // a symbolic link to the file
			case 5:
				p = fmt.Sprintf("/links/d%d/%s", j, path.Base(to)) // through a linked directory
			}
			me.m.Imps = append(me.m.Imps, lImp{Al: a, P: p, To: j})
			me.imps = append(me.imps, lgImp{al: a, to: j})
		}
		for j := i + 1; j < n; j++ {
			if edges[[2]int{i, j}] {
				add(j)
				for r.p(15) {
					add(j)
				}
			}
		}
		if r.p(25) {
			im := lImp{P: pick(r, []string{"strings", "strings.tsh"}), To: -1, Std: "strings"}
			// A file of that name next to the importer comes first.
			if !used[path.Dir(me.m.Path)+"/"+im.P] {
				if r.p(40) || al["strings"] || strings.HasPrefix(me.m.Path, lgStdDir) {
					im.Al = alias()
				} else {
					al["strings"] = true
				}
				a := im.Al
				if a == "" {
					a = "strings"
				}
				me.m.Imps = append(me.m.Imps, im)
				me.imps = append(me.imps, lgImp{al: a, std: true})
			}
		}
		shuffle(r, me.m.Imps)
	}
	for i := n - 1; i >= 0; i-- {
		g.mi = i
		me := g.mods[i]
		g.vars, g.taken, g.fn = nil, map[string]bool{}, nil
		for _, im := range me.imps {
			g.taken[im.al] = true // a variable of that name would hide the import
		}
		g.mult, g.cost = 1, 0
		items := 2 + r.n(6)
		if r.p(10) {
			items = r.n(2)
		}
		for k := 0; k < items; k++ {
			if r.p(50) {
				g.function()
				continue
			}
			g.top = true
			g.cost, g.budget, g.mult = 0, 40, 1
			me.m.Items = append(me.m.Items, &lItem{St: g.stmt(3)})
		}
		if i == 0 {
			for k := 1 + r.n(4); k > 0; k-- {
				g.top, g.cost, g.budget, g.mult = true, 0, 60, 1
				g.impure = true
				if r.p(70) {
					g.impure = true
					if c := g.call(nil, 3); c != nil {
						me.m.Items = append(me.m.Items, &lItem{St: &lSt{K: "expr", Ex: []*lEx{c}}})
						continue
					}
				}
				me.m.Items = append(me.m.Items, &lItem{St: g.stmt(3)})
			}
			if r.p(8) {
				g.impure = true
				me.m.Items = append(me.m.Items, &lItem{St: &lSt{K: "panic", Ex: []*lEx{g.expr("string", 2)}}})
			}
		}
	}
	for _, m := range g.p.Mods {
		if r.p(50) {
			m.Tail = fmt.Sprintf("v%d", r.n(1<<20))
		}
	}
	if n > 2 && r.p(7) {
		g.p.collide(r, 1+r.n(n-1))
	}
	if r.p(8) {
		g.p.hashShape(r)
	}
	if n > 1 && r.p(10) {
		for n := 1 + r.n(2)*r.n(4); n > 0; n-- {
			g.p.twin(r)
		}
	}
	if r.p(4) {
		g.p.tower(r)
	}
	if r.p(3) {
		g.p.bulk(r)
	}
	for _, m := range g.p.Mods {
		if r.p(12) {
			m.Style |= 4 | r.n(64)<<5
		}
		if m.Tail == "" && r.p(5) {
			m.Style |= 8
		}
		if m.Tail == "" && r.p(8) {
			m.Style |= 16
		}
	}
	return g.p
}

// tower adds many functions to a file, of which some lead to each other.
func (p *lProg) tower(r *rng) {
	k := r.n(len(p.Mods))
	main, m := p.Mods[0], p.Mods[k]
	al := ""
	for _, im := range main.Imps {
		if im.To == k {
			al = im.alias()
		}
	}
	if k > 0 && al == "" {
		k, m = 0, main
	}
	size := 20 + r.n(100)
	name := func(i int) string {
		if i == size-1 {
			return "Tower"
		}
		return fmt.Sprintf("tower%d", i)
	}
	chain := r.p(60)
	var items []*lItem
	for i := 0; i < size; i++ {
		e := &lEx{K: "int", I: int64(i % 5)}
		if i > 0 && (chain || r.p(80)) {
			to := i - 1
			if !chain {
				to = r.n(i)
			}
			e = &lEx{K: "bin", S: "+", Args: []*lEx{{K: "call", N: name(to), Mod: k}, e}}
		}
		items = append(items, &lItem{Fn: &lFn{N: name(i), Rets: []string{"int"}, B: one(&lSt{K: "ret", Ex: []*lEx{e}})}})
	}
	m.Items = append(items, m.Items...)
	c := &lEx{K: "call", N: name(size - 1), Mod: k}
	if k > 0 {
		c.Al = al
	}
	main.Items = append(main.Items, &lItem{St: &lSt{K: "print", Ex: []*lEx{c}}})
	if r.p(50) && len(main.Items) > 0 && k > 0 {
		main.Items = append([]*lItem{{St: &lSt{K: "print", Ex: []*lEx{c}}}}, main.Items...)
	}
}

// bulk makes a file long, or nests a statement of it deeply.
func (p *lProg) bulk(r *rng) {
	v := func() *lEx { return &lEx{K: "var", N: "bulk"} }
	num := func() *lEx { return &lEx{K: "int", I: int64(r.n(9))} }
	b := []*lSt{{K: "def", Ns: []string{"bulk"}, Ex: []*lEx{num()}}}
	var more []*lSt
	size := 100 + r.n(1000)
	deep := r.p(30)
	if deep {
		size = 5 + r.n(60)
	}
	for i := 0; i < size; i++ {
		var s *lSt
		switch r.n(4) {
		case 0:
			s = &lSt{K: "cmpd", Ns: []string{"bulk"}, S: "+=", Ex: []*lEx{num()}}
		case 1:
			s = &lSt{K: "inc", Ns: []string{"bulk"}, S: pick(r, []string{"++", "--"})}
		case 2:
			s = &lSt{K: "asg", Ns: []string{"bulk"}, Ex: []*lEx{{K: "bin", S: pick(r, []string{"+", "-"}), Args: []*lEx{v(), num()}}}}
		default:
			s = &lSt{K: "if", Ex: []*lEx{{K: "cmp", S: pick(r, []string{"==", ">", "<="}), Args: []*lEx{v(), num()}}}, B: [][]*lSt{{{K: "inc", Ns: []string{"bulk"}, S: "++"}}}}
		}
		if deep {
			t := &lSt{K: "if", Ex: []*lEx{{K: "cmp", S: ">=", Args: []*lEx{v(), {K: "int", I: -1000}}}}, B: [][]*lSt{{s}}}
			if len(more) > 0 {
				t.B[0] = append(t.B[0], more[0])
			}
			if r.p(20) {
				t.B[0] = append(t.B[0], &lSt{K: "print", Ex: []*lEx{v()}})
			}
			more = []*lSt{t}
			continue
		}
		more = append(more, s)
	}
	b = append(append(b, more...), &lSt{K: "print", Ex: []*lEx{v()}})
	m := p.Mods[r.n(len(p.Mods))]
	for _, s := range b {
		m.Items = append(m.Items, &lItem{St: s})
	}
}

// Modules of the standard library besides the ones of the repository. Their
// folder moves with the executable.
const lgStdDir = "/opt/typeshell/std/"

var lgStdNames = []string{"math", "util", "a", "text.util", "net/http", "net/x.y", "fmt", "lib", "strings.ext", "Main", "x-y"}

// stdImport spells an import of a standard library file; Std is the name it
// has without an alias.
func (g *lgen) stdImport(from, to string, used map[string]bool) lImp {
	name := strings.TrimSuffix(strings.TrimPrefix(to, lgStdDir), ".tsh")
	base := path.Base(name)
	im := lImp{P: name + ".tsh"}
	if !strings.Contains(base, ".") && g.r.p(60) {
		im.P = name
		if g.r.p(15) {
			im.P = name + pick(g.r, []string{".txt", ".sh", ".x"}) // the extension doesn't matter
		}
	}
	if g.r.p(10) {
		im.P = "./" + im.P
	}
	// A local file (or folder) of that name comes first.
	at := path.Join(path.Dir(from), im.P)
	local := map[string]bool{"/src/app/lib": true} // the working directory of some runs
	for u := range used {
		local[u] = true
	}
	for u := range local {
		if u != to && (u == at || strings.HasPrefix(u, at+"/")) {
			im.P = name + ".zz"
			at = ""
			break
		}
	}
	plain := strings.Trim(base, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") == ""
	if plain && !used[at] {
		im.Std = base
	}
	return im
}

func (im lImp) alias() string {
	if im.Al == "" {
		return im.Std
	}
	return im.Al
}

func hash7(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:7] }

// collide makes two files share the first seven digits of their hashes.
func (p *lProg) collide(r *rng, a int) {
	b := 1 + r.n(len(p.Mods)-1)
	if a == b {
		return
	}
	ma, mb := p.Mods[a], p.Mods[b]
	seen := map[string]string{}
	base := ma.text()
	if ma.Tail != "" {
		base = strings.TrimSuffix(base, "// "+ma.Tail+"\n")
	}
	for i := 0; i < 1<<15; i++ {
		t := fmt.Sprintf("c%d", i)
		seen[hash7(base+"// "+t+"\n")] = t
	}
	base = mb.text()
	if mb.Tail != "" {
		base = strings.TrimSuffix(base, "// "+mb.Tail+"\n")
	}
	for i := 0; i < 1<<16; i++ {
		t := fmt.Sprintf("d%d", i)
		if o, ok := seen[hash7(base+"// "+t+"\n")]; ok {
			ma.Tail, mb.Tail = o, t
			return
		}
	}
}

// hashShape gives one imported file a hash prefix of an unusual shape.
func (p *lProg) hashShape(r *rng) {
	if len(p.Mods) < 2 {
		return
	}
	m := p.Mods[1+r.n(len(p.Mods)-1)]
	shape := r.n(4)
	for i := 0; i < 1<<14; i++ {
		m.Tail = fmt.Sprintf("s%d", i)
		h := hash7(m.text())
		digits := strings.Trim(h, "0123456789") == ""
		switch {
		case shape == 0 && digits,
			shape == 1 && h[0] == '0' && digits,
			shape == 2 && strings.Trim(h, "abcdef") == "",
			shape == 3 && h[0] >= '0' && h[0] <= '9' && h[1] == 'e':
			return
		}
	}
}

// twin adds a file with the same content as another one, which is still a
// module of its own.
func (p *lProg) twin(r *rng) {
	// Only a file without relative imports keeps its meaning at another place.
	for try := 0; try < 6; try++ {
		j := 1 + r.n(len(p.Mods)-1)
		m := p.Mods[j]
		ok := true
		for _, im := range m.Imps {
			ok = ok && (im.To < 0 || strings.HasPrefix(im.P, "/"))
		}
		if !ok {
			continue
		}
		al := "twin"
		for _, im := range p.Mods[0].Imps {
			if im.Al == al {
				al += "n"
			}
		}
		q := &lMod{Path: "/src/" + al + "/" + path.Base(m.Path), Imps: m.Imps, Items: m.Items, Tail: m.Tail, Style: m.Style}
		k := len(p.Mods)
		// References to the file's own functions lead to the copy's own ones.
		q.Items = retarget(m.Items, j, k)
		p.Mods = append(p.Mods, q)
		main := p.Mods[0]
		main.Imps = append(main.Imps, lImp{Al: al, P: relTo("/src/app", q.Path), To: k})
		// Use both, the copy first and last.
		for _, it := range m.Items {
			if it.Fn != nil && publicName(it.Fn.N) {
				ok := true
				call := &lEx{K: "call", Al: al, Mod: k, N: it.Fn.N}
				for _, pr := range it.Fn.Ps {
					if strings.HasPrefix(pr.T, "[]") {
						call.Args = append(call.Args, &lEx{K: "slice", S: pr.T[2:], Args: []*lEx{{K: "bool"}, {K: "bool"}}})
						ok = false
						continue
					}
					call.Args = append(call.Args, map[string]*lEx{"int": {K: "int", I: 3}, "string": {K: "str", S: "tw"}, "bool": {K: "bool", I: 1}}[pr.T])
				}
				if !ok {
					continue
				}
				st := &lSt{K: "expr", Ex: []*lEx{call}}
				if len(it.Fn.Rets) == 1 && !strings.HasPrefix(it.Fn.Rets[0], "[]") {
					st.K = "print"
				}
				main.Items = append([]*lItem{{St: st}}, main.Items...)
				main.Items = append(main.Items, &lItem{St: st})
			}
		}
		return
	}
}

func retarget(items []*lItem, from, to int) []*lItem {
	var ex func(e *lEx) *lEx
	ex = func(e *lEx) *lEx {
		if e == nil {
			return nil
		}
		c := *e
		if c.K == "call" && c.Al == "" && c.Mod == from {
			c.Mod = to
		}
		c.Args = nil
		for _, a := range e.Args {
			c.Args = append(c.Args, ex(a))
		}
		return &c
	}
	var st func(s *lSt) *lSt
	sts := func(xs []*lSt) []*lSt {
		var out []*lSt
		for _, s := range xs {
			out = append(out, st(s))
		}
		return out
	}
	st = func(s *lSt) *lSt {
		if s == nil {
			return nil
		}
		c := *s
		c.Ex, c.B = nil, nil
		for _, e := range s.Ex {
			c.Ex = append(c.Ex, ex(e))
		}
		c.Init, c.Post = st(s.Init), st(s.Post)
		for _, b := range s.B {
			c.B = append(c.B, sts(b))
		}
		return &c
	}
	var out []*lItem
	for _, it := range items {
		if it.St != nil {
			out = append(out, &lItem{St: st(it.St)})
			continue
		}
		f := *it.Fn
		f.B = sts(it.Fn.B)
		out = append(out, &lItem{Fn: &f})
	}
	return out
}
