package main

import (
	"fmt"
	"regexp"
	"strings"
)

var tokenRe = regexp.MustCompile("(?s)`[^`]*`|\"(?:[^\"\\\\]|\\\\.)*\"|//[^\n]*|/\\*.*?\\*/|[A-Za-z_][A-Za-z0-9_]*|[0-9]+|\n|[ \t\r]+|:=|==|!=|<=|>=|&&|\\|\\||\\+\\+|--|[-+*/%]=|.")

func tokenise(s string) []string { return tokenRe.FindAllString(s, -1) }

var vocabulary = []string{"import", "var", "func", "return", "if", "else", "switch", "case", "default", "for", "range", "break", "continue", "nil",
	"len", "print", "input", "copy", "itoa", "exists", "read", "write", "panic", "bool", "int", "string", "error", "true", "false",
	"(", ")", "[", "]", "{", "}", "&&", "||", "<", "<=", ">", ">=", "==", "!=", "+=", "-=", "*=", "/=", "%=", "=", ":=", "++", "--", "!",
	"+", "-", "*", "/", "%", ",", ":", ";", ".", " ", "\t", "@", "|", "\n", "0", "1", "-1", "99999999999999999999", "1.5", `""`, `"a"`, "``", "x", "X", "_",
	"[]int", "[]string", "[]bool", "[]", "{}", "()", "//", "/*", "*/", "\"", "`", "\\", "#", "$", "?", "~", "é", "\x00", "\xff", "\r", "...", "x()", "x[0]", "x.Y()", "@a()", "[]int{}", "[]string{\"\"}", "f(", "return 1", "{\n", "\n}", "print()", "len(x)", "x++", "x := 1", "a, b := 1, 2", "a, b"}

// mutateTokens makes n random token edits.
func mutateTokens(r *rng, s string, n int) string {
	ts := tokenise(s)
	for ; n > 0; n-- {
		if len(ts) == 0 {
			ts = []string{pick(r, vocabulary)}
			continue
		}
		i := r.n(len(ts))
		for k := 0; k < 4 && strings.TrimSpace(ts[i]) == "" && ts[i] != "\n"; k++ {
			i = r.n(len(ts))
		}
		switch r.n(9) {
		case 0, 1:
			ts = append(ts[:i:i], ts[i+1:]...)
		case 2:
			ts[i] = pick(r, vocabulary)
		case 3:
			ts = append(ts[:i:i], append([]string{pick(r, vocabulary)}, ts[i:]...)...)
		case 4:
			ts[i] = ts[r.n(len(ts))]
		case 5:
			j := r.n(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 6:
			ts = append(ts[:i:i], append([]string{ts[i]}, ts[i:]...)...)
		case 7: // move a run
			j := i + r.n(len(ts)-i)
			if j > i+12 {
				j = i + 12
			}
			run := append([]string(nil), ts[i:j]...)
			if r.p(50) {
				ts = append(ts[:i:i], ts[j:]...)
			}
			k := r.n(len(ts) + 1)
			ts = append(ts[:k:k], append(run, ts[k:]...)...)
		case 8: // end here
			ts = ts[:i]
		}
	}
	return strings.Join(ts, "")
}

// mutateBytes makes n random byte-level edits.
func mutateBytes(r *rng, s string, n int) string {
	b := []byte(s)
	for ; n > 0; n-- {
		if len(b) == 0 {
			b = append(b, byte(r.n(256)))
			continue
		}
		i := r.n(len(b))
		switch r.n(6) {
		case 0:
			b[i] ^= 1 << uint(r.n(8))
		case 1:
			b[i] = byte(r.n(256))
		case 2:
			b = append(b[:i:i], append([]byte{pick(r, []byte("\"`\\/*(){}[]\n\r\t :=,.;@|!<>&+-%_a0\x00\xff"))}, b[i:]...)...)
		case 3:
			j := i + r.n(20)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 4:
			b = b[:i]
		case 5:
			j := i + r.n(40)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		}
	}
	return string(b)
}

// soup is an arbitrary token sequence.
func soup(r *rng, n int) string {
	var sb strings.Builder
	for ; n > 0; n-- {
		sb.WriteString(pick(r, vocabulary))
		if r.p(60) {
			sb.WriteByte(' ')
		} else if r.p(20) {
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

func garbage(r *rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.n(256))
	}
	return string(b)
}

// nested are shapes that recurse: prefix, opener, middle, closer, suffix.
var nested = [][5]string{
	{"a := ", "(", "1", ")", "\n"},
	{"a := ", "(", "", "", ""},
	{"", "if true {\n", "", "}\n", ""},
	{"", "for {\n", "", "}\n", ""},
	{"", "switch {\ncase true:\n", "print(1)\n", "}\n", ""},
	{"", "if true {\n} else ", "if true {\n}", "", "\n"},
	{"a := ", "[]int{", "1", "}", "\n"},
	{"a := ", "len(", `"x"`, ")", "\n"},
	{"a := ", "itoa(len(", `"x"`, "))", "\n"},
	{"a := ", "input(", "", ")", "\n"},
	{"", "print(", "", ")", "\n"},
	{"b := []int{1}\na := ", "b[", "0", "]", "\n"},
	{"b := \"s\"\na := ", "b[", "0", "]", "\n"},
	{"", "@a(", "", ")", "\n"},
	{"a := true", " == true", "", "", "\n"},
	{"a := 1", " + 1", "", "", "\n"},
	{"a := true", " && true", "", "", "\n"},
	{"a := ", "!", "true", "", "\n"},
	{"a := ", "!(", "true", ")", "\n"},
	{"@a()", " | @a()", "", "", "\n"},
	{"func f(a int) int {\nreturn a\n}\nb := ", "f(", "1", ")", "\n"},
	{"", "func f() {\n", "", "}\n", ""},
	{"a := 1 == ", "1 == (", "1", ")", "\n"},
	{"switch ", "(", "1", ")", " {\ncase 1:\nprint(1)\n}\n"},
	{"a := copy(", "copy(", "b", ", b)", ", b)\n"},
	{"a := ", "exists(", "", "", ""},
	{"a := ", "read(", "\"x\"", ")", "\n"},
	{"", "/*", " c ", "*/", "\n"},
	{"import (\n", "a \"x\"\n", "", "", ")\n"},
	{"import ", "(", "", ")", "\n"},
	{"a", ", a", "", "", " := 1\n"},
	{"var a", ", a", " int = 1", ", 1", "\n"},
	{"func f() (", "int, ", "int", "", ") {\nreturn 1\n}\n"},
	{"func f(", "a int, ", "", "", ") {\n}\n"},
	{"a := \"", "\\\\", "", "", "\"\n"},
	{"a := \"", "x", "", "", "\n"},
	{"a := ", "-", "1", "", "\n"},
	{"a := ", "\"x\" + ", "\"y\"", "", "\n"},
	{"", "\n", "", "", ""},
	{"", "x := 1\n", "", "", ""},
	{"a := ", "nil[", "0", "]", "\n"},
	{"for i := 0; ", "(", "true", ")", "; i++ {\n}\n"},
	{"for i, v := range ", "(", "\"s\"", ")", " {\n}\n"},
}

func nest(shape [5]string, n int) string {
	return shape[0] + strings.Repeat(shape[1], n) + shape[2] + strings.Repeat(shape[3], n) + shape[4]
}

// layered is a call graph of l layers of w functions, each calling every
// function of the layer below.
func layered(r *rng, l, w int) string {
	var sb strings.Builder
	for i := 0; i < l; i++ {
		for j := 0; j < w; j++ {
			fmt.Fprintf(&sb, "func f%d_%d() {\n", i, j)
			for k := 0; i > 0 && k < w; k++ {
				fmt.Fprintf(&sb, "f%d_%d()\n", i-1, k)
			}
			sb.WriteString("}\n")
		}
	}
	fmt.Fprintf(&sb, "f%d_%d()\n", l-1, r.n(w))
	return sb.String()
}

// statements are lines that are valid somewhere: moved to the wrong place they
// make near misses that token edits rarely reach.
var statements = []string{"break", "continue", "return", "return 1", "return 1, 2", "return nil", "return f()", "f()", "x := f()", "x = f()", "var x = f()", "x, y := f()",
	"print(f())", "x++", "x--", "x += 1", "x[0] = 1", "x[0] = nil", "x = nil", "x := nil", "var x string", "var x []int", "var x, y int", "var x, y = 1, \"\"", "x, y := 1, 2", "x, y = y, x", "x := []string{\"\"}",
	"x := []bool{}", "x, y, z := @ls()", "@ls()", "@ls(\"a\") | @grep(\"b\")", "x := @ls()", "x := \"s\"[0]", "x := len([]int{1})", "x := \"abc\"[1:2]", "x := x[:1]", "copy(x, x)", "x := copy(x, y)", "write(\"a\", \"b\")", "write(\"a\", \"b\", true)", "x := read(\"a\")", "x := exists(\"a\")", "read(\"a\")", "exists(\"a\")",
	"input()", "x := input(\"p\")", "panic(\"e\")", "itoa(1)", "len(\"\")", "import \"strings\"", "strings.Contains(\"a\", \"b\")", "x := strings.Index(\"a\", \"b\")", "1", "\"s\"", "x", "nil", "true", "{", "}", "} else {", "} else if true {", "if x {", "if true {", "if f() {", "for {", "for true {", "for i := 0; i < 3; i++ {", "for i := range x {", "for i, v := range x {", "for i, v := range f() {", "for ; ; {", "for i := 0; ; {", "switch {", "switch x {", "switch f() {", "switch true {", "case 1:", "case x:", "case true:", "case f():", "case \"a\":", "default:", "func f() {", "func f(x int) {", "func g() int {", "func g() (int, string) {", "func main() {", "return f(), f()", "print(x, y)", "print()", "// c", "/* c */", "x := (1)", "x := !true", "x := 1 == 2 && true", "x := g() + g()", "f(g())", "f(1, 2)"}

// wholeBlocks are inserted as they are.
var wholeBlocks = []string{"if true {\nbreak\n}", "if true {\ncontinue\n}", "switch 1 {\ncase 1:\nbreak\n}", "switch {\ndefault:\nbreak\n}", "switch 1 {\ncase 1:\ncontinue\n}", "for {\nswitch 1 {\ncase 1:\nbreak\n}\n}", "for {\nfunc q() {\nbreak\n}\n}", "func q() {\nbreak\n}", "func q() {\nswitch 1 {\ncase 1:\nbreak\n}\n}", "for {\nif true {\nbreak\n}\ncontinue\n}", "func q() int {\nfor {\nreturn 1\n}\n}", "func q() int {\nif true {\nreturn 1\n}\nreturn 2\n}", "switch {\n}", "for {\n}", "if true {\n}", "func q() {\n}", "func q() {\nq()\n}\nq()", "func q() int {\nreturn q()\n}\nprint(q())"}

// mutateLines makes n random edits of whole lines.
func mutateLines(r *rng, s string, n int) string {
	ls := strings.Split(s, "\n")
	for ; n > 0; n-- {
		i := r.n(len(ls))
		ins := func(at int, xs ...string) {
			ls = append(ls[:at:at], append(append([]string(nil), xs...), ls[at:]...)...)
		}
		switch r.n(9) {
		case 0:
			if len(ls) > 1 {
				ls = append(ls[:i:i], ls[i+1:]...)
			}
		case 1:
			j := r.n(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		case 2:
			ins(r.n(len(ls)+1), ls[i])
		case 3:
			ins(i, strings.Split(pick(r, wholeBlocks), "\n")...)
		case 4:
			ls[i] = pick(r, statements)
		case 5: // move a run
			j := i + 1 + r.n(6)
			if j > len(ls) {
				j = len(ls)
			}
			run := append([]string(nil), ls[i:j]...)
			ls = append(ls[:i:i], ls[j:]...)
			ins(r.n(len(ls)+1), run...)
			if len(ls) == 0 {
				ls = []string{""}
			}
		case 6: // a template with a name of this program in it
			t := pick(r, statements)
			if ids := identRe.FindAllString(s, -1); len(ids) > 0 {
				t = regexp.MustCompile(`\b[xyfg]\b`).ReplaceAllStringFunc(t, func(string) string { return pick(r, ids) })
			}
			ins(i, t)
		default:
			ins(i, pick(r, statements))
		}
	}
	return strings.Join(ls, "\n")
}

var identRe = regexp.MustCompile(`\b[A-Za-z_][A-Za-z0-9_]*\b`)
