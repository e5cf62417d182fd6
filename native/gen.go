package main

import (
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// gen generates inputs.
type gen struct {
	r    *rand.Rand
	dict []string // the literals of the repository's code
	seen map[string]bool
	// the style of the current input
	comments, newline int
}

// theDict are the literals of the code, once they are collected.
var theDict []string

func newGen(r *rand.Rand) *gen {
	g := &gen{r: r, seen: map[string]bool{}}
	if theDict != nil {
		g.dict = theDict
		return g
	}
	root := "/repo"
	if x := os.Getenv("GOCV_REPO"); x != "" {
		root = x
	}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		g.harvest(p)
		return nil
	})
	theDict = g.dict
	return g
}

// harvest collects the string and character literals of a Go file.
func (g *gen) harvest(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	fs := token.NewFileSet()
	var s scanner.Scanner
	s.Init(fs.AddFile(file, fs.Base(), len(b)), b, nil, 0)
	prev := token.ILLEGAL
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return
		}
		if (t == token.STRING || t == token.CHAR) && prev != token.IMPORT {
			var x string
			if t == token.CHAR {
				if r, _, _, err := strconv.UnquoteChar(lit[1:len(lit)-1], '\''); err == nil {
					x = string(r)
				}
			} else {
				x, _ = strconv.Unquote(lit)
			}
			if x != "" && len(x) < 40 && !g.seen[x] && !strings.Contains(x, "%") && !strings.Contains(x, "github.com") {
				g.seen[x] = true
				g.dict = append(g.dict, x)
			}
		}
		prev = t
	}
}

func (g *gen) n(k int) int            { return g.r.Intn(k) }
func (g *gen) p(percent int) bool     { return g.r.Intn(100) < percent }
func (g *gen) of(xs ...string) string { return xs[g.r.Intn(len(xs))] }
func (g *gen) dictWord() string       { return g.dict[g.r.Intn(len(g.dict))] }
func (g *gen) times(max, p int) (n int) {
	for n < max && g.p(p) {
		n++
	}
	return
}

// ---- tokens

var keywords = strings.Fields("syntax edition service rpc returns message extend import package option repeated required optional weak public oneof map reserved extensions number full_name type declaration enum stream group true false inf nan to max proto2 proto3 string int32 bool double bytes uint64")

func (g *gen) ident() string {
	switch g.n(12) {
	case 0:
		return keywords[g.n(len(keywords))]
	case 1:
		return g.of("a", "_", "_x1", "A9_", "Foo", "Bar", "foo_bar", "X")
	case 2:
		w := g.dictWord()
		for _, r := range w {
			if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
				return "w"
			}
		}
		return w
	}
	n := 1 + g.n(6)
	var b []byte
	for i := 0; i < n; i++ {
		c := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
		k := len(c)
		if i == 0 {
			k -= 10
		}
		b = append(b, c[g.n(k)])
	}
	return string(b)
}

func (g *gen) capIdent() string {
	x := g.ident()
	return strings.ToUpper(x[:1]) + x[1:]
}

func (g *gen) digits(set string, max int) string {
	n := 1 + g.n(max)
	b := make([]byte, n)
	for i := range b {
		b[i] = set[g.n(len(set))]
	}
	return string(b)
}

func (g *gen) intLit() string {
	switch g.n(8) {
	case 0:
		return "0"
	case 1:
		return "0" + g.digits("01234567", 3)
	case 2:
		return g.of("0x", "0X") + g.digits("0123456789abcdefABCDEF", 4)
	case 3:
		return g.of("18446744073709551615", "536870911", "19000", "007", "0x0", "00")
	}
	return g.of("1", "2", "3", "4", "5", "6", "7", "8", "9") + g.times2("0123456789", 3)
}

func (g *gen) times2(set string, max int) string {
	n := g.n(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = set[g.n(len(set))]
	}
	return string(b)
}

func (g *gen) floatLit() string {
	d := "0123456789"
	exp := g.of("e", "E") + g.of("", "+", "-") + g.digits(d, 2)
	switch g.n(6) {
	case 0:
		return g.of("inf", "nan")
	case 1:
		return g.digits("123456789", 2) + exp
	case 2:
		return "." + g.digits(d, 2) + g.of("", exp)
	case 3:
		return "0." + g.times2(d, 2) + g.of("", exp)
	case 4:
		return "0" + exp
	}
	return g.digits("123456789", 1) + g.times2(d, 2) + "." + g.times2(d, 2) + g.of("", exp)
}

func (g *gen) strChar(q string) string {
	switch g.n(14) {
	case 0:
		return `\` + g.of("a", "b", "f", "n", "r", "t", "v", `\`, "'", `"`)
	case 1:
		return `\x` + g.digits("0123456789abcdefABCDEF", 2)
	case 2:
		return `\` + g.digits("01234567", 3)
	case 3:
		if q == `"` {
			return "'"
		}
		return `"`
	case 4:
		return g.of("é", "日", "😀", "\t", "{", "}", ";", "//", "/*", " ", "\ufeff", "\r", "%", "=")
	case 5:
		w := g.dictWord()
		if !strings.ContainsAny(w, "\"'\\\n\x00") {
			return w
		}
		return "."
	case 6:
		return `\` + g.of("q", "u0041", "U0010", "0", "8", "xg", "X4", "?", "é", "1é", "x4é")
	}
	return g.of("a", "b", "c", "/", ".", "Z", "0", "_", "-", "proto")
}

func (g *gen) strLit() string {
	q := g.of(`"`, `"`, `'`)
	n := g.n(5)
	x := q
	for i := 0; i < n; i++ {
		x += g.strChar(q)
	}
	return x + q
}

func (g *gen) comment() string {
	w := g.of("", " c", " TODO: x", "é", " a \"b\" ;", " {", "/", "*", " foo; // bar", " \t", "-", " \r", "日本 ", " proto3", g.word())
	if g.n(400) == 0 {
		w = strings.Repeat(g.of(" ", "x", "é", "*", "/", " // "), 1<<uint(1+g.n(13))+g.n(4))
		if strings.Contains(w, "*") {
			w += " "
		}
	}
	if g.p(55) {
		return "//" + w + "\n"
	}
	if strings.HasSuffix(w, "/") || strings.Contains(w, "*/") {
		w = ""
	}
	return "/*" + w + g.of("", "\n", "\n * b\n", "*", "é\n\n", " // ") + "*/"
}

func (g *gen) word() string {
	w := g.dictWord()
	if strings.ContainsAny(w, "\n") || strings.Contains(w, "*/") {
		return ""
	}
	return w
}

func (g *gen) space() string {
	if g.n(500) == 0 {
		return strings.Repeat(g.of(" ", " ", "\t", "\n", "\u3000", " \n"), 1<<uint(1+g.n(13))+g.n(4))
	}
	switch g.n(12) {
	case 0:
		return "\t"
	case 1:
		return "\r\n"
	case 2:
		return "\n\n"
	case 3:
		return g.of("\u00a0", "\u0085", "\v", "\f", "\u2028", "\u3000", "  ")
	case 4, 5, 6:
		return "\n"
	}
	return " "
}

// ---- token lists

func joinLit(parts ...string) []string {
	var r []string
	for _, p := range parts {
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

func (g *gen) fullIdent() []string {
	r := []string{g.ident()}
	for n := g.times(3, 30); n > 0; n-- {
		r = append(r, ".", g.ident())
	}
	return r
}

func (g *gen) messageType() []string {
	var r []string
	if g.p(20) {
		r = append(r, ".")
	}
	return append(r, g.fullIdent()...)
}

func (g *gen) typ() []string {
	if g.p(60) {
		return []string{g.of("double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes")}
	}
	return g.messageType()
}

func (g *gen) constant(d int) []string {
	switch g.n(12) {
	case 0:
		return []string{g.of("true", "false")}
	case 1:
		return []string{g.intLit()}
	case 2:
		return []string{g.of("-", "+"), g.intLit()}
	case 3:
		return joinLit(g.of("", "-", "+"), g.floatLit())
	case 4:
		return g.fullIdent()
	case 5, 6:
		return []string{g.strLit()}
	case 7:
		return []string{g.strLit(), g.strLit()}
	case 8:
		if d <= 0 {
			return []string{"{", "}"}
		}
		r := []string{"["}
		n := g.n(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				r = append(r, ",")
			}
			r = append(r, g.constant(d-1)...)
		}
		return append(r, "]")
	case 9, 10:
		if d <= 0 {
			return []string{"1"}
		}
		return g.aggregate(d - 1)
	}
	return []string{g.intLit()}
}

func (g *gen) aggregate(d int) []string {
	r := []string{"{"}
	n := g.n(4)
	for i := 0; i < n; i++ {
		r = append(r, g.ident())
		if g.p(25) && d > 0 {
			r = append(r, g.aggregate(d-1)...)
		} else {
			r = append(r, ":")
			r = append(r, g.constant(d)...)
		}
		if i < n-1 || g.p(20) {
			if s := g.of(",", ";", "", ","); s != "" {
				r = append(r, s)
			}
		}
	}
	return append(r, "}")
}

func (g *gen) optionName() []string {
	var r []string
	one := func() {
		if g.p(40) {
			r = append(r, "(")
			if g.p(25) {
				r = append(r, ".")
			}
			r = append(r, g.fullIdent()...)
			r = append(r, ")")
		} else {
			r = append(r, g.ident())
		}
	}
	one()
	for n := g.times(3, 25); n > 0; n-- {
		r = append(r, ".")
		one()
	}
	return r
}

func cat(xs ...[]string) []string {
	var r []string
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func toks(xs ...string) []string { return xs }

func (g *gen) option() []string {
	return cat(toks("option"), g.optionName(), toks("="), g.constant(2), toks(";"))
}

func (g *gen) fieldOptions() []string {
	if g.p(70) {
		return nil
	}
	r := []string{"["}
	n := 1 + g.times(3, 35)
	for i := 0; i < n; i++ {
		if i > 0 {
			r = append(r, ",")
		}
		r = cat(r, g.optionName(), toks("="), g.constant(1))
	}
	return append(r, "]")
}

func (g *gen) field() []string {
	var l []string
	if g.p(45) {
		l = toks(g.of("repeated", "required", "optional"))
	}
	return cat(l, g.typ(), toks(g.ident(), "=", g.intLit()), g.fieldOptions(), toks(";"))
}

func (g *gen) mapField() []string {
	return cat(toks("map", "<", g.of("int32", "string", "bool", "sint64", "fixed32", "uint64", "int64", "sfixed64"), ","), g.typ(), toks(">", g.ident(), "=", g.intLit()), g.fieldOptions(), toks(";"))
}

func (g *gen) group(d int) []string {
	var l []string
	if g.p(80) {
		l = toks(g.of("repeated", "required", "optional"))
	}
	return cat(l, toks("group", g.capIdent(), "=", g.intLit()), g.messageBody(d-1))
}

func (g *gen) ranges() []string {
	var r []string
	n := 1 + g.times(3, 40)
	for i := 0; i < n; i++ {
		if i > 0 {
			r = append(r, ",")
		}
		r = append(r, g.intLit())
		if g.p(40) {
			r = append(r, "to", g.of("max", g.intLit()))
		}
	}
	return r
}

func (g *gen) reserved() []string {
	r := []string{"reserved"}
	if g.p(50) {
		r = append(r, g.ranges()...)
	} else {
		n := 1 + g.times(3, 40)
		for i := 0; i < n; i++ {
			if i > 0 && g.p(80) {
				r = append(r, ",")
			}
			r = append(r, g.of(g.strLit(), g.ident(), `"foo"`, "'bar'"))
		}
	}
	return append(r, ";")
}

func (g *gen) declaration() []string {
	r := toks("declaration", "=", "{")
	n := g.n(6)
	for i := 0; i < n; i++ {
		if i > 0 && g.p(85) {
			r = append(r, ",")
		}
		switch g.n(5) {
		case 0:
			r = append(r, "number", ":", g.intLit())
		case 1:
			r = append(r, "full_name", ":", g.strLit())
		case 2:
			r = append(r, "type", ":", g.strLit())
		case 3:
			r = append(r, "repeated", ":", g.of("true", "false"))
		case 4:
			r = append(r, "reserved", ":", g.of("true", "false"))
		}
	}
	return append(r, "}")
}

func (g *gen) extensions() []string {
	r := cat(toks("extensions"), g.ranges())
	if g.p(50) {
		r = append(r, "[")
		n := 1 + g.n(3)
		for i := 0; i < n; i++ {
			if i > 0 {
				r = append(r, ",")
			}
			r = append(r, g.declaration()...)
		}
		r = append(r, "]")
	}
	return append(r, ";")
}

func (g *gen) oneof() []string {
	r := toks("oneof", g.ident(), "{")
	n := g.n(4)
	if n == 0 && g.p(60) {
		n = 1
	}
	for i := 0; i < n; i++ {
		switch g.n(8) {
		case 0:
			r = append(r, ";")
		case 1:
			r = append(r, g.option()...)
		default:
			r = cat(r, g.typ(), toks(g.ident(), "=", g.intLit()), g.fieldOptions(), toks(";"))
		}
	}
	return g.end(r)
}

// end closes a block.
func (g *gen) end(r []string) []string {
	r = append(r, "}")
	if g.p(15) {
		r = append(r, ";")
	}
	return r
}

func (g *gen) enumField() []string {
	return cat(toks(g.ident(), "="), joinLit(g.of("", "", "", "-"), g.intLit()), g.fieldOptions(), toks(";"))
}

func (g *gen) enum() []string {
	r := toks("enum", g.ident(), "{")
	for n := g.n(4); n > 0; n-- {
		switch g.n(7) {
		case 0:
			r = append(r, g.option()...)
		case 1:
			r = append(r, g.reserved()...)
		case 2:
			r = append(r, ";")
		default:
			r = append(r, g.enumField()...)
		}
	}
	return g.end(r)
}

func (g *gen) extend() []string {
	r := cat(toks("extend"), g.messageType(), toks("{"))
	for n := g.n(3); n > 0; n-- {
		if g.p(15) {
			r = append(r, ";")
		} else {
			r = append(r, g.field()...)
		}
	}
	return g.end(r)
}

func (g *gen) messageBody(d int) []string {
	r := toks("{")
	for n := g.n(4); n > 0; n-- {
		r = append(r, g.messageStmt(d)...)
	}
	return g.end(r)
}

func (g *gen) messageStmt(d int) []string {
	switch k := g.n(16); {
	case k == 0:
		return g.enum()
	case k == 1 && d > 0:
		return g.message(d - 1)
	case k == 2:
		return g.option()
	case k == 3 || k == 13:
		return g.oneof()
	case k == 4:
		return g.mapField()
	case k == 5:
		return g.extend()
	case k == 6:
		return g.reserved()
	case k == 7:
		return g.extensions()
	case k == 8:
		return toks(";")
	case (k == 9 || k == 10) && d > 0:
		return g.group(d)
	}
	return g.field()
}

func (g *gen) message(d int) []string {
	return cat(toks("message", g.ident()), g.messageBody(d))
}

func (g *gen) rpc() []string {
	side := func() []string {
		r := toks("(")
		if g.p(35) {
			r = append(r, "stream")
		}
		return cat(r, g.messageType(), toks(")"))
	}
	r := cat(toks("rpc", g.ident()), side(), toks("returns"), side())
	if g.p(50) {
		return append(r, ";")
	}
	r = append(r, "{")
	for n := g.n(4); n > 0; n-- {
		if g.p(20) {
			r = append(r, ";")
		} else {
			r = append(r, g.option()...)
		}
	}
	return g.end(r)
}

func (g *gen) service() []string {
	r := toks("service", g.ident(), "{")
	for n := g.n(4); n > 0; n-- {
		switch g.n(6) {
		case 0:
			r = append(r, g.option()...)
		case 1:
			r = append(r, ";")
		default:
			r = append(r, g.rpc()...)
		}
	}
	return g.end(r)
}

func (g *gen) topLevel() []string {
	switch g.n(16) {
	case 0:
		return joinTok("import", g.of("", "public", "weak"), g.strLit(), ";")
	case 1:
		return cat(toks("package"), g.fullIdent(), toks(";"))
	case 2, 3, 12:
		return g.option()
	case 4, 14:
		return g.enum()
	case 5, 6, 13:
		return g.service()
	case 7:
		return g.extend()
	case 8:
		return toks(";")
	}
	return g.message(2)
}

// stmt is one declaration.
func (g *gen) stmt() []string {
	q := g.of(`"`, `'`)
	var t []string
	switch g.n(16) {
	case 0:
		t = toks("syntax", "=", q, g.of("proto3", "proto2"), q, ";")
	case 1:
		t = toks("edition", "=", q, g.of("2023", g.intLit()), q, ";")
	case 2:
		t = joinTok("import", g.of("", "public", "weak"), g.strLit(), ";")
	case 3:
		t = cat(toks("package"), g.fullIdent(), toks(";"))
	case 4:
		t = g.option()
	case 5, 6:
		t = g.field()
	case 7:
		t = g.mapField()
	case 8:
		t = g.group(2)
	case 9:
		t = g.oneof()
	case 10:
		t = g.reserved()
	case 11:
		t = g.extensions()
	case 12:
		t = g.enum()
	case 13:
		t = g.extend()
	case 14:
		t = g.service()
	default:
		t = g.message(1)
	}
	if g.p(8) {
		t = g.declaration()
	}
	if g.p(30) {
		t = append(t, g.anyTok())
	}
	return t
}

func joinTok(xs ...string) []string { return joinLit(xs...) }

func (g *gen) proto() []string {
	var r []string
	if g.p(40) {
		q := g.of(`"`, `'`)
		r = append(r, "syntax", "=", q, g.of("proto3", "proto2"), q, ";")
	}
	if g.p(15) {
		q := g.of(`"`, `'`)
		r = append(r, "edition", "=", q, g.of("2023", "2024", g.intLit()), q, ";")
	}
	for n := g.n(4); n > 0; n-- {
		r = append(r, g.topLevel()...)
	}
	return r
}

var punct = strings.Split("; : = \" ' ( ) { } [ ] < > , . - + / // /* */ \\ # @ ~ * \x00 \ufeff", " ")

func (g *gen) anyTok() string {
	switch g.n(8) {
	case 0:
		return g.dictWord()
	case 1:
		return punct[g.n(len(punct))]
	case 2:
		return g.ident()
	case 3:
		return keywords[g.n(len(keywords))]
	case 4:
		return g.intLit()
	case 5:
		return g.floatLit()
	case 6:
		return g.strLit()
	}
	return g.comment()
}

func (g *gen) mutateToks(t []string) []string {
	if len(t) == 0 {
		return []string{g.anyTok()}
	}
	if g.p(30) {
		// another punctuation mark in the place of one
		const marks = "()[]{}<>,;=:.-"
		for k := 0; k < 20; k++ {
			i := g.n(len(t))
			if len(t[i]) == 1 && strings.Contains(marks, t[i]) {
				u := append([]string{}, t...)
				j := g.n(len(marks))
				u[i] = marks[j : j+1]
				return u
			}
		}
	}
	i := g.n(len(t))
	switch g.n(6) {
	case 0:
		return append(append([]string{}, t[:i]...), t[i+1:]...)
	case 1:
		return append(append(append([]string{}, t[:i+1]...), t[i]), t[i+1:]...)
	case 2:
		j := g.n(len(t))
		u := append([]string{}, t...)
		u[i], u[j] = u[j], u[i]
		return u
	case 3:
		u := append([]string{}, t...)
		u[i] = g.anyTok()
		return u
	case 4:
		return append(append(append([]string{}, t[:i]...), g.anyTok()), t[i:]...)
	}
	return t[:i]
}

func wordChar(b byte) bool {
	return b == '_' || b == '.' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// layout writes tokens with spaces and comments.
func (g *gen) layout(t []string) string {
	var b strings.Builder
	if g.p(4) {
		b.WriteString("\ufeff")
	}
	cm, tight := 0, g.p(20)
	switch g.n(4) {
	case 0:
		cm = 0
	case 1:
		cm = 8
	case 2:
		cm = 20
	case 3:
		cm = 45
	}
	anywhere := g.p(25)
	lead := func() {
		for g.p(cm) {
			b.WriteString(g.comment())
			if g.p(50) {
				b.WriteString(g.space())
			}
		}
	}
	lead()
	var prev string
	for i, x := range t {
		if i > 0 {
			brk := prev == ";" || prev == "{" || prev == "}" || prev == "," || prev == "["
			if brk {
				if g.p(cm) {
					if g.n(100) == 0 {
						b.WriteString(strings.Repeat(g.of(" ", "\t", "\u3000"), 1<<uint(1+g.n(13))+g.n(4)))
					} else {
						b.WriteString(g.of("", " ", "  "))
					}
					b.WriteString(g.comment())
				}
				if !tight || g.p(15) {
					b.WriteString(g.space())
				}
				lead()
			} else if anywhere && g.p(cm/2) {
				b.WriteString(g.comment())
			} else if !tight || g.p(10) {
				b.WriteString(g.space())
			} else if prev != "" && x != "" && wordChar(prev[len(prev)-1]) && wordChar(x[0]) && prev != "." && x != "." {
				b.WriteString(" ")
			}
		}
		b.WriteString(x)
		prev = x
	}
	if g.p(cm) {
		b.WriteString(" ")
	}
	lead()
	if g.p(50) {
		b.WriteString(g.of("\n", " ", "\n\n", "//", "// end", "/* end */", "\x00", "/*"))
	}
	return b.String()
}

func (g *gen) mutateBytes(s string) string {
	if len(s) == 0 {
		return s
	}
	i := g.n(len(s))
	switch g.n(6) {
	case 0:
		return s[:i] + s[i+1:]
	case 1:
		return s[:i] + g.of("\xff", "\x00", "\"", "'", "/", "*", "\n", "é", "\\", "0", "x", ".", "\xe3\x81", "\ufffd", ";", "}", "{", "\r", "-", "e", "\ufeff") + s[i:]
	case 2:
		j := i + g.n(len(s)-i)
		return s[:i] + s[j:]
	case 3:
		j := i + g.n(len(s)-i)
		return s[:j] + s[i:j] + s[j:]
	case 4:
		return s[:i]
	}
	return s[:i] + g.dictWord() + s[i:]
}

// input makes an input.
func (g *gen) input(kind string) string {
	var t []string
	switch kind {
	case "tok":
		for n := g.n(10); n > 0; n-- {
			t = append(t, g.anyTok())
		}
	case "const":
		switch g.n(3) {
		case 0:
			t = g.constant(0)
		case 1:
			t = g.messageType()
		default:
			for n := 1 + g.n(3); n > 0; n-- {
				t = append(t, g.strLit())
			}
		}
		if g.p(50) {
			t = append(t, g.anyTok())
		}
	case "any":
		switch g.n(4) {
		case 0:
			s := g.layout(g.proto())
			for n := g.times(6, 70); n > 0; n-- {
				s = g.mutateBytes(s)
			}
			return s
		case 1:
			b := make([]byte, g.n(40))
			for i := range b {
				b[i] = byte(g.n(256))
			}
			return string(b)
		case 2:
			s := ""
			for n := g.n(8); n > 0; n-- {
				s += g.of(g.comment(), g.word(), g.dictWord(), "\n", "*/", "/*", "//", " ", "\r\n")
			}
			return s
		}
		for n := g.n(12); n > 0; n-- {
			t = append(t, g.anyTok())
		}
	case "stmt":
		t = g.stmt()
	default:
		t = g.proto()
	}
	if g.p(35) {
		for n := 1 + g.times(3, 30); n > 0; n-- {
			t = g.mutateToks(t)
		}
	}
	s := g.layout(t)
	if g.p(12) {
		for n := 1 + g.times(3, 40); n > 0; n-- {
			s = g.mutateBytes(s)
		}
	}
	return s
}
