//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	addCheck("total", "proto", checkTotal)
	addCheck("totaltok", "any", checkTotal)
	addCheck("totalfn", "stmt", checkTotalFn)
	addCheck("sound", "proto", func(c *Case) string { return parseCheck(c, "sound") })
	addCheck("soundstmt", "stmt", func(c *Case) string { return stmtCheck(c, "sound") })
	addCheck("complete", "proto", func(c *Case) string { return parseCheck(c, "complete") })
	addCheck("completestmt", "stmt", func(c *Case) string { return stmtCheck(c, "complete") })
	for _, a := range []string{"text", "struct", "pos", "lead", "inline", "const"} {
		a := a
		as := []string{a}
		if a == "pos" {
			as = []string{"pos", "embpos"}
		}
		addCheck(a, "proto", func(c *Case) string { return parseCheck(c, as...) })
		addCheck(a+"stmt", "stmt", func(c *Case) string { return stmtCheck(c, as...) })
	}
	addCheck("body", "proto", checkBody)
	addCheck("modes", "proto", checkModes)
	addCheck("visit", "proto", checkVisit)
	addCheck("unordered", "proto", checkUnordered)
	addCheck("options", "proto", checkOptions)
	addCheck("helpers", "any", checkHelpers)
	addCheck("broken", "proto", checkBroken)
	addCheck("either", "proto", checkEither)
	addCheck("eitherstmt", "stmt", checkEitherFn)
	addCheck("again", "proto", checkAgain)
}

// ---- comparing trees

var (
	metaType    = reflect.TypeOf(meta.Meta{})
	commentType = reflect.TypeOf((*parser.Comment)(nil))
	visitType   = reflect.TypeOf((*parser.Visitee)(nil)).Elem()
)

// diff is the first difference of each aspect.
type diff map[string]string

func (d diff) add(aspect, path string, got, want interface{}) {
	if d[aspect] == "" {
		d[aspect] = fmt.Sprintf("%s is %s, want %s", path, show(got), show(want))
	}
}

func show(x interface{}) string {
	switch y := x.(type) {
	case string:
		return fmt.Sprintf("%q", y)
	case *parser.Comment:
		if y == nil {
			return "no comment"
		}
		return fmt.Sprintf("comment %q at %v-%v", y.Raw, y.Meta.Pos, y.Meta.LastPos)
	case []*parser.Comment:
		var s []string
		for _, c := range y {
			s = append(s, show(c))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return fmt.Sprintf("%v", x)
}

func isNilAny(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func sameComment(a, b *parser.Comment) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

func sameComments(a, b []*parser.Comment) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || *a[i] != *b[i] {
			return false
		}
	}
	return true
}

// splitBody separates the comments of a body.
func splitBody(b []parser.Visitee) (other []parser.Visitee, cs []*parser.Comment, kinds string) {
	for _, x := range b {
		if c, ok := x.(*parser.Comment); ok {
			cs = append(cs, c)
			kinds += "c"
		} else {
			other = append(other, x)
			kinds += "x"
		}
	}
	return
}

func kindsOf(b []parser.Visitee) string {
	var s []string
	for _, x := range b {
		s = append(s, fmt.Sprintf("%T", x))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// compare collects the differences of two values.
func (d diff) compare(path string, got, want reflect.Value) {
	switch got.Kind() {
	case reflect.Interface:
		if got.IsNil() || want.IsNil() {
			if got.IsNil() != want.IsNil() {
				d.add("struct", path, got, want)
			}
			return
		}
		if got.Elem().Type() != want.Elem().Type() {
			d.add("struct", path, got.Elem().Type(), want.Elem().Type())
			return
		}
		d.compare(path, got.Elem(), want.Elem())
	case reflect.Ptr:
		if got.IsNil() || want.IsNil() {
			if got.IsNil() != want.IsNil() {
				d.add("struct", path, got.IsNil(), want.IsNil())
			}
			return
		}
		d.compare(path, got.Elem(), want.Elem())
	case reflect.Struct:
		t := got.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			p := path + "." + f.Name
			g, w := got.Field(i), want.Field(i)
			switch {
			case f.Type == metaType:
				a, b := g.Interface().(meta.Meta), w.Interface().(meta.Meta)
				if a != b {
					d.add("pos", p, a, b)
				}
				if a.Pos.Filename != b.Pos.Filename || a.LastPos.Filename != b.LastPos.Filename {
					d.add("file", p, a, b)
				}
			case f.Type == commentType:
				a, b := g.Interface().(*parser.Comment), w.Interface().(*parser.Comment)
				if !sameComment(a, b) {
					d.add("inline", p, a, b)
				}
				if a != nil && b != nil && a.Raw == b.Raw && a.Meta != b.Meta {
					d.add("pos", p, a, b)
				}
			case f.Name == "Comments":
				a, b := g.Interface().([]*parser.Comment), w.Interface().([]*parser.Comment)
				if !sameComments(a, b) {
					d.add("lead", p, a, b)
				}
				if len(a) == len(b) {
					for j := range a {
						if a[j] != nil && b[j] != nil && a[j].Raw == b[j].Raw && a[j].Meta != b[j].Meta {
							d.add("pos", p, a, b)
						}
					}
				}
			case f.Name == "EmbeddedComments":
				a, b := g.Interface().([]*parser.Comment), w.Interface().([]*parser.Comment)
				if !sameComments(a, b) {
					d.add("emb", p, a, b)
				}
				if len(a) == len(b) {
					for j := range a {
						if a[j] != nil && b[j] != nil && a[j].Raw == b[j].Raw && a[j].Meta != b[j].Meta {
							d.add("embpos", p, a, b)
						}
					}
				}
			case f.Name == "Constant":
				if g.String() != w.String() {
					d.add("const", p, g.String(), w.String())
				}
			case f.Type.Kind() == reflect.Slice && f.Type.Elem() == visitType:
				a, b := g.Interface().([]parser.Visitee), w.Interface().([]parser.Visitee)
				ao, ac, ak := splitBody(a)
				bo, bc, bk := splitBody(b)
				if !sameComments(ac, bc) || ak != bk && len(ao) == len(bo) {
					d.add("body", p, ac, bc)
				}
				if len(ac) == len(bc) {
					for j := range ac {
						if ac[j] != nil && ac[j].Raw == bc[j].Raw && ac[j].Meta != bc[j].Meta {
							d.add("pos", p, ac, bc)
						}
					}
				}
				if kindsOf(ao) != kindsOf(bo) {
					d.add("struct", p, kindsOf(ao), kindsOf(bo))
					continue
				}
				for j := range ao {
					d.compare(fmt.Sprintf("%s[%d]", p, j), reflect.ValueOf(ao[j]), reflect.ValueOf(bo[j]))
				}
			case f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.String:
				if !reflect.DeepEqual(append([]string{}, g.Interface().([]string)...), append([]string{}, w.Interface().([]string)...)) {
					d.add("text", p, g, w)
				}
			case f.Type.Kind() == reflect.Slice:
				if g.Len() != w.Len() {
					// the lists of parts of one declaration are its text, those of declarations are the structure
					k := "struct"
					if n := f.Type.Elem().Elem().Name(); n == "FieldOption" || n == "EnumValueOption" || n == "Range" {
						k = "text"
					}
					d.add(k, p, fmt.Sprint(g.Len(), " long"), fmt.Sprint(w.Len(), " long"))
					continue
				}
				for j := 0; j < g.Len(); j++ {
					d.compare(fmt.Sprintf("%s[%d]", p, j), g.Index(j), w.Index(j))
				}
			default:
				d.compare(p, g, w)
			}
		}
	case reflect.String:
		if got.String() != want.String() {
			if strings.HasSuffix(path, ".Meta.Filename") {
				d.add("file", path, got.String(), want.String())
			} else {
				d.add("text", path, got.String(), want.String())
			}
		}
	case reflect.Bool:
		if got.Bool() != want.Bool() {
			d.add("text", path, got.Bool(), want.Bool())
		}
	case reflect.Uint, reflect.Uint8:
		if got.Uint() != want.Uint() {
			d.add("text", path, got.Uint(), want.Uint())
		}
	case reflect.Int:
		if got.Int() != want.Int() {
			d.add("text", path, got.Int(), want.Int())
		}
	default:
		panic(specError("kind " + got.Kind().String()))
	}
}

func compareNodes(name string, got, want interface{}) diff {
	d := diff{}
	d.compare(name, reflect.ValueOf(got), reflect.ValueOf(want))
	return d
}

// nilElement finds a nil element in a list.
func nilElement(path string, v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return ""
		}
		return nilElement(path, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			if s := nilElement(path+"."+v.Type().Field(i).Name, v.Field(i)); s != "" {
				return s
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			p := fmt.Sprintf("%s[%d]", path, i)
			if (e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface) && isNilAny(e.Interface()) {
				return p + " is nil"
			}
			if s := nilElement(p, e); s != "" {
				return s
			}
		}
	}
	return ""
}

// dump writes a tree out.
func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String())
		}
		b.WriteByte('&')
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i))
			b.WriteByte(';')
		}
		b.WriteByte('}')
	case reflect.Slice:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprint(b, v)
	}
}

func dumpOf(x interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x))
	return b.String()
}

// ---- parsing files

type config struct {
	perm, bic, debug bool
	file             string
}

func (c *Case) config() config {
	x := config{perm: c.R.Intn(3) > 0, bic: c.R.Intn(2) == 0, debug: c.R.Intn(12) == 0}
	if c.R.Intn(3) == 0 {
		x.file = []string{"f.proto", "a/b c.proto", "é"}[c.R.Intn(3)]
	}
	return x
}

func (x config) parse(r io.Reader) (*parser.Proto, error) {
	return protoparser.Parse(r, protoparser.WithPermissive(x.perm), protoparser.WithBodyIncludingComments(x.bic), protoparser.WithDebug(x.debug), protoparser.WithFilename(x.file))
}

// goodReader delivers the whole input, maybe in pieces.
func (c *Case) goodReader(s string) io.Reader {
	switch c.R.Intn(4) {
	case 0:
		return &chunks{s: s, n: 1 + c.R.Intn(7), err: io.EOF}
	case 1:
		return &chunks{s: s, n: 1 + c.R.Intn(40), last: true, err: io.EOF}
	}
	return strings.NewReader(s)
}

func (c *Case) spec(x config) (bool, *parser.Proto) {
	meta.InputFilename = x.file
	return parser.PaFile(0, x.perm, x.bic)
}

// parseCheck compares the parsed file with the specification, in the given aspects.
func parseCheck(c *Case, aspects ...string) string {
	x := c.config()
	ok, want := c.spec(x)
	got, err := x.parse(c.goodReader(c.Input))
	at := fmt.Sprintf("with %+v: ", x)
	switch aspects[0] {
	case "sound":
		c.Nontriv = err == nil || len(c.Input) > 10
		if err == nil && !ok {
			return at + "a file that is not well-formed is accepted"
		}
		return ""
	case "complete":
		c.Nontriv = ok
		if err != nil && ok {
			return at + "a well-formed file is rejected: " + err.Error()
		}
		return ""
	}
	if !ok || err != nil || got == nil {
		return ""
	}
	c.Nontriv = got.Syntax != nil || got.Edition != nil || len(got.ProtoBody) > 0
	d := compareNodes("Proto", got, want)
	for _, a := range aspects {
		if d[a] != "" {
			return at + d[a]
		}
		if a == "inline" {
			if m := givenTwice(got, want); m != "" {
				return at + m
			}
		}
	}
	return ""
}

// countComments counts the comments of a tree by their offsets; inline ones are noted.
func countComments(v reflect.Value, n map[int]int, inline map[int]bool, isInline bool) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf(&parser.Comment{}) {
			o := v.Interface().(*parser.Comment).Meta.Pos.Offset
			n[o]++
			if isInline {
				inline[o] = true
			}
			return
		}
		countComments(v.Elem(), n, inline, isInline)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i).Name
			countComments(v.Field(i), n, inline, strings.HasPrefix(f, "InlineComment"))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			countComments(v.Index(i), n, inline, isInline)
		}
	}
}

// givenTwice reports an inline comment that is also held elsewhere.
func givenTwice(got, want interface{}) string {
	gn, wn, gi, wi := map[int]int{}, map[int]int{}, map[int]bool{}, map[int]bool{}
	countComments(reflect.ValueOf(got), gn, gi, false)
	countComments(reflect.ValueOf(want), wn, wi, false)
	for o := range gi {
		if gn[o] > 1 && wn[o] <= 1 {
			return fmt.Sprintf("the inline comment at offset %d is given to %d elements", o, gn[o])
		}
	}
	return ""
}

// ---- parsing single declarations

type stmtFn struct {
	name string
	real func(p *parser.Parser) (interface{}, error)
	spec func(k int, x config) (bool, int, interface{})
}

var stmtFns = []stmtFn{
	{"ParseSyntax", func(p *parser.Parser) (interface{}, error) { return p.ParseSyntax() },
		func(k int, x config) (bool, int, interface{}) { ok, e, _, r := parser.PaSyntax(k); return ok, e, r }},
	{"ParseEdition", func(p *parser.Parser) (interface{}, error) { return p.ParseEdition() },
		func(k int, x config) (bool, int, interface{}) { ok, e, _, r := parser.PaEdition(k); return ok, e, r }},
	{"ParseImport", func(p *parser.Parser) (interface{}, error) { return p.ParseImport() },
		func(k int, x config) (bool, int, interface{}) { ok, e, _, r := parser.PaImport(k); return ok, e, r }},
	{"ParsePackage", func(p *parser.Parser) (interface{}, error) { return p.ParsePackage() },
		func(k int, x config) (bool, int, interface{}) { ok, e, _, r := parser.PaPackage(k); return ok, e, r }},
	{"ParseOption", func(p *parser.Parser) (interface{}, error) { return p.ParseOption() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaOption(k, x.perm)
			return ok, e, r
		}},
	{"ParseField", func(p *parser.Parser) (interface{}, error) { return p.ParseField() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaField(k, x.perm)
			return ok, e, r
		}},
	{"ParseMapField", func(p *parser.Parser) (interface{}, error) { return p.ParseMapField() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaMapField(k, x.perm)
			return ok, e, r
		}},
	{"ParseGroupField", func(p *parser.Parser) (interface{}, error) { return p.ParseGroupField() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaGroupField(k, x.perm, x.bic)
			return ok, e, r
		}},
	{"ParseOneof", func(p *parser.Parser) (interface{}, error) { return p.ParseOneof() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaOneof(k, x.perm)
			return ok, e, r
		}},
	{"ParseReserved", func(p *parser.Parser) (interface{}, error) { return p.ParseReserved() },
		func(k int, x config) (bool, int, interface{}) { ok, e, _, r := parser.PaReserved(k); return ok, e, r }},
	{"ParseExtensions", func(p *parser.Parser) (interface{}, error) { return p.ParseExtensions() },
		func(k int, x config) (bool, int, interface{}) { ok, e, _, r := parser.PaExtensions(k); return ok, e, r }},
	{"ParseDeclaration", func(p *parser.Parser) (interface{}, error) { return p.ParseDeclaration() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaDeclaration(k)
			return ok, e, r
		}},
	{"ParseEnum", func(p *parser.Parser) (interface{}, error) { return p.ParseEnum() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaEnum(k, x.perm, x.bic)
			return ok, e, r
		}},
	{"ParseMessage", func(p *parser.Parser) (interface{}, error) { return p.ParseMessage() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaMessage(k, x.perm, x.bic)
			return ok, e, r
		}},
	{"ParseExtend", func(p *parser.Parser) (interface{}, error) { return p.ParseExtend() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaExtend(k, x.perm, x.bic)
			return ok, e, r
		}},
	{"ParseService", func(p *parser.Parser) (interface{}, error) { return p.ParseService() },
		func(k int, x config) (bool, int, interface{}) {
			ok, e, _, r := parser.PaService(k, x.perm, x.bic)
			return ok, e, r
		}},
}

// pickFn picks the function for the first word of the input, mostly.
func (c *Case) pickFn() stmtFn {
	if c.R.Intn(5) > 0 {
		t := strings.TrimLeft(c.Input, " \t\r\n\ufeff")
		for i := 0; i < 2; i++ {
			w := t
			if j := strings.IndexFunc(t, func(r rune) bool { return !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') }); j >= 0 {
				w = t[:j]
			}
			for _, f := range stmtFns {
				if w != "" && strings.ToLower(f.name) == "parse"+w {
					return f
				}
			}
			switch w {
			case "map":
				return stmtFns[6]
			case "group":
				return stmtFns[7]
			case "repeated", "required", "optional":
				t = strings.TrimLeft(t[len(w):], " \t\r\n")
				if strings.HasPrefix(t, "group") {
					return stmtFns[7]
				}
				return stmtFns[5]
			}
			t = ""
		}
	}
	return stmtFns[c.R.Intn(len(stmtFns))]
}

func (x config) parser(r io.Reader) (*parser.Parser, *lexer.Lexer) {
	l := lexer.NewLexer(r, lexer.WithDebug(x.debug), lexer.WithFilename(x.file))
	return parser.NewParser(l, parser.WithPermissive(x.perm), parser.WithBodyIncludingComments(x.bic)), l
}

// stmtCheck compares a single parse function with the specification.
func stmtCheck(c *Case, aspects ...string) string {
	x := c.config()
	meta.InputFilename = x.file
	f := c.pickFn()
	p, l := x.parser(c.goodReader(c.Input))
	k := 0
	absent := func() bool {
		return f.name == "ParseSyntax" && lexer.LxTok(0, scanner.ScanKeyword) != scanner.TSYNTAX ||
			f.name == "ParseEdition" && lexer.LxTok(0, scanner.ScanKeyword) != scanner.TEDITION
	}
	ok, e, want := f.spec(k, x)
	got, err := f.real(p)
	at := fmt.Sprintf("%s with %+v: ", f.name, x)
	if absent() {
		return ""
	}
	rest := func() string {
		l.NextComment()
		t, st, te, _, _ := scanner.SpScan(e, scanner.ScanComment)
		if l.Token != t || l.Text != meta.Str(st, te) {
			return fmt.Sprintf("%sthe next token is %v %q, want %v %q", at, l.Token, l.Text, t, meta.Str(st, te))
		}
		return ""
	}
	switch aspects[0] {
	case "sound":
		c.Nontriv = err == nil || len(c.Input) > 10
		if err == nil && !ok {
			return at + "a declaration that is not well-formed is accepted"
		}
		if err == nil && ok {
			return rest()
		}
		return ""
	case "complete":
		c.Nontriv = ok
		if err != nil && ok {
			return at + "a well-formed declaration is rejected: " + err.Error()
		}
		return ""
	}
	if !ok || err != nil || isNilAny(got) {
		return ""
	}
	c.Nontriv = true
	d := compareNodes(f.name[5:], got, want)
	for _, a := range aspects {
		if d[a] != "" {
			return at + d[a]
		}
		if a == "inline" {
			if m := givenTwice(got, want); m != "" {
				return at + m
			}
		}
	}
	if aspects[0] == "struct" {
		return rest()
	}
	return ""
}

// ---- totality

func checkTotal(c *Case) string {
	x := c.config()
	c.Nontriv = true
	in := c.Input
	if c.R.Intn(60) == 0 && len(in) > 0 && len(in) < 400 {
		in = strings.Repeat(in, 1+20000/len(in))
	}
	r := c.goodReader(in)
	if c.R.Intn(8) == 0 {
		r = &chunks{s: in, n: 1 + c.R.Intn(9), err: errors.New("broken")}
	}
	got, err := x.parse(r)
	if err == nil && got != nil {
		if _, err := protoparser.UnorderedInterpret(got); err != nil {
			return "" // C14
		}
	}
	if (err == nil) == (got == nil) {
		return fmt.Sprintf("with %+v: neither a result nor an error, or both", x)
	}
	return ""
}

func checkTotalFn(c *Case) string {
	x := c.config()
	c.Nontriv = true
	if c.R.Intn(3) > 0 {
		f := c.pickFn()
		p, _ := x.parser(c.goodReader(c.Input))
		f.real(p)
		return ""
	}
	p, l := x.parser(c.goodReader(c.Input))
	switch c.R.Intn(12) {
	case 0:
		p.ParseComments()
	case 1:
		p.IsEOF()
	case 2:
		p.MaybeScanInlineComment(&parser.Field{})
	case 3:
		l.ReadConstant(x.perm)
	case 4:
		l.ReadFullIdent()
	case 5:
		l.ReadMessageType()
	case 6:
		l.ReadEnumType()
	case 7:
		l.ReadEmptyStatement()
	case 8:
		l.Peek()
	case 9:
		l.PeekN(1 + c.R.Intn(4))
	case 10:
		p.ParseProto()
	case 11:
		l.ConsumeToken(scanner.TSEMICOLON)
	}
	return ""
}

// ---- comments in bodies

// stripBodies removes the comment elements from the bodies.
func stripBodies(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			stripBodies(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			stripBodies(v.Field(i))
		}
	case reflect.Slice:
		if v.Type().Elem() == visitType && v.CanSet() {
			o, _, _ := splitBody(v.Interface().([]parser.Visitee))
			v.Set(reflect.ValueOf(o))
		}
		for i := 0; i < v.Len(); i++ {
			stripBodies(v.Index(i))
		}
	}
}

func checkBody(c *Case) string {
	x := c.config()
	x.bic = true
	y := x
	y.bic = false
	got, err := x.parse(c.goodReader(c.Input))
	got2, err2 := y.parse(c.goodReader(c.Input))
	at := fmt.Sprintf("with %+v: ", x)
	if (err == nil) != (err2 == nil) {
		return at + fmt.Sprintf("the option that includes comments in bodies changes the error: %v, without it %v", err, err2)
	}
	if err != nil || got == nil || got2 == nil {
		return ""
	}
	if ok, want := c.spec(x); ok {
		if d := compareNodes("Proto", got, want); d["body"] != "" {
			return at + d["body"]
		}
		a, b := dumpOf(got), ""
		stripBodies(reflect.ValueOf(got))
		b = dumpOf(got)
		c.Nontriv = a != b
		if b != dumpOf(got2) {
			// lists may be nil or empty
			if d := compareNodes("Proto", got2, got); len(d) > 0 {
				return at + fmt.Sprintf("without the option more changes than the comments: %v", d)
			}
		}
	}
	return ""
}

// ---- modes

func checkModes(c *Case) string {
	x := c.config()
	x.perm = true
	y := x
	y.perm = false
	gp, ep := x.parse(c.goodReader(c.Input))
	gs, es := y.parse(c.goodReader(c.Input))
	pok, wp := c.spec(x)
	sok, ws := c.spec(y)
	rp, rs := ep == nil && gp != nil, es == nil && gs != nil
	c.Nontriv = pok
	at := fmt.Sprintf("with %+v: ", x)
	if rs && !rp {
		return at + fmt.Sprintf("accepted in strict mode, rejected in permissive mode: %v", ep)
	}
	switch {
	case pok && !sok:
		if !rp {
			return at + "what only permissive mode accepts is rejected: " + ep.Error()
		}
		if rs {
			return at + "strict mode accepts what only permissive mode accepts"
		}
		d := compareNodes("Proto", gp, wp)
		for _, a := range []string{"const", "struct", "pos"} {
			if d[a] != "" {
				return at + "in what only permissive mode accepts: " + d[a]
			}
		}
	case pok == sok && rp != rs:
		return at + fmt.Sprintf("permissive mode: %v, strict mode: %v", ep, es)
	case pok && sok && rp && rs:
		real, want := compareNodes("Proto", gs, gp), compareNodes("Proto", ws, wp)
		for a := range map[string]bool{"text": true, "struct": true, "pos": true, "lead": true, "inline": true, "const": true, "body": true, "emb": true} {
			if (real[a] == "") != (want[a] == "") {
				return at + fmt.Sprintf("strict and permissive mode differ: %q, want %q", real[a], want[a])
			}
		}
	}
	return ""
}

// ---- visiting

type event struct {
	what string
	p    interface{}
}

type recorder struct {
	seed   int64
	n      int
	events []event
}

// declines is a function of how many were visited before.
func declines(seed int64, n int) bool {
	if seed%3 == 0 {
		return false
	}
	h := uint64(seed)*0x9E3779B97F4A7C15 + uint64(n)*0xBF58476D1CE4E5B9
	h ^= h >> 29
	h *= 0x94D049BB133111EB
	return (h>>40)%7 == 0
}

func (r *recorder) ev(what string, p interface{}) bool {
	r.events = append(r.events, event{what, p})
	r.n++
	return !declines(r.seed, r.n)
}

func (r *recorder) VisitComment(x *parser.Comment)              { r.ev("Comment", x) }
func (r *recorder) VisitDeclaration(x *parser.Declaration) bool { return r.ev("Declaration", x) }
func (r *recorder) VisitEdition(x *parser.Edition) bool         { return r.ev("Edition", x) }
func (r *recorder) VisitEmptyStatement(x *parser.EmptyStatement) bool {
	return r.ev("EmptyStatement", x)
}
func (r *recorder) VisitEnum(x *parser.Enum) bool             { return r.ev("Enum", x) }
func (r *recorder) VisitEnumField(x *parser.EnumField) bool   { return r.ev("EnumField", x) }
func (r *recorder) VisitExtend(x *parser.Extend) bool         { return r.ev("Extend", x) }
func (r *recorder) VisitExtensions(x *parser.Extensions) bool { return r.ev("Extensions", x) }
func (r *recorder) VisitField(x *parser.Field) bool           { return r.ev("Field", x) }
func (r *recorder) VisitGroupField(x *parser.GroupField) bool { return r.ev("GroupField", x) }
func (r *recorder) VisitImport(x *parser.Import) bool         { return r.ev("Import", x) }
func (r *recorder) VisitMapField(x *parser.MapField) bool     { return r.ev("MapField", x) }
func (r *recorder) VisitMessage(x *parser.Message) bool       { return r.ev("Message", x) }
func (r *recorder) VisitOneof(x *parser.Oneof) bool           { return r.ev("Oneof", x) }
func (r *recorder) VisitOneofField(x *parser.OneofField) bool { return r.ev("OneofField", x) }
func (r *recorder) VisitOption(x *parser.Option) bool         { return r.ev("Option", x) }
func (r *recorder) VisitPackage(x *parser.Package) bool       { return r.ev("Package", x) }
func (r *recorder) VisitReserved(x *parser.Reserved) bool     { return r.ev("Reserved", x) }
func (r *recorder) VisitRPC(x *parser.RPC) bool               { return r.ev("RPC", x) }
func (r *recorder) VisitService(x *parser.Service) bool       { return r.ev("Service", x) }
func (r *recorder) VisitSyntax(x *parser.Syntax) bool         { return r.ev("Syntax", x) }

// walk makes the expected events.
func (r *recorder) walk(x interface{}) {
	if isNilAny(x) {
		return
	}
	v := reflect.ValueOf(x).Elem()
	if !r.ev(v.Type().Name(), x) {
		return
	}
	for _, n := range []string{"EnumBody", "ExtendBody", "MessageBody", "ServiceBody", "OneofFields", "Options", "Declarations", "Comments", "InlineComment", "InlineCommentBehindLeftCurly", "InlineCommentBehindLeftSquare", "EmbeddedComments"} {
		f := v.FieldByName(n)
		if !f.IsValid() {
			continue
		}
		if f.Kind() == reflect.Slice {
			for i := 0; i < f.Len(); i++ {
				r.walk(f.Index(i).Interface())
			}
		} else {
			r.walk(f.Interface())
		}
	}
}

func checkVisit(c *Case) string {
	x := c.config()
	got, err := x.parse(strings.NewReader(c.Input))
	if err != nil || got == nil {
		return ""
	}
	if c.R.Intn(3) == 0 {
		got.ProtoBody = remix(c.R, got.ProtoBody, 3)
	}
	seed := c.R.Int63()
	real, want := &recorder{seed: seed}, &recorder{seed: seed}
	before := dumpOf(got)
	got.Accept(real)
	if got.Syntax != nil {
		want.walk(got.Syntax)
	}
	if got.Edition != nil {
		want.walk(got.Edition)
	}
	for _, b := range got.ProtoBody {
		want.walk(b)
	}
	c.Nontriv = len(want.events) > 2
	for i := 0; i < len(real.events) || i < len(want.events); i++ {
		if i >= len(real.events) {
			return fmt.Sprintf("visit %d is missing, want %s %s", i, want.events[i].what, dumpOf(want.events[i].p))
		}
		if i >= len(want.events) {
			return fmt.Sprintf("visit %d is %s %s, want none", i, real.events[i].what, dumpOf(real.events[i].p))
		}
		if real.events[i] != want.events[i] {
			return fmt.Sprintf("visit %d is %s %s, want %s %s", i, real.events[i].what, dumpOf(real.events[i].p), want.events[i].what, dumpOf(want.events[i].p))
		}
	}
	if before != dumpOf(got) {
		return "visiting changes the tree"
	}
	return ""
}

// ---- the unordered view

// pick are the elements of a body with the type of the list's elements.
func pick[T any](body []parser.Visitee) []T {
	var r []T
	for _, b := range body {
		if x, ok := b.(T); ok {
			r = append(r, x)
		}
	}
	return r
}

func samePtrs[T comparable](what string, got, want []T) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d %s, want %d", len(got), what, len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%s %d is another one", what, i)
		}
	}
	return ""
}

func first(xs ...string) string {
	for _, x := range xs {
		if x != "" {
			return x
		}
	}
	return ""
}

func cond(ok bool, what string) string {
	if ok {
		return ""
	}
	return what
}

func ptrsEq(a, b []*parser.Comment) bool { return samePtrs("", a, b) == "" }

func unEnum(u *unordered.Enum, o *parser.Enum) string {
	if u == nil || u.EnumBody == nil {
		return "no enum"
	}
	b := u.EnumBody
	return first(
		cond(u.EnumName == o.EnumName && ptrsEq(u.Comments, o.Comments) && u.InlineComment == o.InlineComment && u.InlineCommentBehindLeftCurly == o.InlineCommentBehindLeftCurly && u.Meta == o.Meta, "enum "+o.EnumName+" differs"),
		samePtrs("enum options", b.Options, pick[*parser.Option](o.EnumBody)),
		samePtrs("enum fields", b.EnumFields, pick[*parser.EnumField](o.EnumBody)),
		samePtrs("enum reserveds", b.Reserveds, pick[*parser.Reserved](o.EnumBody)),
		samePtrs("enum empty statements", b.EmptyStatements, pick[*parser.EmptyStatement](o.EnumBody)),
		samePtrs("enum comments", b.Comments, pick[*parser.Comment](o.EnumBody)))
}

func unExtend(u *unordered.Extend, o *parser.Extend) string {
	if u == nil || u.ExtendBody == nil {
		return "no extend"
	}
	b := u.ExtendBody
	return first(
		cond(u.MessageType == o.MessageType && ptrsEq(u.Comments, o.Comments) && u.InlineComment == o.InlineComment && u.InlineCommentBehindLeftCurly == o.InlineCommentBehindLeftCurly && u.Meta == o.Meta, "extend "+o.MessageType+" differs"),
		samePtrs("extend fields", b.Fields, pick[*parser.Field](o.ExtendBody)),
		samePtrs("extend empty statements", b.EmptyStatements, pick[*parser.EmptyStatement](o.ExtendBody)),
		samePtrs("extend comments", b.Comments, pick[*parser.Comment](o.ExtendBody)))
}

func unService(u *unordered.Service, o *parser.Service) string {
	if u == nil || u.ServiceBody == nil {
		return "no service"
	}
	b := u.ServiceBody
	return first(
		cond(u.ServiceName == o.ServiceName && ptrsEq(u.Comments, o.Comments) && u.InlineComment == o.InlineComment && u.InlineCommentBehindLeftCurly == o.InlineCommentBehindLeftCurly && u.Meta == o.Meta, "service "+o.ServiceName+" differs"),
		samePtrs("service options", b.Options, pick[*parser.Option](o.ServiceBody)),
		samePtrs("rpcs", b.RPCs, pick[*parser.RPC](o.ServiceBody)),
		samePtrs("service empty statements", b.EmptyStatements, pick[*parser.EmptyStatement](o.ServiceBody)),
		samePtrs("service comments", b.Comments, pick[*parser.Comment](o.ServiceBody)))
}

func unEach[U, O any](what string, us []U, os []O, f func(U, O) string) string {
	if len(us) != len(os) {
		return fmt.Sprintf("%d %s, want %d", len(us), what, len(os))
	}
	for i := range us {
		if s := f(us[i], os[i]); s != "" {
			return s
		}
	}
	return ""
}

func unMessage(u *unordered.Message, o *parser.Message) string {
	if u == nil || u.MessageBody == nil {
		return "no message"
	}
	b, ob := u.MessageBody, o.MessageBody
	return first(
		cond(u.MessageName == o.MessageName && ptrsEq(u.Comments, o.Comments) && u.InlineComment == o.InlineComment && u.InlineCommentBehindLeftCurly == o.InlineCommentBehindLeftCurly && u.Meta == o.Meta, "message "+o.MessageName+" differs"),
		samePtrs("fields", b.Fields, pick[*parser.Field](ob)),
		unEach("enums", b.Enums, pick[*parser.Enum](ob), unEnum),
		unEach("messages", b.Messages, pick[*parser.Message](ob), unMessage),
		samePtrs("options", b.Options, pick[*parser.Option](ob)),
		samePtrs("oneofs", b.Oneofs, pick[*parser.Oneof](ob)),
		samePtrs("maps", b.Maps, pick[*parser.MapField](ob)),
		samePtrs("groups", b.Groups, pick[*parser.GroupField](ob)),
		samePtrs("reserves", b.Reserves, pick[*parser.Reserved](ob)),
		samePtrs("extends", b.Extends, pick[*parser.Extend](ob)),
		samePtrs("empty statements", b.EmptyStatements, pick[*parser.EmptyStatement](ob)),
		samePtrs("extensions", b.Extensions, pick[*parser.Extensions](ob)),
		samePtrs("comments", b.Comments, pick[*parser.Comment](ob)))
}

// remix repeats, copies, empties and moves elements of a body.
func remix(r *rand.Rand, b []parser.Visitee, depth int) []parser.Visitee {
	out := append([]parser.Visitee(nil), b...)
	for n := r.Intn(4); n > 0 && len(out) > 0 && len(out) < 40; n-- {
		e := out[r.Intn(len(out))]
		if r.Intn(2) == 0 {
			e = copied(r, e)
		}
		i := r.Intn(len(out) + 1)
		if r.Intn(2) == 0 {
			i = len(out)
		}
		out = append(out[:i], append([]parser.Visitee{e}, out[i:]...)...)
	}
	if depth > 0 {
		for _, e := range out {
			v := reflect.ValueOf(e)
			if v.Kind() != reflect.Ptr || v.IsNil() {
				continue
			}
			for i := 0; i < v.Elem().NumField(); i++ {
				if f := v.Elem().Field(i); f.CanSet() && r.Intn(2) == 0 {
					if x, ok := f.Interface().([]parser.Visitee); ok {
						f.Set(reflect.ValueOf(remix(r, x, depth-1)))
					}
				}
			}
		}
	}
	return out
}

// copied is a copy of an element, sometimes with an empty body.
func copied(r *rand.Rand, e parser.Visitee) parser.Visitee {
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return e
	}
	n := reflect.New(v.Elem().Type())
	n.Elem().Set(v.Elem())
	for i := 0; i < n.Elem().NumField(); i++ {
		if f := n.Elem().Field(i); f.Kind() == reflect.Slice && f.CanSet() && r.Intn(2) == 0 {
			f.Set(reflect.Zero(f.Type()))
		}
	}
	return n.Interface().(parser.Visitee)
}

func checkUnordered(c *Case) string {
	x := c.config()
	x.bic = c.R.Intn(4) > 0
	got, err := x.parse(strings.NewReader(c.Input))
	if err != nil || got == nil {
		return ""
	}
	if c.R.Intn(2) == 0 {
		// any tree has its unordered view: with elements repeated, moved and emptied
		got.ProtoBody = remix(c.R, got.ProtoBody, 3)
	}
	before := dumpOf(got)
	u, err := protoparser.UnorderedInterpret(got)
	if err != nil {
		return "interpreting fails: " + err.Error()
	}
	if u == nil || u.ProtoBody == nil {
		return "no result"
	}
	c.Nontriv = len(got.ProtoBody) > 0
	if before != dumpOf(got) {
		return "interpreting changes the tree"
	}
	b, ob := u.ProtoBody, got.ProtoBody
	s := first(
		cond(u.Syntax == got.Syntax, "the syntax differs"),
		cond(u.Edition == got.Edition, "the edition differs"),
		samePtrs("file imports", b.Imports, pick[*parser.Import](ob)),
		samePtrs("file packages", b.Packages, pick[*parser.Package](ob)),
		samePtrs("file options", b.Options, pick[*parser.Option](ob)),
		unEach("file messages", b.Messages, pick[*parser.Message](ob), unMessage),
		unEach("file extends", b.Extends, pick[*parser.Extend](ob), unExtend),
		unEach("file enums", b.Enums, pick[*parser.Enum](ob), unEnum),
		unEach("file services", b.Services, pick[*parser.Service](ob), unService),
		samePtrs("file empty statements", b.EmptyStatements, pick[*parser.EmptyStatement](ob)),
		samePtrs("file comments", b.Comments, pick[*parser.Comment](ob)))
	if s != "" {
		return fmt.Sprintf("with %+v: %s", x, s)
	}
	for _, e := range ob {
		if m, ok := e.(*parser.Message); ok {
			um, err := unordered.InterpretMessage(m)
			if err != nil {
				return "interpreting a message fails: " + err.Error()
			}
			if s := unMessage(um, m); s != "" {
				return s
			}
		}
	}
	return ""
}

// ---- options

func checkOptions(c *Case) string {
	eff := config{perm: true}
	var opts []protoparser.Option
	var desc []string
	for n := c.R.Intn(7); n > 0; n-- {
		v := c.R.Intn(2) == 0
		switch c.R.Intn(4) {
		case 0:
			opts = append(opts, protoparser.WithPermissive(v))
			eff.perm = v
			desc = append(desc, fmt.Sprint("permissive ", v))
		case 1:
			opts = append(opts, protoparser.WithBodyIncludingComments(v))
			eff.bic = v
			desc = append(desc, fmt.Sprint("bodyIncludingComments ", v))
		case 2:
			v = v && c.R.Intn(3) == 0
			opts = append(opts, protoparser.WithDebug(v))
			eff.debug = v
			desc = append(desc, fmt.Sprint("debug ", v))
		case 3:
			f := []string{"", "f.proto", "a/b c.proto", "é"}[c.R.Intn(4)]
			opts = append(opts, protoparser.WithFilename(f))
			eff.file = f
			desc = append(desc, fmt.Sprintf("filename %q", f))
		}
	}
	at := fmt.Sprintf("with options %v: ", desc)
	got, err := protoparser.Parse(strings.NewReader(c.Input), opts...)
	// the same through the parser's own options, in the other order
	lo := []lexer.Option{lexer.WithFilename(eff.file), lexer.WithDebug(false)}
	p := parser.NewParser(lexer.NewLexer(strings.NewReader(c.Input), lo...), parser.WithBodyIncludingComments(eff.bic), parser.WithPermissive(eff.perm))
	ref, rerr := p.ParseProto()
	if (err == nil) != (rerr == nil) {
		return at + fmt.Sprintf("error %v, want %v", err, rerr)
	}
	if err != nil || got == nil || ref == nil {
		return ""
	}
	if dumpOf(got) != dumpOf(ref) {
		return at + fmt.Sprintf("the tree differs: %v", compareNodes("Proto", got, ref))
	}
	if f := wrongFile(reflect.ValueOf(got), eff.file); f != "" {
		return at + f
	}
	// the effect of each setting
	ok, want := c.spec(eff)
	alt := eff
	alt.perm = !alt.perm
	aok, awant := c.spec(alt)
	c.Nontriv = true
	d := diff{}
	if !ok && aok {
		return at + "the permissive setting has no effect"
	}
	if ok {
		d = compareNodes("Proto", got, want)
		if aok && (d["pos"] != "" || d["struct"] != "" || d["const"] != "") && len(compareNodes("Proto", got, awant)) == 0 {
			return at + "the permissive setting has no effect"
		}
		alt = eff
		alt.bic = !alt.bic
		aok, awant = c.spec(alt)
		if aok && d["body"] != "" && compareNodes("Proto", got, awant)["body"] == "" {
			return at + "the setting for comments in bodies has no effect"
		}
	}
	return ""
}

// wrongFile finds a position with another file name.
func wrongFile(v reflect.Value, file string) string {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			return wrongFile(v.Elem(), file)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(meta.Position{}) || v.Type() == reflect.TypeOf(parser.ProtoMeta{}) {
			if f := v.FieldByName("Filename").String(); f != file {
				return fmt.Sprintf("file name %q in %v", f, v)
			}
			return ""
		}
		for i := 0; i < v.NumField(); i++ {
			if s := wrongFile(v.Field(i), file); s != "" {
				return v.Type().Field(i).Name + ": " + s
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if s := wrongFile(v.Index(i), file); s != "" {
				return s
			}
		}
	}
	return ""
}

// ---- helpers

func checkHelpers(c *Case) string {
	raws := []string{c.Input, "//" + c.Input, "/*" + c.Input, "/*" + c.Input + "*/", "// " + c.Input + "*/", "/*" + c.Input + "*/*/", "/" + c.Input}
	for _, raw := range raws {
		cm := &parser.Comment{Raw: raw}
		cs := len(raw) >= 2 && raw[0] == '/' && raw[1] == '*'
		if cm.IsCStyle() != cs {
			return fmt.Sprintf("IsCStyle of %q is %v", raw, !cs)
		}
		body := raw
		if cs || len(raw) >= 2 && raw[:2] == "//" {
			body = raw[2:]
		}
		if cs && len(body) >= 2 && body[len(body)-2:] == "*/" {
			body = body[:len(body)-2]
		}
		var want []string
		for {
			i := strings.IndexByte(body, '\n')
			if i < 0 {
				want = append(want, body)
				break
			}
			want = append(want, body[:i])
			body = body[i+1:]
		}
		got := cm.Lines()
		if len(got) != len(want) {
			return fmt.Sprintf("Lines of %q are %q, want %q", raw, got, want)
		}
		for i := range got {
			if got[i] != want[i] {
				return fmt.Sprintf("Lines of %q are %q, want %q", raw, got, want)
			}
		}
		if cm.Raw != raw {
			return "the comment is changed"
		}
	}
	c.Nontriv = true
	for _, w := range []string{"proto3", "proto2", "", "proto1", "proto", "3", "2", c.Input, "proto" + c.Input, "Proto3", "proto3 ", "proto23", "proto32", "editions"} {
		s := &parser.Syntax{ProtobufVersion: w}
		want := 0
		if w == "proto3" {
			want = 3
		} else if w == "proto2" {
			want = 2
		}
		if v := s.Version(); v != want {
			return fmt.Sprintf("Version of %q is %d", w, v)
		}
	}
	return ""
}

// ---- failing readers

func checkBroken(c *Case) string {
	in := c.Input
	if c.R.Intn(2) == 0 && len(in) > 0 {
		in = in[:c.R.Intn(len(in)+1)]
	}
	if c.R.Intn(3) == 0 {
		// at a declaration's end
		if i := strings.LastIndexAny(in, ";}"); i >= 0 {
			in = in[:i+1] + []string{"", " ", "\n", "// c", "// c\n", "/* c */", "/*", " \n "}[c.R.Intn(8)]
		}
	}
	c.Nontriv = true
	x := c.config()
	errs := []error{errors.New("broken"), io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", io.EOF)}
	e := errs[c.R.Intn(len(errs))]
	n := 1 + c.R.Intn(9)
	if c.R.Intn(2) == 0 {
		n = 100000
	}
	got, err := x.parse(&chunks{s: in, n: n, last: c.R.Intn(2) == 0, err: e})
	if err == nil {
		return fmt.Sprintf("with %+v: the reader fails with %q after %q, but parsing succeeds", x, e, in)
	}
	if got != nil {
		return fmt.Sprintf("with %+v: a tree although the reader fails", x)
	}
	return ""
}

// ---- either a tree or an error

func checkEither(c *Case) string {
	x := c.config()
	got, err := x.parse(c.goodReader(c.Input))
	at := fmt.Sprintf("with %+v: ", x)
	c.Nontriv = true
	if got == nil && err == nil {
		return at + "neither a tree nor an error"
	}
	if got != nil && err != nil {
		return at + "a tree and an error: " + err.Error()
	}
	if got != nil {
		if s := nilElement("Proto", reflect.ValueOf(got)); s != "" {
			return at + s
		}
	}
	return ""
}

func checkEitherFn(c *Case) string {
	x := c.config()
	f := c.pickFn()
	p, l := x.parser(c.goodReader(c.Input))
	got, err := f.real(p)
	at := fmt.Sprintf("%s with %+v: ", f.name, x)
	c.Nontriv = true
	if !isNilAny(got) && err != nil {
		return at + "an element and an error: " + err.Error()
	}
	if isNilAny(got) && err == nil {
		if !(f.name == "ParseSyntax" && lexer.LxTok(0, scanner.ScanKeyword) != scanner.TSYNTAX ||
			f.name == "ParseEdition" && lexer.LxTok(0, scanner.ScanKeyword) != scanner.TEDITION) {
			return at + "neither an element nor an error"
		}
		l.NextComment()
		t, st, te, _, _ := scanner.SpScan(0, scanner.ScanComment)
		if l.Token != t || l.Text != meta.Str(st, te) {
			return at + fmt.Sprintf("absent, but the next token is %v %q", l.Token, l.Text)
		}
	}
	if !isNilAny(got) {
		if s := nilElement(f.name[5:], reflect.ValueOf(got)); s != "" {
			return at + s
		}
	}
	return ""
}

// ---- independence

func checkAgain(c *Case) string {
	x := c.config()
	x.debug = false
	got, err := x.parse(strings.NewReader(c.Input))
	d := dumpOf(got)
	g := &gen{r: c.R, dict: theDict, seen: map[string]bool{}}
	c.Nontriv = true
	for i := c.R.Intn(3); i >= 0; i-- {
		y := c.config()
		if c.R.Intn(2) == 0 {
			y = x
		}
		in := c.Input
		if c.R.Intn(2) == 0 {
			in = g.input("proto")
		}
		other, oerr := y.parse(c.goodReader(in))
		if oerr == nil && other != nil {
			scribble(reflect.ValueOf(other), 0)
		}
	}
	if dumpOf(got) != d {
		return fmt.Sprintf("with %+v: another parse changes the tree", x)
	}
	got2, err2 := x.parse(c.goodReader(c.Input))
	if (err == nil) != (err2 == nil) {
		return fmt.Sprintf("with %+v: error %v, again %v", x, err, err2)
	}
	if err != nil && err.Error() != err2.Error() {
		return fmt.Sprintf("with %+v: error %v, again %v", x, err, err2)
	}
	if dumpOf(got2) != d {
		return fmt.Sprintf("with %+v: the tree differs from that of the first parse: %v", x, compareNodes("Proto", got2, got))
	}
	if c.R.Intn(4) == 0 {
		// at the same time
		type res struct {
			d string
			e error
		}
		ch := make(chan res, 3)
		for i := 0; i < 3; i++ {
			go func() {
				defer func() {
					if r := recover(); r != nil {
						ch <- res{fmt.Sprint("panic: ", r), nil}
					}
				}()
				g, e := x.parse(strings.NewReader(c.Input))
				ch <- res{dumpOf(g), e}
			}()
		}
		for i := 0; i < 3; i++ {
			r := <-ch
			if r.d != d || (r.e == nil) != (err == nil) {
				return fmt.Sprintf("with %+v: parses at the same time differ: %s, want %s", x, r.d, d)
			}
		}
	}
	return ""
}

// scribble overwrites what a tree holds.
func scribble(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(-7)
		}
	}
}
