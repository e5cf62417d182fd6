//go:build go1.21

package parser

import (
	"io"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	v "github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// The grammar of the parser: each function tells whether its construct is at rune position k, where it ends (the
// position after it), where its last token starts (lp), and what it means.
// perm is the permissive mode, bic the option that includes comments in bodies.

func paTok(k int) scanner.Token { return lexer.LxTok(k, 0) }
func paKw(k int) scanner.Token  { return lexer.LxTok(k, scanner.ScanKeyword) }
func paText(k int) string       { return lexer.LxText(k, 0) }
func paStart(k int) int         { return lexer.LxStart(k, 0) }
func paEnd(k int) int           { return lexer.LxEnd(k, 0) }
func paKwEnd(k int) int         { return lexer.LxEnd(k, scanner.ScanKeyword) }
func paKwStart(k int) int       { return lexer.LxStart(k, scanner.ScanKeyword) }
func paMeta(st, lp int) v.Meta  { return v.Meta{Pos: scanner.SpPos(st), LastPos: scanner.SpPos(lp)} }
func paInt(k int) bool          { return lexer.LxTok(k, scanner.ScanNumberLit) == scanner.TINTLIT }
func paNumText(k int) string    { return lexer.LxText(k, scanner.ScanNumberLit) }
func paNumEnd(k int) int        { return lexer.LxEnd(k, scanner.ScanNumberLit) }
func paStr(k int) bool          { return lexer.LxTok(k, scanner.ScanStrLit) == scanner.TSTRLIT }
func paStrText(k int) string    { return lexer.LxText(k, scanner.ScanStrLit) }
func paStrEnd(k int) int        { return lexer.LxEnd(k, scanner.ScanStrLit) }

// ---- comments

func paComment(k int) *Comment {
	_, st, te, _, _ := scanner.SpScan(k, scanner.ScanComment)
	return &Comment{Raw: v.Str(st, te), Meta: paMeta(st, te-1)}
}

// PaComments are the comments from k on.
//
// opaque
func PaComments(k int, acc []*Comment) (end int, cs []*Comment) {
	if lexer.LxTok(k, scanner.ScanComment) != scanner.TCOMMENT {
		return k, acc
	}
	return PaComments(lexer.LxEnd(k, scanner.ScanComment), append(acc, paComment(k)))
}

// PaHasInline: a comment starts on the line.
func PaHasInline(k, line int) bool {
	return lexer.LxTok(k, scanner.ScanComment) == scanner.TCOMMENT && scanner.SpLine(lexer.LxStart(k, scanner.ScanComment)) == line
}

// PaInline is the inline comment at k, for the line that the token before is on.
//
// opaque
func PaInline(k, line int) (end int, c *Comment) {
	if !PaHasInline(k, line) {
		return k, nil
	}
	return lexer.LxEnd(k, scanner.ScanComment), paComment(k)
}

// ---- simple statements

// PaSyntax: syntax = "syntax" "=" quote ( "proto2" | "proto3" ) quote ";"
//
// opaque
func PaSyntax(k int) (ok bool, end, lp int, r *Syntax) {
	a := paKwEnd(k)
	if paKw(k) != scanner.TSYNTAX || paTok(a) != scanner.TEQUALS {
		return false, k, k, nil
	}
	b := paEnd(a)
	c := paEnd(b)
	d := paEnd(c)
	e := paEnd(d)
	if paTok(b) != scanner.TQUOTE || paText(c) != "proto3" && paText(c) != "proto2" ||
		paTok(d) != scanner.TQUOTE || paText(d) != paText(b) || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(e), paStart(e), &Syntax{
		ProtobufVersion:      paText(c),
		ProtobufVersionQuote: paText(b) + paText(c) + paText(d),
		Meta:                 paMeta(paKwStart(k), paStart(e)),
	}
}

// PaEdition: edition = "edition" "=" quote intLit quote ";"
//
// opaque
func PaEdition(k int) (ok bool, end, lp int, r *Edition) {
	a := paKwEnd(k)
	if paKw(k) != scanner.TEDITION || paTok(a) != scanner.TEQUALS {
		return false, k, k, nil
	}
	b := paEnd(a)
	c := paEnd(b)
	d := paNumEnd(c)
	e := paEnd(d)
	if paTok(b) != scanner.TQUOTE || !paInt(c) ||
		paTok(d) != scanner.TQUOTE || paText(d) != paText(b) || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(e), paStart(e), &Edition{
		Edition:      paNumText(c),
		EditionQuote: paText(b) + paNumText(c) + paText(d),
		Meta:         paMeta(paKwStart(k), paStart(e)),
	}
}

// PaImport: import = "import" [ "weak" | "public" ] strLit ";"
//
// opaque
func PaImport(k int) (ok bool, end, lp int, r *Import) {
	if paKw(k) != scanner.TIMPORT {
		return false, k, k, nil
	}
	a := paKwEnd(k)
	m := ImportModifierNone
	t := lexer.LxTok(a, scanner.ScanKeyword|scanner.ScanStrLit)
	b := a
	if t == scanner.TPUBLIC || t == scanner.TWEAK {
		b = lexer.LxEnd(a, scanner.ScanKeyword|scanner.ScanStrLit)
		m = ImportModifierPublic
		if t == scanner.TWEAK {
			m = ImportModifierWeak
		}
	} else if t != scanner.TSTRLIT {
		return false, k, k, nil
	}
	c := paStrEnd(b)
	if !paStr(b) || paTok(c) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(c), paStart(c), &Import{Modifier: m, Location: paStrText(b), Meta: paMeta(paKwStart(k), paStart(c))}
}

// PaPackage: package = "package" fullIdent ";"
//
// opaque
func PaPackage(k int) (ok bool, end, lp int, r *Package) {
	if paKw(k) != scanner.TPACKAGE {
		return false, k, k, nil
	}
	iok, e, name := lexer.LxFullIdent(paKwEnd(k))
	if !iok || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(e), paStart(e), &Package{Name: name, Meta: paMeta(paKwStart(k), paStart(e))}
}

// ---- options

// PaOptPart is one part of an option name: ident | "(" [ "." ] fullIdent ")"
//
// opaque
func PaOptPart(k int, perm bool) (ok bool, end int, text string) {
	if paTok(k) == scanner.TIDENT {
		return true, paEnd(k), paText(k)
	}
	if paTok(k) != scanner.TLEFTPAREN {
		return false, k, ""
	}
	a := paEnd(k)
	t := paText(k)
	if perm && paTok(a) == scanner.TDOT {
		a = paEnd(a)
		t = t + "."
	}
	iok, e, name := lexer.LxFullIdent(a)
	if !iok || paTok(e) != scanner.TRIGHTPAREN {
		return false, k, ""
	}
	return true, paEnd(e), t + name + paText(e)
}

// PaOptRest are the parts after the first.
//
// opaque
func PaOptRest(k int, perm bool, acc string) (ok bool, end int, text string) {
	if paTok(k) != scanner.TDOT {
		return true, k, acc
	}
	pok, e, t := PaOptPart(paEnd(k), perm)
	if !pok {
		return false, k, ""
	}
	return PaOptRest(e, perm, acc+paText(k)+t)
}

// PaOptName: optionName = part { "." part }
//
// opaque
func PaOptName(k int, perm bool) (ok bool, end int, text string) {
	pok, e, t := PaOptPart(k, perm)
	if !pok {
		return false, k, ""
	}
	return PaOptRest(e, perm, t)
}

// PaConst is the constant of an option.
//
// opaque
func PaConst(k int, perm bool) (ok bool, end int, text string) {
	if paTok(k) == scanner.TLEFTCURLY {
		if !perm {
			return false, k, ""
		}
		a := paEnd(k)
		if paTok(a) == scanner.TRIGHTCURLY {
			return true, paEnd(a), "{}"
		}
		return PaAgg(a, paText(k))
	}
	if paTok(k) == scanner.TLEFTSQUARE {
		if !perm {
			return false, k, ""
		}
		a := paEnd(k)
		if paTok(a) == scanner.TRIGHTSQUARE {
			return true, paEnd(a), "[]"
		}
		lok, e, l := PaConsts(a, perm)
		if !lok || paTok(e) != scanner.TRIGHTSQUARE {
			return false, k, ""
		}
		return true, paEnd(e), "[" + l + "]"
	}
	return lexer.LxConstant(k, perm)
}

// PaConsts is constant { "," constant }.
//
// opaque
func PaConsts(k int, perm bool) (ok bool, end int, text string) {
	cok, b, s := PaConst(k, perm)
	if !cok {
		return false, k, ""
	}
	return PaConstList(b, perm, s)
}

// PaConstList is { "," constant } after a constant.
//
// opaque
func PaConstList(k int, perm bool, acc string) (ok bool, end int, text string) {
	if paTok(k) != scanner.TCOMMA {
		return true, k, acc
	}
	cok, e, s := PaConst(paEnd(k), perm)
	if !cok {
		return false, k, ""
	}
	return PaConstList(e, perm, acc+","+s)
}

// PaAgg are the fields of an aggregate constant, from the first or next one to the closing brace.
//
// opaque
func PaAgg(k int, acc string) (ok bool, end int, text string) {
	if paTok(k) != scanner.TIDENT {
		return false, k, ""
	}
	a := paEnd(k)
	b := a
	s := acc + paText(k)
	semi := false
	if paTok(a) == scanner.TCOLON {
		b = paEnd(a)
		s = s + paText(a)
		semi = paTok(b) == scanner.TLEFTCURLY
	} else if paTok(a) != scanner.TLEFTCURLY {
		return false, k, ""
	}
	cok, c, x := PaConst(b, true)
	if !cok {
		return false, k, ""
	}
	s = s + x
	if semi && paTok(c) == scanner.TSEMICOLON {
		s = s + paText(c)
		c = paEnd(c)
	}
	if paTok(c) == scanner.TCOMMA || paTok(c) == scanner.TSEMICOLON {
		s = s + paText(c)
		d := paEnd(c)
		if paTok(d) == scanner.TRIGHTCURLY {
			return true, paEnd(d), s + paText(d)
		}
		return PaAgg(d, s)
	}
	if paTok(c) == scanner.TRIGHTCURLY {
		return true, paEnd(c), s + paText(c)
	}
	return PaAgg(c, s+"\n")
}

// PaAssign: optionName "=" constant
//
// opaque
func PaAssign(k int, perm bool) (ok bool, end int, name, constant string) {
	nok, a, n := PaOptName(k, perm)
	if !nok || paTok(a) != scanner.TEQUALS {
		return false, k, "", ""
	}
	cok, e, c := PaConst(paEnd(a), perm)
	if !cok {
		return false, k, "", ""
	}
	return true, e, n, c
}

// PaOption: option = "option" optionName "=" constant ";"
//
// opaque
func PaOption(k int, perm bool) (ok bool, end, lp int, r *Option) {
	if paKw(k) != scanner.TOPTION {
		return false, k, k, nil
	}
	aok, e, n, c := PaAssign(paKwEnd(k), perm)
	if !aok || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(e), paStart(e), &Option{OptionName: n, Constant: c, Meta: paMeta(paKwStart(k), paStart(e))}
}

// ---- fields

// PaFieldOption is an option of a field.
//
// opaque
func PaFieldOption(k int, perm bool) (ok bool, end int, r *FieldOption) {
	aok, e, n, c := PaAssign(k, perm)
	if !aok {
		return false, k, nil
	}
	return true, e, &FieldOption{OptionName: n, Constant: c}
}

// PaFieldOptionList is { "," fieldOption } after an option.
//
// opaque
func PaFieldOptionList(k int, perm bool, acc []*FieldOption) (ok bool, end int, r []*FieldOption) {
	if paTok(k) != scanner.TCOMMA {
		return true, k, acc
	}
	fok, e, o := PaFieldOption(paEnd(k), perm)
	if !fok {
		return false, k, nil
	}
	return PaFieldOptionList(e, perm, append(acc, o))
}

// PaFieldOptionSeq: fieldOption { "," fieldOption }
//
// opaque
func PaFieldOptionSeq(k int, perm bool) (ok bool, end int, r []*FieldOption) {
	fok, a, o := PaFieldOption(k, perm)
	if !fok {
		return false, k, nil
	}
	return PaFieldOptionList(a, perm, append([]*FieldOption(nil), o))
}

// PaFieldOptions: [ "[" fieldOption { "," fieldOption } "]" ]
//
// opaque
func PaFieldOptions(k int, perm bool) (ok bool, end int, r []*FieldOption) {
	if paTok(k) != scanner.TLEFTSQUARE {
		return true, k, nil
	}
	lok, e, l := PaFieldOptionSeq(paEnd(k), perm)
	if !lok || paTok(e) != scanner.TRIGHTSQUARE {
		return false, k, nil
	}
	return true, paEnd(e), l
}

func paBuiltin(t string) bool {
	return t == "double" || t == "float" || t == "int32" || t == "int64" || t == "uint32" || t == "uint64" ||
		t == "sint32" || t == "sint64" || t == "fixed32" || t == "fixed64" || t == "sfixed32" || t == "sfixed64" ||
		t == "bool" || t == "string" || t == "bytes"
}

func paKeyType(t string) bool {
	return t == "int32" || t == "int64" || t == "uint32" || t == "uint64" ||
		t == "sint32" || t == "sint64" || t == "fixed32" || t == "fixed64" || t == "sfixed32" || t == "sfixed64" ||
		t == "bool" || t == "string"
}

// PaType is the type of a field.
//
// opaque
func PaType(k int) (ok bool, end int, text string) {
	if paBuiltin(paText(k)) {
		return true, paEnd(k), paText(k)
	}
	return lexer.LxMessageType(k)
}

// PaFieldTail: fieldName "=" fieldNumber [ fieldOptions ] ";"
//
// opaque
func PaFieldTail(k int, perm bool) (ok bool, end, lp int, name, number string, opts []*FieldOption) {
	a := paEnd(k)
	b := paEnd(a)
	if paTok(k) != scanner.TIDENT || paTok(a) != scanner.TEQUALS || !paInt(b) {
		return false, k, k, "", "", nil
	}
	ook, e, o := PaFieldOptions(paNumEnd(b), perm)
	if !ook || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, "", "", nil
	}
	return true, paEnd(e), paStart(e), paText(k), paNumText(b), o
}

func paLabel(t scanner.Token) bool {
	return t == scanner.TREPEATED || t == scanner.TREQUIRED || t == scanner.TOPTIONAL
}

// PaField: field = [ label ] type fieldName "=" fieldNumber [ fieldOptions ] ";"
//
// opaque
func PaField(k int, perm bool) (ok bool, end, lp int, r *Field) {
	a := k
	if paLabel(paKw(k)) {
		a = paKwEnd(k)
	}
	tok, b, typ := PaType(a)
	if !tok {
		return false, k, k, nil
	}
	fok, e, l, name, number, opts := PaFieldTail(b, perm)
	if !fok {
		return false, k, k, nil
	}
	return true, e, l, &Field{
		IsRepeated:   paKw(k) == scanner.TREPEATED,
		IsRequired:   paKw(k) == scanner.TREQUIRED,
		IsOptional:   paKw(k) == scanner.TOPTIONAL,
		Type:         typ,
		FieldName:    name,
		FieldNumber:  number,
		FieldOptions: opts,
		Meta:         paMeta(paKwStart(k), l),
	}
}

// PaOneofField: oneofField = type fieldName "=" fieldNumber [ fieldOptions ] ";"
//
// opaque
func PaOneofField(k int, perm bool) (ok bool, end, lp int, r *OneofField) {
	tok, b, typ := PaType(k)
	if !tok {
		return false, k, k, nil
	}
	fok, e, l, name, number, opts := PaFieldTail(b, perm)
	if !fok {
		return false, k, k, nil
	}
	return true, e, l, &OneofField{
		Type:         typ,
		FieldName:    name,
		FieldNumber:  number,
		FieldOptions: opts,
		Meta:         paMeta(paStart(k), l),
	}
}

// PaMapField: mapField = "map" "<" keyType "," type ">" mapName "=" fieldNumber [ fieldOptions ] ";"
//
// opaque
func PaMapField(k int, perm bool) (ok bool, end, lp int, r *MapField) {
	a := paKwEnd(k)
	if paKw(k) != scanner.TMAP || paTok(a) != scanner.TLESS {
		return false, k, k, nil
	}
	b := paEnd(a)
	c := paEnd(b)
	if !paKeyType(paText(b)) || paTok(c) != scanner.TCOMMA {
		return false, k, k, nil
	}
	tok, d, typ := PaType(paEnd(c))
	if !tok || paTok(d) != scanner.TGREATER {
		return false, k, k, nil
	}
	fok, e, l, name, number, opts := PaFieldTail(paEnd(d), perm)
	if !fok {
		return false, k, k, nil
	}
	return true, e, l, &MapField{
		KeyType:      paText(b),
		Type:         typ,
		MapName:      name,
		FieldNumber:  number,
		FieldOptions: opts,
		Meta:         paMeta(paKwStart(k), l),
	}
}

// ---- reserved and extensions

// PaRange: range = intLit [ "to" ( intLit | "max" ) ]
//
// opaque
func PaRange(k int) (ok bool, end int, r *Range) {
	if !paInt(k) {
		return false, k, nil
	}
	a := paNumEnd(k)
	if paText(a) != "to" {
		return true, a, &Range{Begin: paNumText(k)}
	}
	b := paEnd(a)
	if !paInt(b) && paNumText(b) != "max" {
		return false, k, nil
	}
	return true, paNumEnd(b), &Range{Begin: paNumText(k), End: paNumText(b)}
}

// PaRangeList is { "," range } after a range.
//
// opaque
func PaRangeList(k int, acc []*Range) (ok bool, end int, r []*Range) {
	if paTok(k) != scanner.TCOMMA {
		return true, k, acc
	}
	rok, e, x := PaRange(paEnd(k))
	if !rok {
		return false, k, nil
	}
	return PaRangeList(e, append(acc, x))
}

// PaRanges: ranges = range { "," range }
//
// opaque
func PaRanges(k int) (ok bool, end int, r []*Range) {
	rok, e, x := PaRange(k)
	if !rok {
		return false, k, nil
	}
	return PaRangeList(e, append([]*Range(nil), x))
}

// PaFieldName: strLit | ident
//
// opaque
func PaFieldName(k int) (ok bool, end int, text string) {
	if paStr(k) {
		return true, paStrEnd(k), paStrText(k)
	}
	if paTok(k) == scanner.TIDENT {
		return true, paEnd(k), paText(k)
	}
	return false, k, ""
}

// PaFieldNameList is { [ "," ] fieldName } after a name.
//
// opaque
func PaFieldNameList(k int, acc []string) (ok bool, end int, r []string) {
	if paTok(k) == scanner.TCOMMA {
		nok, e, t := PaFieldName(paEnd(k))
		if !nok {
			return false, k, nil
		}
		return PaFieldNameList(e, append(acc, t))
	}
	nok, e, t := PaFieldName(k)
	if !nok {
		return true, k, acc
	}
	return PaFieldNameList(e, append(acc, t))
}

// PaFieldNames: fieldName { [ "," ] fieldName }
//
// opaque
func PaFieldNames(k int) (ok bool, end int, r []string) {
	nok, e, t := PaFieldName(k)
	if !nok {
		return false, k, nil
	}
	return PaFieldNameList(e, append([]string(nil), t))
}

// PaReserved: reserved = "reserved" ( ranges | fieldNames ) ";"
//
// opaque
func PaReserved(k int) (ok bool, end, lp int, r *Reserved) {
	if paKw(k) != scanner.TRESERVED {
		return false, k, k, nil
	}
	a := paKwEnd(k)
	if paInt(a) {
		rok, e, l := PaRanges(a)
		if !rok || paTok(e) != scanner.TSEMICOLON {
			return false, k, k, nil
		}
		return true, paEnd(e), paStart(e), &Reserved{Ranges: l, Meta: paMeta(paKwStart(k), paStart(e))}
	}
	nok, e, l := PaFieldNames(a)
	if !nok || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(e), paStart(e), &Reserved{FieldNames: l, Meta: paMeta(paKwStart(k), paStart(e))}
}

// PaDeclFields are the fields of an extension declaration, and its closing brace.
//
// opaque
func PaDeclFields(k int, number, fullName, typ string, repeated, reserved bool) (ok bool, end, lp int, nu, fn, ty string, rp, rs bool) {
	if paTok(k) == scanner.TRIGHTCURLY {
		return true, paEnd(k), paStart(k), number, fullName, typ, repeated, reserved
	}
	a := k
	if paTok(k) == scanner.TCOMMA {
		a = paEnd(k)
	}
	t := paKw(a)
	c := paKwEnd(a)
	x := paEnd(c)
	if paTok(c) != scanner.TCOLON {
		return false, k, k, "", "", "", false, false
	}
	if t == scanner.TNUMBER && paInt(x) {
		return PaDeclFields(paNumEnd(x), paNumText(x), fullName, typ, repeated, reserved)
	}
	if t == scanner.TFULLNAME && paStr(x) {
		return PaDeclFields(paStrEnd(x), number, paStrText(x), typ, repeated, reserved)
	}
	if t == scanner.TTYPE && paStr(x) {
		return PaDeclFields(paStrEnd(x), number, fullName, paStrText(x), repeated, reserved)
	}
	if t == scanner.TREPEATED && (paText(x) == "true" || paText(x) == "false") {
		return PaDeclFields(paEnd(x), number, fullName, typ, paText(x) == "true", reserved)
	}
	if t == scanner.TRESERVED && (paText(x) == "true" || paText(x) == "false") {
		return PaDeclFields(paEnd(x), number, fullName, typ, repeated, paText(x) == "true")
	}
	return false, k, k, "", "", "", false, false
}

// PaDeclaration: declaration = "declaration" "=" "{" fields "}"
//
// opaque
func PaDeclaration(k int) (ok bool, end, lp int, r *Declaration) {
	a := paKwEnd(k)
	b := paEnd(a)
	if paKw(k) != scanner.TDECLARATION || paTok(a) != scanner.TEQUALS || paTok(b) != scanner.TLEFTCURLY {
		return false, k, k, nil
	}
	c, ic := PaInline(paEnd(b), scanner.SpLine(paStart(b)))
	fok, e, l, nu, fn, ty, rp, rs := PaDeclFields(c, "", "", "", false, false)
	if !fok {
		return false, k, k, nil
	}
	return true, e, l, &Declaration{
		Number: nu, FullName: fn, Type: ty, Reserved: rs, Repeated: rp,
		InlineCommentBehindLeftCurly: ic,
		Meta:                         paMeta(paKwStart(k), l),
	}
}

// PaDeclInline is the inline comment after the separator behind a declaration: the last of at most two on a line.
// (The separator ends on the line that it starts on.)
//
// opaque
func PaDeclInline(k, line int) (end int, c *Comment) {
	if !PaHasInline(k, line) {
		return PaInline(k, scanner.SpLine(k))
	}
	e := lexer.LxEnd(k, scanner.ScanComment)
	if !PaHasInline(e, line) {
		return e, paComment(k)
	}
	return lexer.LxEnd(e, scanner.ScanComment), paComment(e)
}

// PaDeclList are the declarations, and the closing bracket.
//
// opaque
func PaDeclList(k int, acc []*Declaration) (ok bool, end int, r []*Declaration) {
	a, cs := PaComments(k, nil)
	dok, b, _, d := PaDeclaration(a)
	if !dok || paTok(b) != scanner.TRIGHTSQUARE && paTok(b) != scanner.TCOMMA {
		return false, k, nil
	}
	e, ic := PaDeclInline(paEnd(b), scanner.SpLine(paStart(b)))
	d.Comments = cs
	d.InlineComment = ic
	if paTok(b) == scanner.TRIGHTSQUARE {
		return true, e, append(acc, d)
	}
	return PaDeclList(e, append(acc, d))
}

// PaDeclarations: [ "[" declaration { "," declaration } "]" ]
//
// opaque
func PaDeclarations(k int) (ok bool, end int, ic *Comment, r []*Declaration) {
	if paTok(k) != scanner.TLEFTSQUARE {
		return true, k, nil, nil
	}
	a, c := PaInline(paEnd(k), scanner.SpLine(paStart(k)))
	dok, e, l := PaDeclList(a, nil)
	if !dok {
		return false, k, nil, nil
	}
	return true, e, c, l
}

// PaExtensions: extensions = "extensions" ranges [ declarations ] ";"
//
// opaque
func PaExtensions(k int) (ok bool, end, lp int, r *Extensions) {
	if paKw(k) != scanner.TEXTENSIONS {
		return false, k, k, nil
	}
	rok, a, ranges := PaRanges(paKwEnd(k))
	if !rok {
		return false, k, k, nil
	}
	dok, e, ic, ds := PaDeclarations(a)
	if !dok || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(e), paStart(e), &Extensions{
		Ranges: ranges, Declarations: ds, InlineCommentBehindLeftSquare: ic,
		Meta: paMeta(paKwStart(k), paStart(e)),
	}
}

// ---- blocks

// PaBlockEnd: the closing brace at k, with the semicolon that may follow it in permissive mode.
//
// opaque
func PaBlockEnd(k int, perm bool) (end, lp int) {
	e := paEnd(k)
	if perm && paTok(e) == scanner.TSEMICOLON {
		return paEnd(e), paStart(e)
	}
	return e, paStart(k)
}

// paBodyComments appends comments to a body.
func paBodyComments(acc []Visitee, cs []*Comment, bic bool) []Visitee {
	if !bic {
		return acc
	}
	return v.AppendNodes(acc, cs)
}

// PaEnumOption is an option of an enum value.
//
// opaque
func PaEnumOption(k int, perm bool) (ok bool, end int, r *EnumValueOption) {
	aok, e, n, c := PaAssign(k, perm)
	if !aok {
		return false, k, nil
	}
	return true, e, &EnumValueOption{OptionName: n, Constant: c}
}

// PaEnumOptionList is { "," enumValueOption } after an option.
//
// opaque
func PaEnumOptionList(k int, perm bool, acc []*EnumValueOption) (ok bool, end int, r []*EnumValueOption) {
	if paTok(k) != scanner.TCOMMA {
		return true, k, acc
	}
	fok, e, o := PaEnumOption(paEnd(k), perm)
	if !fok {
		return false, k, nil
	}
	return PaEnumOptionList(e, perm, append(acc, o))
}

// PaEnumOptions: [ "[" enumValueOption { "," enumValueOption } "]" ]
//
// opaque
func PaEnumOptions(k int, perm bool) (ok bool, end int, r []*EnumValueOption) {
	if paTok(k) != scanner.TLEFTSQUARE {
		return true, k, nil
	}
	fok, a, o := PaEnumOption(paEnd(k), perm)
	if !fok {
		return false, k, nil
	}
	lok, e, l := PaEnumOptionList(a, perm, append([]*EnumValueOption(nil), o))
	if !lok || paTok(e) != scanner.TRIGHTSQUARE {
		return false, k, nil
	}
	return true, paEnd(e), l
}

// PaEnumField: enumField = ident "=" [ "-" ] intLit [ options ] ";"
//
// opaque
func PaEnumField(k int, perm bool) (ok bool, end, lp int, r *EnumField) {
	a := paEnd(k)
	if paTok(k) != scanner.TIDENT || paTok(a) != scanner.TEQUALS {
		return false, k, k, nil
	}
	b := paEnd(a)
	sign := ""
	if paTok(b) == scanner.TMINUS {
		b = paEnd(b)
		sign = "-"
	}
	if !paInt(b) {
		return false, k, k, nil
	}
	ook, e, o := PaEnumOptions(paNumEnd(b), perm)
	if !ook || paTok(e) != scanner.TSEMICOLON {
		return false, k, k, nil
	}
	return true, paEnd(e), paStart(e), &EnumField{
		Ident: paText(k), Number: sign + paNumText(b), EnumValueOptions: o,
		Meta: paMeta(paStart(k), paStart(e)),
	}
}

// PaEnumStmts are the rest of an enum body.
//
// opaque
func PaEnumStmts(k int, perm, bic bool, acc []Visitee) (ok bool, end, lp int, r []Visitee) {
	a, cs := PaComments(k, nil)
	t := paKw(a)
	if t == scanner.TRIGHTCURLY {
		e, l := PaBlockEnd(a, perm)
		return true, e, l, paBodyComments(acc, cs, bic)
	}
	if t == scanner.TOPTION {
		nok, e, l, n := PaOption(a, perm)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaEnumStmts(e2, perm, bic, append(acc, n))
	}
	if t == scanner.TRESERVED {
		nok, e, l, n := PaReserved(a)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaEnumStmts(e2, perm, bic, append(acc, n))
	}
	if paTok(a) == scanner.TSEMICOLON {
		e2, ic := PaInline(paEnd(a), scanner.SpLine(paStart(a)))
		return PaEnumStmts(e2, perm, bic, append(acc, &EmptyStatement{InlineComment: ic}))
	}
	nok, e, l, n := PaEnumField(a, perm)
	if !nok {
		return false, k, k, nil
	}
	e2, ic := PaInline(e, scanner.SpLine(l))
	n.Comments = cs
	n.InlineComment = ic
	return PaEnumStmts(e2, perm, bic, append(acc, n))
}

// PaEnumBody is the body of an enum.
//
// opaque
func PaEnumBody(k int, perm, bic bool) (ok bool, end, lp int, c *Comment, r []Visitee) {
	if paTok(k) != scanner.TLEFTCURLY {
		return false, k, k, nil, nil
	}
	a, ic := PaInline(paEnd(k), scanner.SpLine(paStart(k)))
	bok, e, l, b := PaEnumStmts(a, perm, bic, nil)
	if !bok {
		return false, k, k, nil, nil
	}
	return true, e, l, ic, b
}

// PaEnum: enum = "enum" enumName enumBody
//
// opaque
func PaEnum(k int, perm, bic bool) (ok bool, end, lp int, r *Enum) {
	a := paKwEnd(k)
	if paKw(k) != scanner.TENUM || paTok(a) != scanner.TIDENT {
		return false, k, k, nil
	}
	bok, e, l, ic, b := PaEnumBody(paEnd(a), perm, bic)
	if !bok {
		return false, k, k, nil
	}
	return true, e, l, &Enum{EnumName: paText(a), EnumBody: b, InlineCommentBehindLeftCurly: ic, Meta: paMeta(paKwStart(k), l)}
}

// PaOneofStmts are the rest of a oneof, up to its closing brace: at least one more element, then the brace or more.
//
// opaque
func PaOneofStmts(k int, perm bool, fs []*OneofField, os []*Option) (ok bool, end int, rf []*OneofField, ro []*Option) {
	a, cs := PaComments(k, nil)
	if paTok(a) == scanner.TSEMICOLON {
		e := paEnd(a)
		if paTok(e) == scanner.TRIGHTCURLY {
			return true, e, fs, os
		}
		return PaOneofStmts(e, perm, fs, os)
	}
	if paKw(a) == scanner.TOPTION {
		nok, e, l, n := PaOption(a, perm)
		if !nok {
			return false, k, nil, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		if paTok(e2) == scanner.TRIGHTCURLY {
			return true, e2, fs, append(os, n)
		}
		return PaOneofStmts(e2, perm, fs, append(os, n))
	}
	nok, e, l, n := PaOneofField(a, perm)
	if !nok {
		return false, k, nil, nil
	}
	e2, ic := PaInline(e, scanner.SpLine(l))
	n.Comments = cs
	n.InlineComment = ic
	if paTok(e2) == scanner.TRIGHTCURLY {
		return true, e2, append(fs, n), os
	}
	return PaOneofStmts(e2, perm, append(fs, n), os)
}

// PaOneof: oneof = "oneof" oneofName "{" ... "}"
//
// opaque
func PaOneof(k int, perm bool) (ok bool, end, lp int, r *Oneof) {
	a := paKwEnd(k)
	b := paEnd(a)
	if paKw(k) != scanner.TONEOF || paTok(a) != scanner.TIDENT || paTok(b) != scanner.TLEFTCURLY {
		return false, k, k, nil
	}
	c, ic := PaInline(paEnd(b), scanner.SpLine(paStart(b)))
	sok, d, fs, os := PaOneofStmts(c, perm, nil, nil)
	if !sok {
		return false, k, k, nil
	}
	e, l := PaBlockEnd(d, perm)
	return true, e, l, &Oneof{OneofFields: fs, OneofName: paText(a), Options: os, InlineCommentBehindLeftCurly: ic, Meta: paMeta(paKwStart(k), l)}
}

// PaExtendStmts are the rest of an extend body.
//
// opaque
func PaExtendStmts(k int, perm, bic bool, acc []Visitee) (ok bool, end, lp int, r []Visitee) {
	a, cs := PaComments(k, nil)
	if paKw(a) == scanner.TRIGHTCURLY {
		e, l := PaBlockEnd(a, perm)
		return true, e, l, paBodyComments(acc, cs, bic)
	}
	if paTok(a) == scanner.TSEMICOLON {
		e2, ic := PaInline(paEnd(a), scanner.SpLine(paStart(a)))
		return PaExtendStmts(e2, perm, bic, append(acc, &EmptyStatement{InlineComment: ic}))
	}
	nok, e, l, n := PaField(a, perm)
	if !nok {
		return false, k, k, nil
	}
	e2, ic := PaInline(e, scanner.SpLine(l))
	n.Comments = cs
	n.InlineComment = ic
	return PaExtendStmts(e2, perm, bic, append(acc, n))
}

// PaExtendBody is the body of an extend.
//
// opaque
func PaExtendBody(k int, perm, bic bool) (ok bool, end, lp int, c *Comment, r []Visitee) {
	if paTok(k) != scanner.TLEFTCURLY {
		return false, k, k, nil, nil
	}
	a, ic := PaInline(paEnd(k), scanner.SpLine(paStart(k)))
	bok, e, l, b := PaExtendStmts(a, perm, bic, nil)
	if !bok {
		return false, k, k, nil, nil
	}
	return true, e, l, ic, b
}

// PaExtend: extend = "extend" messageType extendBody
//
// opaque
func PaExtend(k int, perm, bic bool) (ok bool, end, lp int, r *Extend) {
	if paKw(k) != scanner.TEXTEND {
		return false, k, k, nil
	}
	tok, a, t := lexer.LxMessageType(paKwEnd(k))
	if !tok {
		return false, k, k, nil
	}
	bok, e, l, ic, b := PaExtendBody(a, perm, bic)
	if !bok {
		return false, k, k, nil
	}
	return true, e, l, &Extend{MessageType: t, ExtendBody: b, InlineCommentBehindLeftCurly: ic, Meta: paMeta(paKwStart(k), l)}
}

// PaIsGroup: [ label ] "group" capitalIdent "=" fieldNumber "{"
//
// opaque
func PaIsGroup(k int) bool {
	a := k
	if paLabel(paKw(k)) {
		a = paKwEnd(k)
	}
	b := paKwEnd(a)
	c := paEnd(b)
	d := paEnd(c)
	return paKw(a) == scanner.TGROUP && paTok(b) == scanner.TIDENT && paCapital(b) &&
		paTok(c) == scanner.TEQUALS && paInt(d) && paTok(paNumEnd(d)) == scanner.TLEFTCURLY
}

// paCapital: the token begins with a capital letter.
func paCapital(k int) bool { return 'A' <= v.At(paStart(k)) && v.At(paStart(k)) <= 'Z' }

// PaGroupField: group = [ label ] "group" groupName "=" fieldNumber messageBody
//
// opaque
func PaGroupField(k int, perm, bic bool) (ok bool, end, lp int, r *GroupField) {
	a := k
	if paLabel(paKw(k)) {
		a = paKwEnd(k)
	}
	b := paKwEnd(a)
	c := paEnd(b)
	d := paEnd(c)
	if paKw(a) != scanner.TGROUP || paTok(b) != scanner.TIDENT || !paCapital(b) || paTok(c) != scanner.TEQUALS || !paInt(d) {
		return false, k, k, nil
	}
	bok, e, l, ic, body := PaMessageBody(paNumEnd(d), perm, bic)
	if !bok {
		return false, k, k, nil
	}
	return true, e, l, &GroupField{
		IsRepeated:                   paKw(k) == scanner.TREPEATED,
		IsRequired:                   paKw(k) == scanner.TREQUIRED,
		IsOptional:                   paKw(k) == scanner.TOPTIONAL,
		GroupName:                    paText(b),
		FieldNumber:                  paNumText(d),
		MessageBody:                  body,
		InlineCommentBehindLeftCurly: ic,
		Meta:                         paMeta(paKwStart(k), l),
	}
}

// PaMessageStmts are the rest of a message body.
//
// opaque
func PaMessageStmts(k int, perm, bic bool, acc []Visitee) (ok bool, end, lp int, r []Visitee) {
	a, cs := PaComments(k, nil)
	t := paKw(a)
	switch t {
	case scanner.TRIGHTCURLY:
		e, l := PaBlockEnd(a, perm)
		return true, e, l, paBodyComments(acc, cs, bic)
	case scanner.TENUM:
		nok, e, l, n := PaEnum(a, perm, bic)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	case scanner.TMESSAGE:
		nok, e, l, n := PaMessage(a, perm, bic)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	case scanner.TOPTION:
		nok, e, l, n := PaOption(a, perm)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	case scanner.TONEOF:
		nok, e, l, n := PaOneof(a, perm)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	case scanner.TMAP:
		nok, e, l, n := PaMapField(a, perm)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	case scanner.TEXTEND:
		nok, e, l, n := PaExtend(a, perm, bic)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	case scanner.TRESERVED:
		nok, e, l, n := PaReserved(a)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	case scanner.TEXTENSIONS:
		nok, e, l, n := PaExtensions(a)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	}
	if paTok(a) == scanner.TSEMICOLON {
		e2, ic := PaInline(paEnd(a), scanner.SpLine(paStart(a)))
		return PaMessageStmts(e2, perm, bic, append(acc, &EmptyStatement{InlineComment: ic}))
	}
	if PaIsGroup(a) {
		nok, e, l, n := PaGroupField(a, perm, bic)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaMessageStmts(e2, perm, bic, append(acc, n))
	}
	nok, e, l, n := PaField(a, perm)
	if !nok {
		return false, k, k, nil
	}
	e2, ic := PaInline(e, scanner.SpLine(l))
	n.Comments = cs
	n.InlineComment = ic
	return PaMessageStmts(e2, perm, bic, append(acc, n))
}

// PaMessageBody is the body of a message.
//
// opaque
func PaMessageBody(k int, perm, bic bool) (ok bool, end, lp int, c *Comment, r []Visitee) {
	if paTok(k) != scanner.TLEFTCURLY {
		return false, k, k, nil, nil
	}
	a, ic := PaInline(paEnd(k), scanner.SpLine(paStart(k)))
	bok, e, l, b := PaMessageStmts(a, perm, bic, nil)
	if !bok {
		return false, k, k, nil, nil
	}
	return true, e, l, ic, b
}

// PaMessage: message = "message" messageName messageBody
//
// opaque
func PaMessage(k int, perm, bic bool) (ok bool, end, lp int, r *Message) {
	a := paKwEnd(k)
	if paKw(k) != scanner.TMESSAGE || paTok(a) != scanner.TIDENT {
		return false, k, k, nil
	}
	bok, e, l, ic, b := PaMessageBody(paEnd(a), perm, bic)
	if !bok {
		return false, k, k, nil
	}
	return true, e, l, &Message{MessageName: paText(a), MessageBody: b, InlineCommentBehindLeftCurly: ic, Meta: paMeta(paKwStart(k), l)}
}

// ---- services

// PaParam: "(" [ "stream" ] messageType ")"
//
// opaque
func PaParam(k int) (ok bool, end int, stream bool, typ string, lp int) {
	if paTok(k) != scanner.TLEFTPAREN {
		return false, k, false, "", k
	}
	a := paEnd(k)
	s := paKw(a) == scanner.TSTREAM
	if s {
		a = paKwEnd(a)
	}
	tok, e, t := lexer.LxMessageType(a)
	if !tok || paTok(e) != scanner.TRIGHTPAREN {
		return false, k, false, "", k
	}
	return true, paEnd(e), s, t, paStart(e)
}

// PaRequest is the request of an rpc.
//
// opaque
func PaRequest(k int) (ok bool, end int, r *RPCRequest) {
	pok, e, s, t, l := PaParam(k)
	if !pok {
		return false, k, nil
	}
	return true, e, &RPCRequest{IsStream: s, MessageType: t, Meta: paMeta(paStart(k), l)}
}

// PaResponse is the response of an rpc.
//
// opaque
func PaResponse(k int) (ok bool, end int, r *RPCResponse) {
	pok, e, s, t, l := PaParam(k)
	if !pok {
		return false, k, nil
	}
	return true, e, &RPCResponse{IsStream: s, MessageType: t, Meta: paMeta(paStart(k), l)}
}

// PaRPCStmts are the rest of the options of an rpc, up to the closing brace.
//
// opaque
func PaRPCStmts(k int, perm bool, acc []*Option) (ok bool, end int, r []*Option) {
	if paTok(k) == scanner.TRIGHTCURLY {
		return true, k, acc
	}
	if paKw(k) == scanner.TOPTION {
		nok, e, _, n := PaOption(k, perm)
		if !nok {
			return false, k, nil
		}
		return PaRPCStmts(e, perm, append(acc, n))
	}
	if paTok(k) == scanner.TSEMICOLON {
		return PaRPCStmts(paEnd(k), perm, acc)
	}
	return false, k, nil
}

// PaRPCOptions is the block of options of an rpc; its closing brace is at z.
//
// opaque
func PaRPCOptions(k int, perm bool) (ok bool, end, z int, c *Comment, r []*Option) {
	if paTok(k) != scanner.TLEFTCURLY {
		return false, k, k, nil, nil
	}
	d, ic := PaInline(paEnd(k), scanner.SpLine(paStart(k)))
	ook, e, os := PaRPCStmts(d, perm, nil)
	if !ook {
		return false, k, k, nil, nil
	}
	return true, paEnd(e), e, ic, os
}

// PaEmbedded are the comments from k on, before position to.
//
// opaque
func PaEmbedded(k, to int, acc []*Comment) []*Comment {
	_, st, _, e, _ := scanner.SpScan(k, scanner.ScanComment)
	if st >= to {
		return acc
	}
	if lexer.LxTok(k, scanner.ScanComment) == scanner.TCOMMENT {
		return PaEmbedded(e, to, append(acc, paComment(k)))
	}
	return PaEmbedded(e, to, acc)
}

// PaRPC: rpc = "rpc" rpcName request "returns" response ( "{" options "}" | ";" )
//
// opaque
func PaRPC(k int, perm bool) (ok bool, end, lp int, r *RPC) {
	a := paKwEnd(k)
	if paKw(k) != scanner.TRPC || paTok(a) != scanner.TIDENT {
		return false, k, k, nil
	}
	qok, b, q := PaRequest(paEnd(a))
	if !qok || paKw(b) != scanner.TRETURNS {
		return false, k, k, nil
	}
	sok, c, s := PaResponse(paKwEnd(b))
	if !sok {
		return false, k, k, nil
	}
	n := &RPC{RPCName: paText(a), RPCRequest: q, RPCResponse: s, EmbeddedComments: PaEmbedded(paKwEnd(k), paStart(c), nil)}
	if paTok(c) == scanner.TSEMICOLON {
		n.Meta = paMeta(paKwStart(k), paStart(c))
		return true, paEnd(c), paStart(c), n
	}
	if paTok(c) != scanner.TLEFTCURLY {
		return false, k, k, nil
	}
	ook, _, z, ic, os := PaRPCOptions(c, perm)
	if !ook {
		return false, k, k, nil
	}
	e, l := PaBlockEnd(z, perm)
	n.Options = os
	n.InlineCommentBehindLeftCurly = ic
	n.Meta = paMeta(paKwStart(k), l)
	return true, e, l, n
}

// PaServiceStmts are the rest of a service body.
//
// opaque
func PaServiceStmts(k int, perm, bic bool, acc []Visitee) (ok bool, end, lp int, r []Visitee) {
	a, cs := PaComments(k, nil)
	t := paKw(a)
	if t == scanner.TRIGHTCURLY {
		e, l := PaBlockEnd(a, perm)
		return true, e, l, paBodyComments(acc, cs, bic)
	}
	if t == scanner.TOPTION {
		nok, e, l, n := PaOption(a, perm)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaServiceStmts(e2, perm, bic, append(acc, n))
	}
	if t == scanner.TRPC {
		nok, e, l, n := PaRPC(a, perm)
		if !nok {
			return false, k, k, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return PaServiceStmts(e2, perm, bic, append(acc, n))
	}
	if paTok(a) == scanner.TSEMICOLON {
		e2, ic := PaInline(paEnd(a), scanner.SpLine(paStart(a)))
		return PaServiceStmts(e2, perm, bic, append(acc, &EmptyStatement{InlineComment: ic}))
	}
	return false, k, k, nil
}

// PaServiceBody is the body of a service.
//
// opaque
func PaServiceBody(k int, perm, bic bool) (ok bool, end, lp int, c *Comment, r []Visitee) {
	if paTok(k) != scanner.TLEFTCURLY {
		return false, k, k, nil, nil
	}
	a, ic := PaInline(paEnd(k), scanner.SpLine(paStart(k)))
	bok, e, l, b := PaServiceStmts(a, perm, bic, nil)
	if !bok {
		return false, k, k, nil, nil
	}
	return true, e, l, ic, b
}

// PaService: service = "service" serviceName serviceBody
//
// opaque
func PaService(k int, perm, bic bool) (ok bool, end, lp int, r *Service) {
	a := paKwEnd(k)
	if paKw(k) != scanner.TSERVICE || paTok(a) != scanner.TIDENT {
		return false, k, k, nil
	}
	bok, e, l, ic, b := PaServiceBody(paEnd(a), perm, bic)
	if !bok {
		return false, k, k, nil
	}
	return true, e, l, &Service{ServiceName: paText(a), ServiceBody: b, InlineCommentBehindLeftCurly: ic, Meta: paMeta(paKwStart(k), l)}
}

// ---- files

// PaFileStmts are the rest of a file; lead are comments before it.
//
// opaque
func PaFileStmts(k int, lead []*Comment, perm, bic bool, acc []Visitee) (ok bool, r []Visitee) {
	a, next := PaComments(k, nil)
	cs := v.AppendNodes(lead, next)
	if paTok(a) == scanner.TEOF {
		if v.Rerr() != io.EOF {
			return false, nil
		}
		return true, paBodyComments(acc, cs, bic)
	}
	nok, e, n := PaFileStmt(a, cs, perm, bic)
	if !nok {
		return false, nil
	}
	return PaFileStmts(e, nil, perm, bic, append(acc, n))
}

// PaFileStmt is a statement of a file, with its comments.
//
// opaque
func PaFileStmt(a int, cs []*Comment, perm, bic bool) (ok bool, end int, r Visitee) {
	switch paKw(a) {
	case scanner.TIMPORT:
		nok, e, l, n := PaImport(a)
		if !nok {
			return false, a, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return true, e2, n
	case scanner.TPACKAGE:
		nok, e, l, n := PaPackage(a)
		if !nok {
			return false, a, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return true, e2, n
	case scanner.TOPTION:
		nok, e, l, n := PaOption(a, perm)
		if !nok {
			return false, a, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return true, e2, n
	case scanner.TMESSAGE:
		nok, e, l, n := PaMessage(a, perm, bic)
		if !nok {
			return false, a, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return true, e2, n
	case scanner.TENUM:
		nok, e, l, n := PaEnum(a, perm, bic)
		if !nok {
			return false, a, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return true, e2, n
	case scanner.TSERVICE:
		nok, e, l, n := PaService(a, perm, bic)
		if !nok {
			return false, a, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return true, e2, n
	case scanner.TEXTEND:
		nok, e, l, n := PaExtend(a, perm, bic)
		if !nok {
			return false, a, nil
		}
		e2, ic := PaInline(e, scanner.SpLine(l))
		n.Comments = cs
		n.InlineComment = ic
		return true, e2, n
	}
	if paTok(a) == scanner.TSEMICOLON {
		e2, ic := PaInline(paEnd(a), scanner.SpLine(paStart(a)))
		return true, e2, &EmptyStatement{InlineComment: ic}
	}
	return false, a, nil
}

// PaEditionFile is a file from the edition on, after leading comments.
//
// opaque
func PaEditionFile(k int, cs []*Comment, perm, bic bool) (ok bool, ed *Edition, r []Visitee) {
	if paKw(k) != scanner.TEDITION {
		bok, b := PaFileStmts(k, cs, perm, bic, nil)
		return bok, nil, b
	}
	nok, e, l, n := PaEdition(k)
	if !nok {
		return false, nil, nil
	}
	e2, ic := PaInline(e, scanner.SpLine(l))
	n.Comments = cs
	n.InlineComment = ic
	bok, b := PaFileStmts(e2, nil, perm, bic, nil)
	return bok, n, b
}

// PaFile: proto = [ BOM ] [ syntax ] [ edition ] { declaration }
//
// opaque
func PaFile(k int, perm, bic bool) (ok bool, r *Proto) {
	a := k
	if paTok(k) == scanner.TBOM {
		a = paEnd(k)
	}
	b, cs := PaComments(a, nil)
	if paKw(b) != scanner.TSYNTAX {
		fok, ed, body := PaEditionFile(b, cs, perm, bic)
		if !fok {
			return false, nil
		}
		return true, &Proto{Edition: ed, ProtoBody: body, Meta: &ProtoMeta{Filename: v.Filename()}}
	}
	nok, e, l, n := PaSyntax(b)
	if !nok {
		return false, nil
	}
	e2, ic := PaInline(e, scanner.SpLine(l))
	n.Comments = cs
	n.InlineComment = ic
	c, cs2 := PaComments(e2, nil)
	fok, ed, body := PaEditionFile(c, cs2, perm, bic)
	if !fok {
		return false, nil
	}
	return true, &Proto{Syntax: n, Edition: ed, ProtoBody: body, Meta: &ProtoMeta{Filename: v.Filename()}}
}
