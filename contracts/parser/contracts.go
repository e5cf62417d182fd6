//go:build go1.21

package parser

import (
	"io"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	v "github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// PaWF is the invariant of a parser between the tokens.
func PaWF(p *Parser) bool { return p != nil && lexer.LxWF(p.lex) }

// paKept: the parser is well-formed, its buffers stay in their arrays or move to new ones.
func paKept(p *Parser, rb, raw []rune, cm []scanner.Text) {
	v.Ensures("", lexer.LxWF(p.lex), lexer.LxKeep(p.lex, rb, raw, cm))
}

// paSame: the node has the parts that the specification tells.
func paNode[T any](ok bool, r, node T) {
	v.Ensures("", v.Implies(ok, v.Same(r, node)))
}

func C_Parser__unexpected(p *Parser, expected string, err error) {
	v.Requires(p != nil, p.lex != nil)
	v.Post()
	v.Ensures("", err != nil)
}

func C_Parser__parseComment(p *Parser, r *Comment, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	paKept(p, rb, raw, cm)
	ok := lexer.LxTok(k, scanner.ScanComment) == scanner.TCOMMENT
	v.Ensures("", ok == (err == nil), v.Implies(ok, r != nil), v.Implies(!ok, r == nil))
	v.Ensures("", v.Implies(ok, lexer.LxCur(p.lex) == lexer.LxEnd(k, scanner.ScanComment) && lexer.LxCur(p.lex) > k))
	v.Ensures("", v.Implies(!ok, lexer.LxCur(p.lex) == k && p.lex.Pos.Line == scanner.SpLine(k)))
	v.Ensures("", v.Implies(ok, v.Same(r, paComment(k))))
	v.Ensures("", v.Implies(ok, p.lex.Pos.Line == scanner.SpLine(lexer.LxStart(k, scanner.ScanComment))))
	v.Ensures("", v.Implies(ok, lexer.LxRaw(p.lex, k) && v.Owned(r)))
}

// The loops of the parser: the parser is between two tokens.
func L_ANY___parser(p *Parser) {
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Invariant(lexer.LxKeep(p.lex, v.Entry(rb), v.Entry(raw), v.Entry(cm)))
	v.Invariant(lexer.LxWF(p.lex))
	k := lexer.LxCur(p.lex)
	v.Invariant(k >= v.Entry(k))
	v.Invariant(k <= v.N())
	v.Decreases(v.N() - k)
}

func C_Parser__ParseComments(p *Parser, r []*Comment) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	paKept(p, rb, raw, cm)
	end, cs := PaComments(k, nil)
	v.Ensures("", lexer.LxCur(p.lex) == end, end >= k)
	v.Ensures("", v.Same(r, cs), v.Owned(r))
}

func L_Parser__ParseComments___rest(p *Parser, comments []*Comment) {
	end, cs := PaComments(lexer.LxCur(p.lex), comments)
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(cs, v.Entry(cs)))
}

func C_Parser__parseInlineComment(p *Parser, r *Comment) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	line := p.lex.Pos.Line
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	paKept(p, rb, raw, cm)
	has := PaHasInline(k, line)
	end, c := PaInline(k, line)
	v.Ensures("", (r != nil) == has, (c != nil) == (r != nil))
	v.Ensures("", lexer.LxCur(p.lex) == end, end >= k)
	v.Ensures("", v.Implies(has, v.Same(r, c) && v.Owned(r)))
	v.Ensures("", v.Implies(has, p.lex.Pos.Line == line), v.Implies(!has, p.lex.Pos.Line == scanner.SpLine(k)))
}

// paDone: a construct was read from k to end; its last token starts at lp.
func paDone(p *Parser, k int, ok bool, end, lp int, err error, rb, raw []rune, cm []scanner.Text) {
	paKept(p, rb, raw, cm)
	v.Ensures("", ok == (err == nil))
	v.Ensures("", v.Implies(ok, lexer.LxCur(p.lex) == end && end > k))
	v.Ensures("inline", v.Implies(ok, p.lex.Pos.Line == scanner.SpLine(lp)))
}

func C_Parser__ParseSyntax(p *Parser, r *Syntax, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	here := paKw(k) == scanner.TSYNTAX
	ok, end, lp, node := PaSyntax(k)
	paKept(p, rb, raw, cm)
	v.Ensures("", (ok || !here) == (err == nil), ok == (r != nil))
	v.Ensures("", v.Implies(ok, lexer.LxCur(p.lex) == end && end > k))
	v.Ensures("", v.Implies(!here, lexer.LxCur(p.lex) == k))
	v.Ensures("inline", v.Implies(ok, p.lex.Pos.Line == scanner.SpLine(lp)))
	v.Ensures("", v.Implies(ok, v.Same(r, node) && v.Owned(r)))
}

func C_Parser__ParseEdition(p *Parser, r *Edition, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	here := paKw(k) == scanner.TEDITION
	ok, end, lp, node := PaEdition(k)
	paKept(p, rb, raw, cm)
	v.Ensures("", (ok || !here) == (err == nil), ok == (r != nil))
	v.Ensures("", v.Implies(ok, lexer.LxCur(p.lex) == end && end > k))
	v.Ensures("", v.Implies(!here, lexer.LxCur(p.lex) == k))
	v.Ensures("inline", v.Implies(ok, p.lex.Pos.Line == scanner.SpLine(lp)))
	v.Ensures("", v.Implies(ok, v.Same(r, node) && v.Owned(r)))
}

func C_Parser__ParseImport(p *Parser, r *Import, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaImport(k)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__ParsePackage(p *Parser, r *Package, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaPackage(k)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

// ---- options

// paText: a part of the text from k to end was read.
func paRead(p *Parser, k int, ok bool, end int, err error, rb, raw []rune, cm []scanner.Text) {
	paKept(p, rb, raw, cm)
	v.Ensures("", ok == (err == nil))
	v.Ensures("", v.Implies(ok, lexer.LxCur(p.lex) == end && end > k))
}

func C_Parser__parseOptionName(p *Parser, r string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	ok, end, text := PaOptName(k, p.permissive)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, r == text))
}

func L_Parser__parseOptionName___rest(p *Parser, name string) {
	ok, end, text := PaOptRest(lexer.LxCur(p.lex), p.permissive, name)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(text == v.Entry(text))
}

func C_Parser__parseOptionConstant(p *Parser, r string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Decreases(v.N()-k, 1)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	ok, end, text := PaConst(k, p.permissive)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, r == text))
}

func C_Parser__parseOptionConstants(p *Parser, r string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Decreases(v.N()-k, 2)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	ok, end, text := PaConsts(k, p.permissive)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, r == text))
}

func L_Parser__parseOptionConstants___rest(p *Parser, opts []string) {
	ok, end, text := PaConstList(lexer.LxCur(p.lex), p.permissive, strings.Join(opts, ","))
	v.Invariant(len(opts) > 0)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(text == v.Entry(text))
}

func C_Parser__parseCloudEndpointsOptionConstant(p *Parser, r string, err error) {
	v.Requires(PaWF(p), p.permissive)
	k := lexer.LxCur(p.lex)
	v.Requires(paTok(k) == scanner.TLEFTCURLY)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Decreases(v.N()-k, 0)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	ok, end, text := PaAgg(paEnd(k), paText(k))
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, r == text))
}

func L_Parser__parseCloudEndpointsOptionConstant___rest(p *Parser, text string) {
	ok, end, t := PaAgg(lexer.LxCur(p.lex), text)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(t == v.Entry(t))
}

func C_Parser__ParseOption(p *Parser, r *Option, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaOption(k, p.permissive)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

// ---- fields

// paMaybe: an optional part of the text from k to end was read.
func paMaybe(p *Parser, k int, ok bool, end int, err error, rb, raw []rune, cm []scanner.Text) {
	paKept(p, rb, raw, cm)
	v.Ensures("", ok == (err == nil))
	v.Ensures("", v.Implies(ok, lexer.LxCur(p.lex) == end && end >= k))
}

func C_Parser__parseFieldOption(p *Parser, r *FieldOption, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, node := PaFieldOption(k, p.permissive)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
}

func C_Parser__parseFieldOptions(p *Parser, r []*FieldOption, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, l := PaFieldOptionSeq(k, p.permissive)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
}

func L_Parser__parseFieldOptions___rest(p *Parser, opts []*FieldOption) {
	ok, end, l := PaFieldOptionList(lexer.LxCur(p.lex), p.permissive, opts)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func C_Parser__parseFieldOptionsOption(p *Parser, r []*FieldOption, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, l := PaFieldOptions(k, p.permissive)
	paMaybe(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
}

func C_Parser__parseType(p *Parser, r string, pos scanner.Position, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	ok, end, text := PaType(k)
	paMaybe(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, r == text))
	v.Ensures("pos", v.Implies(ok, pos.Position == scanner.SpPos(paStart(k))))
}

func C_Parser__parseFieldNumber(p *Parser, r string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	paRead(p, k, paInt(k), paNumEnd(k), err, rb, raw, cm)
	v.Ensures("text", v.Implies(paInt(k), r == paNumText(k)))
	v.Ensures("", lexer.LxRawAt(p.lex, k))
}

func C_Parser__parseKeyType(p *Parser, r string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	ok := paKeyType(paText(k))
	paRead(p, k, ok, paEnd(k), err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, r == paText(k)))
}

func C_Parser__ParseField(p *Parser, r *Field, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaField(k, p.permissive)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__ParseMapField(p *Parser, r *MapField, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaMapField(k, p.permissive)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__parseOneofField(p *Parser, r *OneofField, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaOneofField(k, p.permissive)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

// ---- reserved ranges and names

func C_Parser__parseRange(p *Parser, r *Range, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, node := PaRange(k)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(!paInt(k), lexer.LxCur(p.lex) == k))
}

func C_Parser__parseRanges(p *Parser, r []*Range, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, l := PaRanges(k)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(!paInt(k), lexer.LxCur(p.lex) == k))
}

func L_Parser__parseRanges___rest(p *Parser, ranges []*Range) {
	ok, end, l := PaRangeList(lexer.LxCur(p.lex), ranges)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func C_Parser__parseQuotedFieldName(p *Parser, r string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	paRead(p, k, paStr(k), paStrEnd(k), err, rb, raw, cm)
	v.Ensures("", v.Implies(paStr(k), r == paStrText(k)), v.Implies(!paStr(k), lexer.LxCur(p.lex) == k))
}

func C_Parser__parseFieldName(p *Parser, r string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	ok, end, text := PaFieldName(k)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, r == text), v.Implies(!ok, lexer.LxCur(p.lex) == k))
}

func C_Parser__parseFieldNames(p *Parser, r []string, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, l := PaFieldNames(k)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
}

func L_Parser__parseFieldNames___rest(p *Parser, names []string) {
	ok, end, l := PaFieldNameList(lexer.LxCur(p.lex), names)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func C_Parser__ParseReserved(p *Parser, r *Reserved, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaReserved(k)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

// ---- extensions

func C_Parser__ParseDeclaration(p *Parser, r *Declaration, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaDeclaration(k)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func L_Parser__ParseDeclaration___rest(p *Parser, number, fullName, typ string, repeated, reserved bool) {
	ok, end, lp, nu, fn, ty, rp, rs := PaDeclFields(lexer.LxCur(p.lex), number, fullName, typ, repeated, reserved)
	v.Invariant(ok == v.Entry(ok), end == v.Entry(end), lp == v.Entry(lp))
	v.Invariant(nu == v.Entry(nu), fn == v.Entry(fn), ty == v.Entry(ty), rp == v.Entry(rp), rs == v.Entry(rs))
}

func C_Parser__parseDeclarations(p *Parser, r []*Declaration, c *Comment, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	v.Fresh(c)
	ok, end, ic, l := PaDeclarations(k)
	paMaybe(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, v.Same(c, ic)), v.Implies(ok && c != nil, v.Owned(c)))
}

func L_Parser__parseDeclarations___rest(p *Parser, decls []*Declaration) {
	ok, end, l := PaDeclList(lexer.LxCur(p.lex), decls)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func C_Parser__ParseExtensions(p *Parser, r *Extensions, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaExtensions(k)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__parseEnumValueOption(p *Parser, r *EnumValueOption, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, node := PaEnumOption(k, p.permissive)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
}

func C_Parser__parseEnumValueOptions(p *Parser, r []*EnumValueOption, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, l := PaEnumOptions(k, p.permissive)
	paMaybe(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
}

func L_Parser__parseEnumValueOptions___rest(p *Parser, opts []*EnumValueOption) {
	ok, end, l := PaEnumOptionList(lexer.LxCur(p.lex), p.permissive, opts)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func C_Parser__parseEnumField(p *Parser, r *EnumField, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaEnumField(k, p.permissive)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

// paBody: a block body was read; see paDone. pos is where its last token starts.
func paBody(p *Parser, k int, ok bool, end, lp int, pos scanner.Position, err error, rb, raw []rune, cm []scanner.Text) {
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("pos", v.Implies(ok, pos.Position == scanner.SpPos(lp)))
}

func C_Parser__parseEnumBody(p *Parser, r []Visitee, c *Comment, pos scanner.Position, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	v.Fresh(c)
	ok, end, lp, ic, l := PaEnumBody(k, p.permissive, p.bodyIncludingComments)
	paBody(p, k, ok, end, lp, pos, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, v.Same(c, ic)), v.Implies(ok && c != nil, v.Owned(c)))
}

func L_Parser__parseEnumBody___rest(p *Parser, stmts []Visitee) {
	ok, end, lp, l := PaEnumStmts(lexer.LxCur(p.lex), p.permissive, p.bodyIncludingComments, stmts)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end), lp == v.Entry(lp))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func L_Parser__parseEnumBody___comments(p *Parser, stmts []Visitee, comments []*Comment, i int) {
	v.Invariant(v.Same(stmts, v.AppendNodes(v.Entry(v.AppendNodes(stmts, comments[:0])), comments[:i+1])))
}

func C_Parser__ParseEnum(p *Parser, r *Enum, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaEnum(k, p.permissive, p.bodyIncludingComments)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__ParseOneof(p *Parser, r *Oneof, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaOneof(k, p.permissive)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func L_Parser__ParseOneof___rest(p *Parser, oneofFields []*OneofField, options []*Option) {
	ok, end, fs, os := PaOneofStmts(lexer.LxCur(p.lex), p.permissive, oneofFields, options)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(fs, v.Entry(fs)))
	v.Invariant(v.Same(os, v.Entry(os)))
}

func C_Parser__parseExtendBody(p *Parser, r []Visitee, c *Comment, pos scanner.Position, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	v.Fresh(c)
	ok, end, lp, ic, l := PaExtendBody(k, p.permissive, p.bodyIncludingComments)
	paBody(p, k, ok, end, lp, pos, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, v.Same(c, ic)), v.Implies(ok && c != nil, v.Owned(c)))
}

func L_Parser__parseExtendBody___rest(p *Parser, stmts []Visitee) {
	ok, end, lp, l := PaExtendStmts(lexer.LxCur(p.lex), p.permissive, p.bodyIncludingComments, stmts)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end), lp == v.Entry(lp))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func L_Parser__parseExtendBody___comments(p *Parser, stmts []Visitee, comments []*Comment, i int) {
	v.Invariant(v.Same(stmts, v.AppendNodes(v.Entry(v.AppendNodes(stmts, comments[:0])), comments[:i+1])))
}

func C_Parser__ParseExtend(p *Parser, r *Extend, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaExtend(k, p.permissive, p.bodyIncludingComments)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__parseRPCRequest(p *Parser, r *RPCRequest, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, node := PaRequest(k)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
}

func C_Parser__parseRPCResponse(p *Parser, r *RPCResponse, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, node := PaResponse(k)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
}

func C_Parser__parseRPCOptions(p *Parser, r []*Option, c *Comment, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	v.Fresh(c)
	ok, end, z, ic, l := PaRPCOptions(k, p.permissive)
	paRead(p, k, ok, end, err, rb, raw, cm)
	v.Ensures("pos", v.Implies(ok, p.lex.Pos.Position == scanner.SpPos(paStart(z))))
	v.Ensures("", v.Implies(ok, scanner.SpLine(end) == scanner.SpLine(paStart(z))))
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, v.Same(c, ic)), v.Implies(ok && c != nil, v.Owned(c)))
}

func L_Parser__parseRPCOptions___rest(p *Parser, options []*Option) {
	ok, end, l := PaRPCStmts(lexer.LxCur(p.lex), p.permissive, options)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end))
	v.Invariant(v.Same(l, v.Entry(l)))
}

// The positions of the stored comments are not under contract.
//
// assumed
func C_Parser__findEmbeddedComments(p *Parser, from, to scanner.Position, r []*Comment) {
	v.Requires(PaWF(p))
	v.Post()
	v.Fresh(r)
	v.Ensures("", v.Owned(r))
}

func C_Parser__parseRPC(p *Parser, r *RPC, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaRPC(k, p.permissive)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__parseServiceBody(p *Parser, r []Visitee, c *Comment, pos scanner.Position, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	v.Fresh(c)
	ok, end, lp, ic, l := PaServiceBody(k, p.permissive, p.bodyIncludingComments)
	paBody(p, k, ok, end, lp, pos, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, v.Same(c, ic)), v.Implies(ok && c != nil, v.Owned(c)))
}

func L_Parser__parseServiceBody___rest(p *Parser, stmts []Visitee) {
	ok, end, lp, l := PaServiceStmts(lexer.LxCur(p.lex), p.permissive, p.bodyIncludingComments, stmts)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end), lp == v.Entry(lp))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func L_Parser__parseServiceBody___comments(p *Parser, stmts []Visitee, comments []*Comment, i int) {
	v.Invariant(v.Same(stmts, v.AppendNodes(v.Entry(v.AppendNodes(stmts, comments[:0])), comments[:i+1])))
}

func C_Parser__ParseService(p *Parser, r *Service, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaService(k, p.permissive, p.bodyIncludingComments)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

// concrete
func C_Parser__peekIsGroup(p *Parser, r bool) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	paKept(p, rb, raw, cm)
	v.Ensures("", lexer.LxCur(p.lex) == k, r == PaIsGroup(k))
}

func C_Parser__ParseGroupField(p *Parser, r *GroupField, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Decreases(v.N()-k, 0)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaGroupField(k, p.permissive, p.bodyIncludingComments)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__ParseMessage(p *Parser, r *Message, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Decreases(v.N()-k, 0)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, end, lp, node := PaMessage(k, p.permissive, p.bodyIncludingComments)
	paDone(p, k, ok, end, lp, err, rb, raw, cm)
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, r.InlineComment == nil))
}

func C_Parser__parseMessageBody(p *Parser, r []Visitee, c *Comment, pos scanner.Position, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Decreases(v.N()-k, 0)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	v.Fresh(c)
	ok, end, lp, ic, l := PaMessageBody(k, p.permissive, p.bodyIncludingComments)
	paBody(p, k, ok, end, lp, pos, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(ok, v.Same(c, ic)), v.Implies(ok && c != nil, v.Owned(c)))
}

func L_Parser__parseMessageBody___rest(p *Parser, stmts []Visitee) {
	ok, end, lp, l := PaMessageStmts(lexer.LxCur(p.lex), p.permissive, p.bodyIncludingComments, stmts)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(end == v.Entry(end), lp == v.Entry(lp))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func L_Parser__parseMessageBody___comments(p *Parser, stmts []Visitee, comments []*Comment, i int) {
	v.Invariant(v.Same(stmts, v.AppendNodes(v.Entry(v.AppendNodes(stmts, comments[:0])), comments[:i+1])))
}

func C_Parser__IsEOF(p *Parser, r bool) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	paKept(p, rb, raw, cm)
	v.Ensures("", lexer.LxCur(p.lex) == k, r == (paTok(k) == scanner.TEOF))
	v.Ensures("", v.Implies(r, lexer.LxEnded(p.lex)))
	v.Ensures("pos", p.lex.Pos.Position == scanner.SpPos(k))
}

func C_Parser__parseProtoBody(p *Parser, leadingComments []*Comment, r []Visitee, err error) {
	v.Requires(PaWF(p), v.Owned(leadingComments))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	ok, l := PaFileStmts(k, leadingComments, p.permissive, p.bodyIncludingComments, nil)
	v.Modifies(lexer.LxState(p.lex), v.Elems(leadingComments))
	v.Post()
	v.Fresh(r)
	paKept(p, rb, raw, cm)
	v.Ensures("", ok == (err == nil))
	v.Ensures("", v.Implies(ok, v.Same(r, l) && v.Owned(r)))
	v.Ensures("", v.Implies(err == nil, v.Rerr() == io.EOF))
	v.Ensures("pos", v.Implies(ok, p.lex.Pos.Filename == v.Filename()))
}

func L_Parser__parseProtoBody___rest(p *Parser, leadingComments []*Comment, protoBody []Visitee) {
	ok, l := PaFileStmts(lexer.LxCur(p.lex), leadingComments, p.permissive, p.bodyIncludingComments, protoBody)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(v.Same(l, v.Entry(l)))
}

func L_Parser__parseProtoBody___comments(p *Parser, protoBody []Visitee, comments []*Comment, i int) {
	v.Invariant(v.Same(protoBody, v.AppendNodes(v.Entry(v.AppendNodes(protoBody, comments[:0])), comments[:i+1])))
}

func C_Parser__ParseProto(p *Parser, r *Proto, err error) {
	v.Requires(PaWF(p))
	k := lexer.LxCur(p.lex)
	rb, raw, cm := lexer.LxBufs(p.lex)
	v.Modifies(lexer.LxState(p.lex))
	v.Post()
	v.Fresh(r)
	ok, node := PaFile(k, p.permissive, p.bodyIncludingComments)
	paKept(p, rb, raw, cm)
	v.Ensures("", ok == (err == nil))
	v.Ensures("", ok == (r != nil), v.Implies(ok, v.Same(r, node) && v.Owned(r)))
	v.Ensures("", v.Implies(err == nil, v.Rerr() == io.EOF))
}
