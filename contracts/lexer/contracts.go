//go:build go1.21

package lexer

import (
	"io"

	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	v "github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// LxCur is the rune position of the lexer.
func LxCur(lex *Lexer) int { return scanner.SpCur(lex.scanner) }

// LxOK is the invariant of a lexer in any mode.
func LxOK(lex *Lexer) bool {
	return lex != nil && lex.scanner != nil && lex.Error != nil && scanner.SpWF(lex.scanner) && LxCur(lex) >= 0 && LxCur(lex) <= v.N()
}

// LxWF is the invariant of a lexer between the tokens.
func LxWF(lex *Lexer) bool {
	return LxOK(lex) && lex.scanner.Mode == 0
}

// LxState are the locations that the lexer changes.
func LxState(lex *Lexer) bool {
	return v.Locs(lex.Token, lex.Text, lex.Pos, lex.RawText, lex.scanErr, lex.scanner.Mode, scanner.SpScanState(lex.scanner))
}

// LxBufs are the buffers.
func LxBufs(lex *Lexer) (rb, raw []rune, cm []scanner.Text) { return scanner.SpBufs(lex.scanner) }

// LxKeep: the buffers stay in their arrays or move to new ones.
func LxKeep(lex *Lexer, rb, raw []rune, cm []scanner.Text) bool {
	return scanner.SpKeepAll(lex.scanner, rb, raw, cm)
}

// LxRaw: the token that started at k can be put back.
func LxRaw(lex *Lexer, k int) bool {
	return scanner.SpRaw(lex.scanner, k) && scanner.SpReady(lex.scanner) && scanner.SpBase(lex.scanner) == k
}

// lxRawOf: the raw text of the token is the input from k on.
//
// abstract
func lxRawOf(lex *Lexer, k int) bool { return scanner.SpRawOf(lex.scanner, lex.RawText, k) }

// lxRawOwn: the raw text is a copy.
//
// abstract
func lxRawOwn(lex *Lexer) bool { return scanner.SpRawOwn(lex.scanner, lex.RawText) }

// LxRawAt: the raw text of the token is a copy of the input from k on.
func LxRawAt(lex *Lexer, k int) bool { return lxRawOf(lex, k) && lxRawOwn(lex) }

// lxNext: the token at k was scanned.
func lxNext(lex *Lexer, k int, mode, old scanner.Mode, rb, raw []rune, cm []scanner.Text) {
	t, st, te, e, bad := scanner.SpScan(k, mode)
	v.Ensures("", v.Implies(t >= scanner.TSEMICOLON && t <= scanner.TBOM, scanner.SpLine(e) == scanner.SpLine(st)))
	v.Ensures("", LxOK(lex), LxKeep(lex, rb, raw, cm), lex.scanner.Mode == old)
	v.Ensures("", lex.Token == t)
	v.Ensures("", lex.Text == v.Str(st, te))
	v.Ensures("pos", lex.Pos.Position == scanner.SpPos(st))
	v.Ensures("", k <= st && st <= te && te <= e)
	v.Ensures("", v.Implies(bad, t == scanner.TILLEGAL && st == te && LxCur(lex) >= k))
	v.Ensures("", v.Implies(!bad, LxCur(lex) == e && (t == scanner.TEOF || st < te)))
	v.Ensures("", v.Implies(t == scanner.TEOF, st == v.N() && scanner.SpEnded(lex.scanner)))
	v.Ensures("", v.Implies(t == scanner.TSTRLIT, st+2 <= te))
	v.Ensures("", scanner.SpTokPos(lex.scanner, lex.Pos, st, te, bad))
	v.Ensures("", v.Implies(t == scanner.TCOMMENT && mode == scanner.ScanComment, v.At(te-1) != '\n'))
	v.Ensures("", LxRaw(lex, k))
	v.Ensures("", lxRawOf(lex, k), lxRawOwn(lex))
	v.Fresh(lex.RawText)
}

func C_Lexer__Next(lex *Lexer) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	v.Use(scanner.Lemma_misc(v.N()-k, m))
	lxNext(lex, k, m, m, rb, raw, cm)
}

func C_Lexer__NextKeywordOrStrLit(lex *Lexer) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxNext(lex, k, scanner.ScanKeyword|scanner.ScanStrLit, m, rb, raw, cm)
}

func C_Lexer__NextKeyword(lex *Lexer) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxNext(lex, k, scanner.ScanKeyword, m, rb, raw, cm)
	v.Use(scanner.Lemma_keyword(v.N() - k))
	t, st, te, e, bad := scanner.SpScan(k, 0)
	t2, st2, te2, e2, bad2 := scanner.SpScan(k, scanner.ScanKeyword)
	v.Ensures("", st == st2, te == te2, e == e2, bad == bad2)
	v.Ensures("", t == t2 || t == scanner.TIDENT && t2 >= scanner.TSYNTAX)
}

func C_Lexer__NextStrLit(lex *Lexer) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxNext(lex, k, scanner.ScanStrLit, m, rb, raw, cm)
}

func C_Lexer__NextLit(lex *Lexer) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxNext(lex, k, scanner.ScanLit, m, rb, raw, cm)
}

func C_Lexer__NextNumberLit(lex *Lexer) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxNext(lex, k, scanner.ScanNumberLit, m, rb, raw, cm)
}

func C_Lexer__NextComment(lex *Lexer) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxNext(lex, k, scanner.ScanComment, m, rb, raw, cm)
}

// LxBackState are the locations that putting back changes.
func LxBackState(lex *Lexer) bool {
	return v.Locs(lex.Token, lex.Pos, scanner.SpBackState(lex.scanner))
}

// lxBack: the lexer is back at k.
func lxBack(lex *Lexer, k int, rb, raw []rune, cm []scanner.Text) {
	v.Ensures("", LxOK(lex), LxKeep(lex, rb, raw, cm), LxCur(lex) == k, lex.Token == scanner.TILLEGAL)
	v.Ensures("pos", lex.Pos.Position == scanner.SpPos(k))
	v.Ensures("", scanner.SpSameMap(lex.scanner, lex.Pos))
}

func C_Lexer__UnNext(lex *Lexer) {
	v.Requires(LxOK(lex), scanner.SpReady(lex.scanner))
	k := scanner.SpBase(lex.scanner)
	rb, raw, cm := LxBufs(lex)
	ended := LxEnded(lex)
	v.Modifies(LxBackState(lex))
	v.Post()
	lxBack(lex, k, rb, raw, cm)
	v.Ensures("", v.Implies(ended, LxEnded(lex)))
}

// LxEnded: the error that ended the input is known.
func LxEnded(lex *Lexer) bool { return scanner.SpEnded(lex.scanner) }

func C_Lexer__ReadErr(lex *Lexer, err error) {
	v.Requires(LxOK(lex))
	v.Post()
	v.Ensures("", v.Implies(LxEnded(lex), (err == nil) == (v.Rerr() == io.EOF)))
}

func C_Lexer__UnNextTo(lex *Lexer, lastScan []rune) {
	v.Requires(LxOK(lex), scanner.SpRawOf(lex.scanner, lastScan, LxCur(lex)-len(lastScan)))
	k := LxCur(lex) - len(lastScan)
	rb, _, cm := LxBufs(lex)
	v.Modifies(LxBackState(lex))
	v.Post()
	lxBack(lex, k, rb, lastScan, cm)
}

// abstract
func C_Lexer__Peek(lex *Lexer, t scanner.Token) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxBack(lex, k, rb, raw, cm)
	v.Ensures("", t == LxTok(k, m), !LxBad(k, m) || t == scanner.TILLEGAL)
	v.Ensures("", lex.scanner.Mode == m)
}

// PeekN is only used for the second token, after one that is not malformed.
func C_Lexer__PeekN(lex *Lexer, n int, t scanner.Token) {
	v.Requires(LxOK(lex), n == 2)
	k := LxCur(lex)
	m := lex.scanner.Mode
	v.Requires(!LxBad(k, m))
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	lxBack(lex, k, rb, raw, cm)
	v.Ensures("", t == LxTok(LxEnd(k, m), m))
	v.Ensures("", lex.scanner.Mode == m)
}

// abstract
func C_Lexer__ConsumeToken(lex *Lexer, t scanner.Token) {
	v.Requires(LxOK(lex))
	k := LxCur(lex)
	m := lex.scanner.Mode
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	v.Ensures("", LxOK(lex), LxKeep(lex, rb, raw, cm))
	v.Ensures("", v.Implies(LxTok(k, m) == t && t != scanner.TILLEGAL, lex.Token == t && LxCur(lex) == LxEnd(k, m)))
	v.Ensures("pos", v.Implies(LxTok(k, m) == t, lex.Pos.Position == scanner.SpPos(LxStart(k, m))))
	v.Ensures("", v.Implies(LxTok(k, m) != t, lex.Token == scanner.TILLEGAL && LxCur(lex) == k))
	v.Ensures("pos", v.Implies(LxTok(k, m) != t, lex.Pos.Position == scanner.SpPos(k)))
	v.Ensures("", lex.scanner.Mode == m, LxCur(lex) >= k)
}

func C_Lexer__unexpected(lex *Lexer, found, expected string, err error) {
	v.Requires(lex != nil)
	v.Post()
	v.Ensures("", err != nil)
}

// abstract
func C_Lexer__ReadEmptyStatement(lex *Lexer, err error) {
	v.Requires(LxWF(lex))
	k := LxCur(lex)
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	ok := LxTok(k, 0) == scanner.TSEMICOLON
	v.Ensures("", LxWF(lex), LxKeep(lex, rb, raw, cm))
	v.Ensures("", ok == (err == nil))
	v.Ensures("", v.Implies(ok, LxCur(lex) == LxEnd(k, 0) && LxCur(lex) > k))
	v.Ensures("", v.Implies(ok, lex.Pos.Line == scanner.SpLine(LxStart(k, 0))))
	v.Ensures("", v.Implies(!ok, LxCur(lex) == k))
}

// lxRead: a part of the text from k was read.
func lxRead(lex *Lexer, k int, ok bool, end int, err error, rb, raw []rune, cm []scanner.Text) {
	v.Ensures("", LxWF(lex), LxKeep(lex, rb, raw, cm))
	v.Ensures("", ok == (err == nil))
	v.Ensures("", v.Implies(ok, LxCur(lex) == end && end >= k))
}

// abstract
func C_Lexer__ReadFullIdent(lex *Lexer, text string, pos scanner.Position, err error) {
	v.Requires(LxWF(lex))
	k := LxCur(lex)
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	ok, e, t := LxFullIdent(k)
	lxRead(lex, k, ok, e, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, e > k))
	v.Ensures("text", v.Implies(ok, text == t))
	v.Ensures("pos", v.Implies(ok, pos.Position == scanner.SpPos(LxStart(k, 0))))
}

// abstract
func C_Lexer__ReadMessageType(lex *Lexer, text string, pos scanner.Position, err error) {
	v.Requires(LxWF(lex))
	k := LxCur(lex)
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	ok, e, t := LxMessageType(k)
	lxRead(lex, k, ok, e, err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, text == t))
	v.Ensures("pos", v.Implies(ok, pos.Position == scanner.SpPos(LxStart(k, 0))))
}

// abstract
func C_Lexer__ReadEnumType(lex *Lexer, text string, pos scanner.Position, err error) {
	v.Requires(LxWF(lex))
	k := LxCur(lex)
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	ok, e, t := LxMessageType(k)
	lxRead(lex, k, ok, e, err, rb, raw, cm)
	v.Ensures("text", v.Implies(ok, text == t))
	v.Ensures("pos", v.Implies(ok, pos.Position == scanner.SpPos(LxStart(k, 0))))
}

// The loops of the lexer: a token was scanned at the base position.
func L_ANY___lex(lex *Lexer) {
	rb, raw, cm := LxBufs(lex)
	v.Invariant(LxKeep(lex, v.Entry(rb), v.Entry(raw), v.Entry(cm)))
	b := scanner.SpBase(lex.scanner)
	v.Invariant(LxRaw(lex, b))
	v.Invariant(b >= v.Entry(b))
	v.Invariant(b <= v.N())
	v.Invariant(lex.scanner.Mode == v.Entry(lex.scanner.Mode))
	v.Invariant(LxCur(lex) >= v.Entry(LxCur(lex)))
	v.Invariant(LxCur(lex) <= v.N())
	v.Decreases(v.N() - b)
	v.Decreases(v.N() - LxCur(lex))
}

func L_ANY___token(lex *Lexer) {
	b := scanner.SpBase(lex.scanner)
	v.Invariant(lex.Token == LxTok(b, 0))
	v.Invariant(lex.Text == LxText(b, 0))
	v.Invariant(v.Implies(LxTok(b, 0) != scanner.TILLEGAL, LxCur(lex) == LxEnd(b, 0)))
	v.Invariant(v.Implies(LxTok(b, 0) != scanner.TEOF, b < v.N()))
	v.Invariant(!LxBad(b, 0) || LxTok(b, 0) == scanner.TILLEGAL)
}

func L_ANY___lit(lex *Lexer) {
	b := scanner.SpBase(lex.scanner)
	v.Invariant(lex.Token == LxTok(b, scanner.ScanLit))
	v.Invariant(lex.Text == LxText(b, scanner.ScanLit))
	v.Invariant(v.Implies(LxTok(b, scanner.ScanLit) != scanner.TILLEGAL, LxCur(lex) == LxEnd(b, scanner.ScanLit)))
	v.Invariant(v.Implies(LxTok(b, scanner.ScanLit) != scanner.TEOF, b < v.N()))
	v.Invariant(!LxBad(b, scanner.ScanLit) || LxTok(b, scanner.ScanLit) == scanner.TILLEGAL)
	_, st, te, _, _ := scanner.SpScan(b, scanner.ScanLit)
	v.Invariant(v.Implies(LxTok(b, scanner.ScanLit) == scanner.TSTRLIT, st+2 <= te))
}

func L_Lexer__ReadFullIdent___rest(lex *Lexer, text string) {
	ok, e, t := LxIdentRest(scanner.SpBase(lex.scanner), text)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(e == v.Entry(e))
	v.Invariant(t == v.Entry(t))
}

func L_Lexer__ReadMessageType___rest(lex *Lexer, text string) {
	ok, e, t := LxTypeRest(scanner.SpBase(lex.scanner), text)
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(e == v.Entry(e))
	v.Invariant(t == v.Entry(t))
}

func L_Lexer__mergeMultilineStrLit___rest(lex *Lexer, q string, b *strings.Builder) {
	e, t := LxStrs(scanner.SpBase(lex.scanner), q, v.BuilderText(b))
	v.Invariant(e == v.Entry(e))
	v.Invariant(t == v.Entry(t))
}

func C_Lexer__mergeMultilineStrLit(lex *Lexer, text string) {
	v.Requires(LxWF(lex), scanner.SpReady(lex.scanner))
	k := scanner.SpBase(lex.scanner)
	v.Requires(LxTok(k, scanner.ScanLit) == scanner.TSTRLIT, lex.Token == scanner.TSTRLIT,
		LxCur(lex) == LxEnd(k, scanner.ScanLit), lxTextLen(k) >= 2, lex.Text == LxText(k, scanner.ScanLit))
	q := LxStrQuote(lex.Text)
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	e, t := LxStrs(k, q, q)
	v.Ensures("", LxWF(lex), LxKeep(lex, rb, raw, cm), LxCur(lex) == e, e > k)
	v.Ensures("text", text == t+q)
}

// abstract
func C_Lexer__ReadConstant(lex *Lexer, permissive bool, text string, pos scanner.Position, err error) {
	v.Requires(LxWF(lex))
	k := LxCur(lex)
	rb, raw, cm := LxBufs(lex)
	v.Modifies(LxState(lex))
	v.Post()
	ok, e, t := LxConstant(k, permissive)
	lxRead(lex, k, ok, e, err, rb, raw, cm)
	v.Ensures("", v.Implies(ok, e > k))
	v.Ensures("text", v.Implies(ok, text == t))
	v.Ensures("pos", v.Implies(ok, pos.Position == scanner.SpPos(LxConstStart(k))))
}
