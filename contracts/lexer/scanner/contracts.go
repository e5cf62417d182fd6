//go:build go1.21

package scanner

import (
	"io"

	v "github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// SpCur is the rune position of the scanner: what was read minus what was put back.
//
// abstract
func SpCur(s *Scanner) int { return v.Ghost(s.r, "rpos") - len(s.lastReadBuffer) }

// SpWF is the invariant of a scanner.
//
// abstract
func SpWF(s *Scanner) bool {
	return s != nil && s.r != nil && s.pos != nil && s.pos.columns != nil &&
		SpCur(s) >= 0 && v.Ghost(s.r, "rpos") <= v.N() &&
		v.Same(s.lastReadBuffer, v.Rev(SpCur(s), v.Ghost(s.r, "rpos"))) &&
		s.pos.Position == SpPos(SpCur(s)) &&
		spCols(v.MapContent(s.pos.columns), v.Ghost(s.r, "rpos")) &&
		v.DistinctArrays(s.lastReadBuffer, s.lastScanRaw) &&
		(s.readErr == nil || s.readErr == v.Rerr()) && (v.Rerr() != io.EOF || s.readErr == nil)
}

// SpEnded: the error that ended the input is known.
//
// abstract
func SpEnded(s *Scanner) bool { return v.Rerr() == io.EOF || s.readErr == v.Rerr() }

// SpRaw: the raw text of the scan is the input from position a to the current one.
//
// abstract
func SpRaw(s *Scanner, a int) bool {
	return a >= 0 && a <= SpCur(s) && len(s.lastScanRaw) == SpCur(s)-a && v.Same(s.lastScanRaw, v.Fwd(a, SpCur(s)))
}

// SpState are the locations that reading changes.
func SpState(s *Scanner) bool {
	return v.Locs(s.lastReadBuffer, v.Elems(s.lastReadBuffer), s.lastScanRaw, v.Elems(s.lastScanRaw), v.Ghost(s.r, "rpos"),
		s.pos.Offset, s.pos.Line, s.pos.Column, v.MapOf(s.pos.columns), s.readErr)
}

// SpBackState are the locations that putting back changes.
//
// abstract: state
func SpBackState(s *Scanner) bool {
	return v.Locs(s.lastReadBuffer, v.Elems(s.lastReadBuffer), s.lastScanRaw, s.pos.Offset, s.pos.Line, s.pos.Column)
}

// SpKeep: the buffers stay in their arrays or move to new ones.
func SpKeep(s *Scanner, rb, raw []rune) bool {
	return v.ArrKept(s.lastReadBuffer, rb) && v.ArrKept(s.lastScanRaw, raw)
}

// SpBufs are the buffers.
//
// abstract
func SpBufs(s *Scanner) (rb, raw []rune, cm []Text) {
	return s.lastReadBuffer, s.lastScanRaw, s.comments
}

// SpKeepAll: the buffers stay in their arrays or move to new ones.
//
// abstract: true
func SpKeepAll(s *Scanner, rb, raw []rune, cm []Text) bool {
	return v.ArrKept(s.lastReadBuffer, rb) && v.ArrKept(s.lastScanRaw, raw) && v.ArrKept(s.comments, cm)
}

// SpRawOf: the raw text is the input from position a to the current one.
//
// abstract
func SpRawOf(s *Scanner, raw []rune, a int) bool {
	return a >= 0 && a <= SpCur(s) && len(raw) == SpCur(s)-a && v.Same(raw, v.Fwd(a, SpCur(s))) && v.DistinctArrays(raw, s.lastReadBuffer)
}

// SpRawOwn: the raw text is a copy of the last one.
//
// abstract
func SpRawOwn(s *Scanner, raw []rune) bool { return v.DistinctArrays(raw, s.lastScanRaw) }

func C_Scanner__read(s *Scanner, r rune) {
	v.Requires(SpWF(s))
	k := SpCur(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	m := v.MapContent(s.pos.columns)
	raw0 := v.Seq(s.lastScanRaw)
	rp := v.Ghost(s.r, "rpos")
	v.Modifies(SpState(s))
	v.Post()
	v.Use(Lemma_colsPut(m, k, rp), Lemma_cols(m, k, rp))
	v.Ensures("", r == v.At(k))
	v.Ensures("", v.Implies(r != -1, k < v.N() && SpCur(s) == k+1))
	v.Ensures("", v.Implies(r == -1, k == v.N() && SpCur(s) == k && SpEnded(s)))
	v.Ensures("", SpWF(s))
	v.Ensures("", v.Implies(r != -1, len(s.lastScanRaw) == len(raw)+1 && v.Same(v.Seq(s.lastScanRaw), append(raw0, r))))
	v.Ensures("", v.Implies(r == -1, len(s.lastScanRaw) == len(raw) && v.Same(v.Seq(s.lastScanRaw), raw0)))
	v.Ensures("", SpKeep(s, rb, raw))
}

func C_Scanner__unread(s *Scanner, ch rune) {
	v.Requires(SpWF(s), SpCur(s) > 0, ch == v.At(SpCur(s)-1))
	k := SpCur(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	m := v.MapContent(s.pos.columns)
	raw0 := v.Seq(s.lastScanRaw)
	rp := v.Ghost(s.r, "rpos")
	v.Modifies(s.lastReadBuffer, v.Elems(s.lastReadBuffer), s.pos.Offset, s.pos.Line, s.pos.Column)
	v.Post()
	v.Use(Lemma_cols(m, k-1, rp))
	v.Ensures("", SpCur(s) == k-1)
	v.Ensures("", SpWF(s))
	v.Ensures("", v.Same(v.Seq(s.lastScanRaw), raw0))
	v.Ensures("", SpKeep(s, rb, raw))
}

func C_Scanner__peek(s *Scanner, r rune) {
	v.Requires(SpWF(s))
	k := SpCur(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	raw0 := v.Seq(s.lastScanRaw)
	v.Modifies(SpState(s))
	v.Post()
	v.Ensures("", r == v.At(k))
	v.Ensures("", v.Implies(r == -1, k == v.N() && SpEnded(s)))
	v.Ensures("", v.Implies(r != -1, k < v.N()))
	v.Ensures("", SpCur(s) == k)
	v.Ensures("", SpWF(s))
	v.Ensures("", len(s.lastScanRaw) == len(raw))
	v.Ensures("", v.Same(v.Seq(s.lastScanRaw), raw0))
	v.Ensures("", SpKeep(s, rb, raw))
}

// spScanned: a helper scanned from position k to e.
func spScanned(s *Scanner, a, e int) bool { return SpWF(s) && SpRaw(s, a) && SpCur(s) == e }

// spFailed: a helper stopped somewhere.
func spFailed(s *Scanner, a, k int) bool { return SpWF(s) && SpRaw(s, a) && SpCur(s) >= k }

// SpBase is where the raw text starts.
//
// abstract
func SpBase(s *Scanner) int { return SpCur(s) - len(s.lastScanRaw) }

// SpReady: the scanner is inside of a scan that started at a.
//
// abstract
func SpReady(s *Scanner) bool { return SpWF(s) && SpRaw(s, SpBase(s)) }

// The loops of the scanner.
func L_ANY___text(s *Scanner, lit string) {
	v.Invariant(lit == v.Entry(lit)+v.Str(v.Entry(SpCur(s)), SpCur(s)))
}

func L_ANY___textBehind(s *Scanner, lit string, ch rune) {
	v.Invariant(lit+string(ch) == v.Entry(lit+string(ch))+v.Str(v.Entry(SpCur(s)), SpCur(s)))
	v.Invariant(ch == v.At(SpCur(s)-1))
}

func L_ANY___char(s *Scanner, ch rune) {
	v.Invariant(ch == v.At(SpCur(s)))
}

func L_ANY___ends(s *Scanner) {
	v.Invariant(v.ArrKept(s.lastReadBuffer, v.Entry(s.lastReadBuffer)), v.ArrKept(s.lastScanRaw, v.Entry(s.lastScanRaw)))
	a := SpBase(s)
	k := SpCur(s)
	v.Invariant(SpRaw(s, v.Entry(a)))
	v.Invariant(k >= v.Entry(k))
	v.Invariant(k <= v.N())
	v.Decreases(v.N() - k)
}

func L_Scanner__scanIdent___end(s *Scanner) {
	k := SpCur(s)
	v.Invariant(spIdentEnd(k) == v.Entry(spIdentEnd(k)))
}

func L_Scanner__scanDecimals___end(s *Scanner) {
	k := SpCur(s)
	v.Invariant(spDecEnd(k) == v.Entry(spDecEnd(k)))
}

func L_Scanner__scanNumberLit___end(s *Scanner) {
	k := SpCur(s)
	v.Invariant(spDecEnd(k) == v.Entry(spDecEnd(k)))
	v.Invariant(spOctEnd(k) == v.Entry(spOctEnd(k)))
	v.Invariant(spHexEnd(k) == v.Entry(spHexEnd(k)))
}

func L_Scanner__scanComment___line(s *Scanner) {
	k := SpCur(s)
	v.Invariant(spLineCommentEnd(k-1) == v.Entry(spLineCommentEnd(k-1)))
	v.Invariant(spLineCommentEnd(k) == v.Entry(spLineCommentEnd(k)))
}

func L_Scanner__scanComment___blockEnd(s *Scanner) {
	ok, e := spBlockCommentEnd(SpCur(s))
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(e == v.Entry(e))
}

func L_Scanner__scanStrLit___strEnd(s *Scanner) {
	ok, e := spStrEnd(SpCur(s), v.Entry(v.At(SpCur(s)-1)))
	v.Invariant(ok == v.Entry(ok))
	v.Invariant(e == v.Entry(e))
}

func L_Scanner__scan___scan(s *Scanner) {
	v.Invariant(v.ArrKept(s.comments, v.Entry(s.comments)))
	tok, start, te, e, bad := SpScan(SpCur(s), s.Mode)
	v.Invariant(tok == v.Entry(tok))
	v.Invariant(start == v.Entry(start))
	v.Invariant(te == v.Entry(te))
	v.Invariant(e == v.Entry(e))
	v.Invariant(bad == v.Entry(bad))
}

func L_Scanner__UnScan___i(s *Scanner, i int) {
	raw := v.Seq(s.lastScanRaw)
	v.Invariant(SpCur(s) == v.Entry(SpCur(s)-i)+i)
	v.Invariant(len(s.lastScanRaw) == v.Entry(len(s.lastScanRaw)))
	v.Invariant(v.Same(raw, v.Entry(raw)))
}

func C_Scanner__unexpected(s *Scanner, found rune, expected string, err error) {
	v.Requires(s != nil && s.pos != nil)
	v.Post()
	v.Ensures("", err != nil)
}

func C_asKeywordToken(st string, t Token) {
	v.Post()
	v.Ensures("", t == spKeyword(st))
}

func C_asMiscToken(ch rune, t Token) {
	v.Post()
	v.Ensures("", t == spMisc(ch))
}

func C_Scanner__scanIdent(s *Scanner, ident string) {
	v.Requires(SpReady(s), spIdentChar(v.At(SpCur(s))))
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	e := spIdentEnd(k + 1)
	v.Ensures("", spScanned(s, a, e), SpKeep(s, rb, raw), e > k, ident == v.Str(k, e))
}

func C_Scanner__scanComment(s *Scanner, lit string, err error) {
	v.Requires(SpReady(s), v.At(SpCur(s)) == '/')
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, te, e := spComment(k)
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && te > k && e >= te && lit == v.Str(k, te)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

func C_Scanner__tryScanEscape(s *Scanner, lit string) {
	v.Requires(SpReady(s), v.At(SpCur(s)) == '\\')
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	e := spEscape(k)
	v.Ensures("", spScanned(s, a, e), SpKeep(s, rb, raw), e > k, lit == v.Str(k, e))
}

func C_Scanner__scanCharValue(s *Scanner, lit string, err error) {
	v.Requires(SpReady(s))
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, e := spCharValue(k)
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && e > k && lit == v.Str(k, e)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

func C_Scanner__scanStrLit(s *Scanner, lit string, err error) {
	v.Requires(SpReady(s), spQuote(v.At(SpCur(s))))
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, e := spStrEnd(k+1, v.At(k))
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && e > k+1 && lit == v.Str(k, e)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

func C_Scanner__scanDecimals(s *Scanner, lit string, err error) {
	v.Requires(SpReady(s))
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, e := spDecimals(k)
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && e > k && lit == v.Str(k, e)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

func C_Scanner__scanExponent(s *Scanner, lit string, err error) {
	v.Requires(SpReady(s))
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, e := spExponent(k)
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && e > k && lit == v.Str(k, e)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

func C_Scanner__scanFractionPart(s *Scanner, lit string, err error) {
	v.Requires(SpReady(s))
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, e := spFraction(k)
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && e >= k && lit == v.Str(k, e)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

func C_Scanner__scanFractionPartNoOmit(s *Scanner, lit string, err error) {
	v.Requires(SpReady(s))
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, e := spFractionNoOmit(k)
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && e > k && lit == v.Str(k, e)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

func C_Scanner__scanNumberLit(s *Scanner, tok Token, lit string, err error) {
	v.Requires(SpReady(s), spDigit(v.At(SpCur(s))) || v.At(SpCur(s)) == '.')
	k, a := SpCur(s), SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	v.Modifies(SpState(s))
	v.Post()
	ok, t, e := spNumber(k)
	v.Ensures("", ok == (err == nil), SpKeep(s, rb, raw))
	v.Ensures("", v.Implies(ok, spScanned(s, a, e) && e > k && tok == t && lit == v.Str(k, e)))
	v.Ensures("", v.Implies(!ok, spFailed(s, a, k)))
}

// SpScanState are the locations that a scan changes.
//
// abstract: state
func SpScanState(s *Scanner) bool {
	return v.Locs(SpState(s), s.comments, v.Elems(s.comments))
}

func spScanPost(s *Scanner, k int, tok Token, text string, pos Position, err error, rb, raw []rune, cm []Text) {
	t, st, te, e, bad := SpScan(k, s.Mode)
	v.Ensures("", bad == (err == nil == false))
	v.Ensures("", tok == t)
	v.Ensures("", v.Implies(bad, t == TILLEGAL && st == te && spFailed(s, k, k)))
	v.Ensures("", v.Implies(!bad, spScanned(s, k, e) && (t == TEOF || st < te)))
	v.Ensures("", k <= st && st <= te && te <= e && te <= v.N())
	v.Ensures("", v.Implies(t == TSTRLIT, st+2 <= te))
	v.Ensures("", v.Implies(t == TEOF, st == v.N() && SpEnded(s)))
	v.Ensures("", text == v.Str(st, te))
	v.Ensures("pos", pos.Position == SpPos(st))
	v.Ensures("", SpSameMap(s, pos))
	v.Ensures("", SpKeepAll(s, rb, raw, cm))
}

func C_Scanner__scan(s *Scanner, tok Token, text string, pos Position, err error) {
	v.Requires(SpWF(s), len(s.lastScanRaw) == 0)
	k := SpCur(s)
	rb, raw, cm := SpBufs(s)
	v.Modifies(SpScanState(s))
	v.Post()
	spScanPost(s, k, tok, text, pos, err, rb, raw, cm)
}

func C_Scanner__Scan(s *Scanner, tok Token, text string, pos Position, err error) {
	v.Requires(SpWF(s))
	k := SpCur(s)
	rb, raw, cm := SpBufs(s)
	v.Modifies(SpScanState(s))
	v.Post()
	spScanPost(s, k, tok, text, pos, err, rb, raw, cm)
	_, st, te, _, bad := SpScan(k, s.Mode)
	v.Use(Lemma_idx(st), Lemma_colsMono(v.MapContent(s.pos.columns), te, v.Ghost(s.r, "rpos")), Lemma_comment(v.N()-k))
	v.Ensures("", SpTokPos(s, pos, st, te, bad))
	v.Ensures("", v.Implies(tok == TCOMMENT && s.Mode == ScanComment, v.At(te-1) != '\n'))
}

func C_Scanner__UnScan(s *Scanner, pos Position) {
	v.Requires(SpReady(s))
	k := SpBase(s)
	rb, raw := s.lastReadBuffer, s.lastScanRaw
	raw0 := v.Seq(s.lastScanRaw)
	v.Modifies(s.lastReadBuffer, v.Elems(s.lastReadBuffer), s.pos.Offset, s.pos.Line, s.pos.Column)
	v.Post()
	v.Ensures("", SpWF(s), SpCur(s) == k, SpKeep(s, rb, raw), v.Same(v.Seq(s.lastScanRaw), raw0))
	v.Ensures("pos", pos.Position == SpPos(k))
	v.Ensures("", SpSameMap(s, pos))
}

func C_Scanner__LastScanRaw(s *Scanner, r []rune) {
	v.Requires(s != nil)
	v.Post()
	v.Ensures("", v.Same(r, s.lastScanRaw), len(r) == len(s.lastScanRaw))
	v.Fresh(r)
}

// SpSameMap: the position knows the columns of the scanner.
//
// abstract
func SpSameMap(s *Scanner, pos Position) bool { return v.Same(pos.columns, s.pos.columns) }

// SpTokPos: the position knows the columns up to the end of its token.
func SpTokPos(s *Scanner, pos Position, st, te int, bad bool) bool {
	return SpSameMap(s, pos) && SpIdx(SpOff(st)) == st && (bad || SpCols(pos, te))
}

// SpCols: the columns are recorded up to a position.
//
// abstract
func SpCols(pos Position, k int) bool {
	return pos.columns != nil && spCols(v.MapContent(pos.columns), k)
}

// SpColsOf are the columns of a position.
//
// abstract
func SpColsOf(pos Position) v.IntMap { return v.MapContent(pos.columns) }

// SpColsKept: the columns are what they were.
//
// abstract: true
func SpColsKept(pos Position, m v.IntMap) bool { return v.Same(v.MapContent(pos.columns), m) }

// SpColsState is the location of the columns.
//
// abstract: none
func SpColsState(pos Position) bool { return v.Locs(v.MapOf(pos.columns)) }

func C_Position__AdvancedBulk(pos Position, s string, r Position) {
	k := SpIdx(pos.Offset)
	n := v.RLen(s)
	v.Requires(k >= 0, n > 0, k+n <= v.N(), s == v.Str(k, k+n), v.At(k+n-1) != '\n')
	v.Requires(SpCols(pos, k+n))
	v.Requires(pos.Position == SpPos(k))
	m := SpColsOf(pos)
	v.Modifies(SpColsState(pos))
	v.Post()
	v.Ensures("", SpColsKept(pos, m))
	v.Ensures("pos", r.Position == SpPos(k+n-1))
}

// The loop over the text.
func L_Position__AdvancedBulk___x(pos *Position, s string, i int) {
	v.Invariant(i <= v.RLen(s))
	k := SpIdx(v.Entry(pos.Offset))
	m := v.MapContent(pos.columns)
	m0 := v.Entry(m)
	v.Use(Lemma_cols(m0, k+i, k+v.RLen(s)), Lemma_cols(m0, k+i-1, k+v.RLen(s)), Lemma_col(k+i), Lemma_col(k+i-1))
	v.Invariant(pos.Position == SpPos(k+i))
	v.Invariant(v.Same(m, v.Entry(m)))
}
