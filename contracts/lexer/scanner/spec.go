//go:build go1.21

package scanner

import (
	"unicode"
	"unicode/utf8"

	v "github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// ---- positions

// SpOff is the byte offset of a rune position.
//
// opaque
func SpOff(k int) int {
	if k <= 0 {
		return 0
	}
	return SpOff(k-1) + utf8.RuneLen(v.At(k-1))
}

// SpLine is the line of a rune position.
//
// opaque
func SpLine(k int) int {
	if k <= 0 {
		return 1
	}
	if v.At(k-1) == '\n' {
		return SpLine(k-1) + 1
	}
	return SpLine(k - 1)
}

// SpCol is the column of a rune position.
//
// opaque
func SpCol(k int) int {
	if k <= 0 {
		return 1
	}
	if v.At(k-1) == '\n' {
		return 1
	}
	return SpCol(k-1) + 1
}

// SpPos is the source position of a rune position.
func SpPos(k int) v.Position {
	return v.Position{Filename: v.Filename(), Offset: SpOff(k), Line: SpLine(k), Column: SpCol(k)}
}

// spCols: the columns of all the line ends before k are recorded.
//
// opaque
func spCols(m v.IntMap, k int) bool {
	if k <= 0 {
		return true
	}
	if !spCols(m, k-1) {
		return false
	}
	return v.At(k-1) != '\n' || v.MapGet(m, SpLine(k-1)) == SpCol(k-1)
}

// Lemma_line: lines do not decrease, and grow after a line end.
//
// induction: k
func Lemma_line(j, k int) bool {
	if j < 0 || k <= j {
		return true
	}
	if v.At(j) == '\n' {
		return SpLine(j)+1 <= SpLine(k)
	}
	return SpLine(j) <= SpLine(k)
}

// Lemma_cols: the recorded column of a line end.
//
// induction: k
func Lemma_cols(m v.IntMap, j, k int) bool {
	return !(0 <= j && j < k && spCols(m, k) && v.At(j) == '\n') || v.MapGet(m, SpLine(j)) == SpCol(j)
}

// Lemma_colsPut: recording a right column again is harmless.
//
// induction: k
func Lemma_colsPut(m v.IntMap, j, k int) bool {
	v.Use(Lemma_line(j, k-1), Lemma_line(k-1, j))
	return !(0 <= j && spCols(m, k) && v.At(j) == '\n') || spCols(v.MapPut(m, SpLine(j), SpCol(j)), k)
}

// Lemma_colsMono: the columns before an earlier position are recorded too.
//
// induction: k
func Lemma_colsMono(m v.IntMap, j, k int) bool {
	return !(j <= k && spCols(m, k)) || spCols(m, j)
}

// Lemma_col: columns are positive.
//
// induction: k
func Lemma_col(k int) bool { return SpCol(k) >= 1 }

// spIdxFrom is the first position from j on with at least the offset.
//
// opaque
func spIdxFrom(j, off int) int {
	if j >= v.N() || SpOff(j) >= off {
		return j
	}
	return spIdxFrom(j+1, off)
}

// SpIdx is the rune position with the offset.
func SpIdx(off int) int { return spIdxFrom(0, off) }

// Lemma_off: offsets grow.
//
// induction: k
func Lemma_off(j, k int) bool {
	return !(0 <= j && j < k && k <= v.N()) || SpOff(j) < SpOff(k)
}

// Lemma_idxFrom: the position is found.
//
// induction: n
func Lemma_idxFrom(n, k int) bool {
	v.Use(Lemma_off(k-n, k))
	return !(0 <= n && n <= k && k <= v.N()) || spIdxFrom(k-n, SpOff(k)) == k
}

// Lemma_idx: the position is found.
func Lemma_idx(k int) bool {
	v.Use(Lemma_idxFrom(k, k))
	return !(0 <= k && k <= v.N()) || SpIdx(SpOff(k)) == k
}

// ---- characters

func spLetter(r rune) bool {
	return 'A' <= r && r <= 'Z' || 'a' <= r && r <= 'z'
}

func spDigit(r rune) bool { return '0' <= r && r <= '9' }
func spOct(r rune) bool   { return '0' <= r && r <= '7' }
func spHex(r rune) bool {
	return '0' <= r && r <= '9' || 'A' <= r && r <= 'F' || 'a' <= r && r <= 'f'
}
func spIdentChar(r rune) bool { return spLetter(r) || spDigit(r) || r == '_' }
func spQuote(r rune) bool     { return r == '"' || r == '\'' }

// ---- token ends

// spIdentEnd is the end of the run of identifier characters from k.
//
// opaque
func spIdentEnd(k int) int {
	if spIdentChar(v.At(k)) {
		return spIdentEnd(k + 1)
	}
	return k
}

// opaque
func spDecEnd(k int) int {
	if spDigit(v.At(k)) {
		return spDecEnd(k + 1)
	}
	return k
}

// opaque
func spOctEnd(k int) int {
	if spOct(v.At(k)) {
		return spOctEnd(k + 1)
	}
	return k
}

// opaque
func spHexEnd(k int) int {
	if spHex(v.At(k)) {
		return spHexEnd(k + 1)
	}
	return k
}

// spDecimals: decimals at k.
func spDecimals(k int) (ok bool, end int) {
	if !spDigit(v.At(k)) {
		return false, k
	}
	return true, spDecEnd(k + 1)
}

// spExponent: exponent = ( "e" | "E" ) [ "+" | "-" ] decimals
//
// opaque
func spExponent(k int) (ok bool, end int) {
	if v.At(k) != 'e' && v.At(k) != 'E' {
		return false, k
	}
	if v.At(k+1) == '+' || v.At(k+1) == '-' {
		return spDecimals(k + 2)
	}
	return spDecimals(k + 1)
}

// spOptExponent: [ exponent ]
func spOptExponent(k int) (ok bool, end int) {
	if v.At(k) == 'e' || v.At(k) == 'E' {
		return spExponent(k)
	}
	return true, k
}

// spFraction: [ decimals ] [ exponent ]
//
// opaque
func spFraction(k int) (ok bool, end int) {
	if spDigit(v.At(k)) {
		return spOptExponent(spDecEnd(k + 1))
	}
	return spOptExponent(k)
}

// spFractionNoOmit: decimals [ exponent ]
//
// opaque
func spFractionNoOmit(k int) (ok bool, end int) {
	if !spDigit(v.At(k)) {
		return false, k
	}
	return spOptExponent(spDecEnd(k + 1))
}

// spNumber: intLit | floatLit, at a digit or a dot.
//
// opaque
func spNumber(k int) (ok bool, tok Token, end int) {
	c, d := v.At(k), v.At(k+1)
	if c == '0' && (d == 'x' || d == 'X') {
		if !spHex(v.At(k + 2)) {
			return false, TILLEGAL, k
		}
		return true, TINTLIT, spHexEnd(k + 3)
	}
	if c == '.' {
		fok, e := spFractionNoOmit(k + 1)
		if !fok {
			return false, TILLEGAL, k
		}
		return true, TFLOATLIT, e
	}
	if d == '.' {
		fok, e := spFraction(k + 2)
		if !fok {
			return false, TILLEGAL, k
		}
		return true, TFLOATLIT, e
	}
	if d == 'e' || d == 'E' {
		fok, e := spExponent(k + 1)
		if !fok {
			return false, TILLEGAL, k
		}
		return true, TFLOATLIT, e
	}
	if c == '0' {
		return true, TINTLIT, spOctEnd(k + 1)
	}
	m := spDecEnd(k + 1)
	if v.At(m) == '.' {
		fok, e := spFraction(m + 1)
		if !fok {
			return false, TILLEGAL, k
		}
		return true, TFLOATLIT, e
	}
	if v.At(m) == 'e' || v.At(m) == 'E' {
		fok, e := spExponent(m)
		if !fok {
			return false, TILLEGAL, k
		}
		return true, TFLOATLIT, e
	}
	return true, TINTLIT, m
}

// spLineCommentEnd is the position of the line end, or of the end of the input.
//
// opaque
func spLineCommentEnd(k int) int {
	if v.At(k) == -1 || v.At(k) == '\n' {
		return k
	}
	return spLineCommentEnd(k + 1)
}

// spBlockCommentEnd is the position after the next "*/" from k.
//
// opaque
func spBlockCommentEnd(k int) (ok bool, end int) {
	if v.At(k) == -1 {
		return false, k
	}
	if v.At(k) == '*' && v.At(k+1) == '/' {
		return true, k + 2
	}
	return spBlockCommentEnd(k + 1)
}

// spComment: a comment at the slash at k. The line end after a line comment is read, but not part of the text.
//
// opaque
func spComment(k int) (ok bool, textEnd, end int) {
	if v.At(k+1) == '/' {
		e := spLineCommentEnd(k + 2)
		if v.At(e) == -1 {
			return true, e, e
		}
		return true, e, e + 1
	}
	if v.At(k+1) == '*' {
		bok, e := spBlockCommentEnd(k + 2)
		return bok, e, e
	}
	return false, k, k
}

// spEscape: the end of the escape at the backslash at k.
//
// opaque
func spEscape(k int) int {
	c := v.At(k + 1)
	if c == 'x' || c == 'X' {
		if !spHex(v.At(k + 2)) {
			return k + 2
		}
		if !spHex(v.At(k + 3)) {
			return k + 3
		}
		return k + 4
	}
	if spOct(c) {
		if !spOct(v.At(k + 2)) {
			return k + 2
		}
		if !spOct(v.At(k + 3)) {
			return k + 3
		}
		return k + 4
	}
	if c == 'a' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't' || c == 'v' || c == '\\' || c == '\'' || c == '"' {
		return k + 2
	}
	return k + 1
}

// spCharValue: the end of the character of a string literal at k.
//
// opaque
func spCharValue(k int) (ok bool, end int) {
	c := v.At(k)
	if c == -1 || c == 0 || c == '\n' {
		return false, k
	}
	if c == '\\' {
		return true, spEscape(k)
	}
	return true, k + 1
}

// spStrEnd: the end of a string literal, after its closing quote, from the inner position k.
//
// opaque
func spStrEnd(k int, quote rune) (ok bool, end int) {
	if v.At(k) == quote {
		return true, k + 1
	}
	cok, e := spCharValue(k)
	if !cok {
		return false, e
	}
	return spStrEnd(e, quote)
}

// spKeyword is the keyword token of an identifier.
//
// opaque
func spKeyword(t string) Token {
	switch t {
	case "syntax":
		return TSYNTAX
	case "edition":
		return TEDITION
	case "service":
		return TSERVICE
	case "rpc":
		return TRPC
	case "returns":
		return TRETURNS
	case "message":
		return TMESSAGE
	case "extend":
		return TEXTEND
	case "import":
		return TIMPORT
	case "package":
		return TPACKAGE
	case "option":
		return TOPTION
	case "repeated":
		return TREPEATED
	case "required":
		return TREQUIRED
	case "optional":
		return TOPTIONAL
	case "weak":
		return TWEAK
	case "public":
		return TPUBLIC
	case "oneof":
		return TONEOF
	case "map":
		return TMAP
	case "reserved":
		return TRESERVED
	case "extensions":
		return TEXTENSIONS
	case "number":
		return TNUMBER
	case "full_name":
		return TFULLNAME
	case "type":
		return TTYPE
	case "declaration":
		return TDECLARATION
	case "enum":
		return TENUM
	case "stream":
		return TSTREAM
	case "group":
		return TGROUP
	}
	return TILLEGAL
}

// spMisc is the token of a single character.
//
// opaque
func spMisc(r rune) Token {
	switch r {
	case ';':
		return TSEMICOLON
	case ':':
		return TCOLON
	case '=':
		return TEQUALS
	case '"', '\'':
		return TQUOTE
	case '(':
		return TLEFTPAREN
	case ')':
		return TRIGHTPAREN
	case '{':
		return TLEFTCURLY
	case '}':
		return TRIGHTCURLY
	case '[':
		return TLEFTSQUARE
	case ']':
		return TRIGHTSQUARE
	case '<':
		return TLESS
	case '>':
		return TGREATER
	case ',':
		return TCOMMA
	case '.':
		return TDOT
	case '-':
		return TMINUS
	case '\uFEFF':
		return TBOM
	}
	return TILLEGAL
}

func spIdentToken(t string, mode Mode) Token {
	if mode&ScanBoolLit != 0 && (t == "true" || t == "false") {
		return TBOOLLIT
	}
	if mode&ScanNumberLit != 0 && (t == "inf" || t == "nan") {
		return TFLOATLIT
	}
	if mode&ScanKeyword != 0 && spKeyword(t) != TILLEGAL {
		return spKeyword(t)
	}
	return TIDENT
}

// SpScan is the next token from position k: the token, the positions of its text, the position after it,
// and whether it is malformed.
//
// opaque
func SpScan(k int, mode Mode) (tok Token, start, textEnd, end int, bad bool) {
	c := v.At(k)
	if unicode.IsSpace(c) {
		return SpScan(k+1, mode)
	}
	if c == -1 {
		return TEOF, k, k, k, false
	}
	if spLetter(c) || c == '_' {
		e := spIdentEnd(k + 1)
		return spIdentToken(v.Str(k, e), mode), k, e, e, false
	}
	if c == '/' {
		ok, te, e := spComment(k)
		if !ok {
			return TILLEGAL, k, k, k, true
		}
		if mode&ScanComment != 0 {
			return TCOMMENT, k, te, e, false
		}
		return SpScan(e, mode)
	}
	if spQuote(c) && mode&ScanStrLit != 0 {
		ok, e := spStrEnd(k+1, c)
		if !ok {
			return TILLEGAL, k, k, k, true
		}
		return TSTRLIT, k, e, e, false
	}
	if (spDigit(c) || c == '.') && mode&ScanNumberLit != 0 {
		ok, t, e := spNumber(k)
		if !ok {
			return TILLEGAL, k, k, k, true
		}
		return t, k, e, e, false
	}
	return spMisc(c), k, k + 1, k + 1, false
}

// Lemma_lineComment: a line comment does not end with a line end.
//
// induction: n
func Lemma_lineComment(n int) bool {
	k := v.N() - n
	e := spLineCommentEnd(k)
	return !(0 <= n && 0 <= k) || e >= k && (e == k || v.At(e-1) != '\n')
}

// Lemma_blockComment: a block comment ends with a slash.
//
// induction: n
func Lemma_blockComment(n int) bool {
	k := v.N() - n
	ok, e := spBlockCommentEnd(k)
	return !(0 <= n && 0 <= k && ok) || e >= k+2 && v.At(e-1) == '/'
}

// Lemma_comment: a comment does not end with a line end.
//
// induction: n
func Lemma_comment(n int) bool {
	k := v.N() - n
	v.Use(Lemma_lineComment(n-2), Lemma_blockComment(n-2))
	t, st, te, _, bad := SpScan(k, ScanComment)
	return !(0 <= n && 0 <= k && t == TCOMMENT && !bad) || st+2 <= te && v.At(te-1) != '\n'
}

// Lemma_keyword: asking for keywords changes nothing but the kind of some identifiers.
//
// induction: n
func Lemma_keyword(n int) bool {
	k := v.N() - n
	_, _, ce := spComment(k)
	v.Use(Lemma_blockComment(n-2), Lemma_lineComment(n-2), Lemma_keyword(v.N()-ce))
	t, st, te, e, bad := SpScan(k, 0)
	t2, st2, te2, e2, bad2 := SpScan(k, ScanKeyword)
	return !(0 <= n && 0 <= k) || st == st2 && te == te2 && e == e2 && bad == bad2 && (t == t2 || t == TIDENT && t2 >= TSYNTAX)
}

// Lemma_misc: a punctuation mark is one character that ends no line.
//
// induction: n
func Lemma_misc(n int, mode Mode) bool {
	k := v.N() - n
	_, _, ce := spComment(k)
	v.Use(Lemma_blockComment(n-2), Lemma_lineComment(n-2), Lemma_misc(v.N()-ce, mode))
	t, st, te, e, bad := SpScan(k, mode)
	return !(0 <= n && 0 <= k && t >= TSEMICOLON && t <= TBOM) || !bad && te == st+1 && e == st+1 && SpLine(e) == SpLine(st)
}
