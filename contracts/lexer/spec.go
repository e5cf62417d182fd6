//go:build go1.21

package lexer

import (
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	v "github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// LxTok is the token at a position.
func LxTok(k int, mode scanner.Mode) scanner.Token {
	t, _, _, _, _ := scanner.SpScan(k, mode)
	return t
}

// LxText is the text of the token at a position.
func LxText(k int, mode scanner.Mode) string {
	_, st, te, _, _ := scanner.SpScan(k, mode)
	return v.Str(st, te)
}

// LxStart is the position of the text of the token at a position.
func LxStart(k int, mode scanner.Mode) int {
	_, st, _, _, _ := scanner.SpScan(k, mode)
	return st
}

// LxEnd is the position after the token at a position.
func LxEnd(k int, mode scanner.Mode) int {
	_, _, _, e, _ := scanner.SpScan(k, mode)
	return e
}

// LxBad: the token is malformed.
func LxBad(k int, mode scanner.Mode) bool {
	_, _, _, _, bad := scanner.SpScan(k, mode)
	return bad
}

// LxIdentRest is the end and the text of { "." ident } at k.
//
// opaque
func LxIdentRest(k int, acc string) (ok bool, end int, text string) {
	if LxTok(k, 0) == scanner.TEOF {
		return true, LxEnd(k, 0), acc
	}
	if LxTok(k, 0) != scanner.TDOT {
		return true, k, acc
	}
	d := LxEnd(k, 0)
	if LxTok(d, 0) != scanner.TIDENT {
		return false, d, ""
	}
	return LxIdentRest(LxEnd(d, 0), acc+"."+LxText(d, 0))
}

// LxFullIdent: fullIdent = ident { "." ident }
//
// opaque
func LxFullIdent(k int) (ok bool, end int, text string) {
	if LxTok(k, 0) != scanner.TIDENT {
		return false, k, ""
	}
	return LxIdentRest(LxEnd(k, 0), LxText(k, 0))
}

// LxTypeRest is ident { "." ident } at k, after the text before it.
//
// opaque
func LxTypeRest(k int, acc string) (ok bool, end int, text string) {
	if LxTok(k, 0) == scanner.TEOF {
		return true, LxEnd(k, 0), acc
	}
	if LxTok(k, 0) != scanner.TIDENT {
		return false, k, ""
	}
	e := LxEnd(k, 0)
	t := acc + LxText(k, 0)
	if LxTok(e, 0) != scanner.TDOT {
		return true, e, t
	}
	return LxTypeRest(LxEnd(e, 0), t+LxText(e, 0))
}

// LxMessageType: messageType = [ "." ] { ident "." } messageName
//
// opaque
func LxMessageType(k int) (ok bool, end int, text string) {
	if LxTok(k, 0) == scanner.TDOT {
		return LxTypeRest(LxEnd(k, 0), LxText(k, 0))
	}
	return LxTypeRest(k, "")
}

// LxStrQuote is the quote that a merged string literal gets.
func LxStrQuote(text string) string {
	if strings.HasPrefix(text, "\"") {
		return "\""
	}
	return "'"
}

// LxInner is the content of a string literal, for a quote.
func LxInner(text, q string) string {
	inner := text[1 : len(text)-1]
	if !strings.HasPrefix(text, q) {
		return v.Replaced(inner, `\\`, `\\`, `\`+q, `\`+q, q, `\`+q)
	}
	return inner
}

// LxStrs is the end and the joined content of the adjacent string literals at k.
//
// opaque
func LxStrs(k int, q, acc string) (end int, text string) {
	if LxTok(k, scanner.ScanLit) != scanner.TSTRLIT {
		return k, acc
	}
	return LxStrs(LxEnd(k, scanner.ScanLit), q, acc+LxInner(LxText(k, scanner.ScanLit), q))
}

// LxConstant: constant = fullIdent | ( [ "-" | "+" ] intLit ) | ( [ "-" | "+" ] floatLit ) | strLit | boolLit
//
// opaque
func LxConstant(k int, permissive bool) (ok bool, end int, text string) {
	t, x := LxTok(k, scanner.ScanLit), LxText(k, scanner.ScanLit)
	e := LxEnd(k, scanner.ScanLit)
	if t == scanner.TSTRLIT {
		if permissive {
			q := LxStrQuote(x)
			e2, y := LxStrs(k, q, q)
			return true, e2, y + q
		}
		return true, e, x
	}
	if t == scanner.TBOOLLIT || t == scanner.TINTLIT || t == scanner.TFLOATLIT {
		return true, e, x
	}
	if t == scanner.TIDENT {
		return LxFullIdent(k)
	}
	if x == "-" || x == "+" {
		t2 := LxTok(e, scanner.ScanLit)
		if t2 == scanner.TINTLIT || t2 == scanner.TFLOATLIT {
			return true, LxEnd(e, scanner.ScanLit), x + LxText(e, scanner.ScanLit)
		}
	}
	return false, k, ""
}

// LxConstStart is where a constant starts.
func LxConstStart(k int) int {
	if LxTok(k, scanner.ScanLit) == scanner.TIDENT {
		return LxStart(k, 0)
	}
	return LxStart(k, scanner.ScanLit)
}

func lxTextLen(k int) int {
	_, st, te, _, _ := scanner.SpScan(k, scanner.ScanLit)
	return te - st
}
