package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	addCheck("scan", "tok", checkScan)
	addCheck("scanproto", "proto", checkScan)
	addCheck("lex", "const", checkLex)
	addCheck("lextok", "tok", checkLex)
}

// reader makes a reader of the input, which may deliver it in pieces and end with an error.
func (c *Case) reader() io.Reader {
	k := c.R.Intn(6)
	if k == 0 {
		meta.InputErr = errors.New("broken")
	}
	if k > 2 {
		return strings.NewReader(c.Input)
	}
	return &chunks{s: c.Input, n: 1 + c.R.Intn(7), last: k == 1, err: meta.InputErr}
}

type chunks struct {
	s    string
	n    int
	last bool // the error comes with the last piece
	err  error
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.s)
	r.s = r.s[n:]
	if len(r.s) == 0 && r.last {
		return n, r.err
	}
	return n, nil
}

// checkScan: tokens, texts and positions of scans in any modes, with putting back in between.
func checkScan(c *Case) string {
	r := c.reader()
	fn := ""
	if c.R.Intn(2) == 0 {
		fn = "f.proto"
	}
	meta.InputFilename = fn
	s := scanner.NewScanner(r, scanner.WithFilename(fn))
	modes := []scanner.Mode{0, 0, scanner.ScanKeyword, scanner.ScanComment, scanner.ScanStrLit, scanner.ScanNumberLit, scanner.ScanLit, scanner.ScanBoolLit, scanner.ScanKeyword | scanner.ScanStrLit, scanner.ScanLit | scanner.ScanComment | scanner.ScanKeyword}
	k := 0
	type back struct {
		k   int
		raw []rune
	}
	var stack []back
	for i := 0; i < 400; i++ {
		m := modes[c.R.Intn(len(modes))]
		s.Mode = m
		tok, text, pos, err := s.Scan()
		if s.Mode != m {
			return "Scan changes the mode"
		}
		t, st, te, e, bad := scanner.SpScan(k, m)
		at := fmt.Sprintf("scan at rune %d in mode %d", k, m)
		if bad != (err != nil) {
			return fmt.Sprintf("%s: error %v, malformed %v", at, err, bad)
		}
		if tok != t {
			return fmt.Sprintf("%s: token %v, want %v", at, tok, t)
		}
		if want := meta.Str(st, te); text != want {
			return fmt.Sprintf("%s: text %q, want %q", at, text, want)
		}
		if want := scanner.SpPos(st); pos.Position != want {
			return fmt.Sprintf("%s: position %+v, want %+v", at, pos.Position, want)
		}
		if t == scanner.TEOF && meta.InputErr != io.EOF && s.ReadErr() != meta.InputErr {
			return fmt.Sprintf("%s: the error that ended the input is %v, want %v", at, s.ReadErr(), meta.InputErr)
		}
		if meta.InputErr == io.EOF && s.ReadErr() != nil {
			return fmt.Sprintf("%s: the error that ended the input is %v, want none", at, s.ReadErr())
		}
		raw := s.LastScanRaw()
		if bad {
			e = k + len(raw)
		}
		if e > len(meta.Input) || string(raw) != meta.Str(k, e) {
			return fmt.Sprintf("%s: raw text %q", at, string(raw))
		}
		if t != scanner.TEOF {
			c.Nontriv = true
		}
		stack = append(stack, back{k, raw})
		k0 := k
		k = e
		if bad || t != scanner.TEOF && c.R.Intn(3) == 0 {
			// put back this token, and maybe some before it
			p := s.UnScan()
			k = k0
			if want := scanner.SpPos(k); p.Position != want {
				return fmt.Sprintf("%s: put back to %+v, want %+v", at, p.Position, want)
			}
			stack = stack[:len(stack)-1]
			for len(stack) > 0 && c.R.Intn(3) == 0 {
				b := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				s.SetLastScanRaw(b.raw)
				p := s.UnScan()
				k = b.k
				if want := scanner.SpPos(k); p.Position != want {
					return fmt.Sprintf("put back to %+v, want %+v", p.Position, want)
				}
			}
			if bad {
				// go on behind the malformed token in another mode
				if c.R.Intn(3) == 0 {
					return ""
				}
			}
		}
		if t == scanner.TEOF && c.R.Intn(2) == 0 {
			return ""
		}
	}
	return ""
}

// checkLex: the reading functions of the lexer, from any token on.
func checkLex(c *Case) string {
	r := c.reader()
	lex := lexer.NewLexer(r)
	lex.Error = func(*lexer.Lexer, error) {}
	k := 0
	for i := 0; i < 60; i++ {
		var err error
		var text string
		var pos scanner.Position
		var ok bool
		var e, st int
		var want, what string
		raw0 := len(meta.Input) - k
		_ = raw0
		switch c.R.Intn(12) {
		case 0:
			what = "ReadConstant"
			text, pos, err = lex.ReadConstant(true)
			ok, e, want = lexer.LxConstant(k, true)
			st = lexer.LxConstStart(k)
		case 1:
			what = "ReadConstant, not permissive"
			text, pos, err = lex.ReadConstant(false)
			ok, e, want = lexer.LxConstant(k, false)
			st = lexer.LxConstStart(k)
		case 2:
			what = "ReadFullIdent"
			text, pos, err = lex.ReadFullIdent()
			ok, e, want = lexer.LxFullIdent(k)
			st = lexer.LxStart(k, 0)
		case 3:
			what = "ReadMessageType"
			text, pos, err = lex.ReadMessageType()
			ok, e, want = lexer.LxMessageType(k)
			st = lexer.LxStart(k, 0)
		case 4:
			what = "ReadEnumType"
			text, pos, err = lex.ReadEnumType()
			ok, e, want = lexer.LxMessageType(k)
			st = lexer.LxStart(k, 0)
		case 5:
			err := lex.ReadEmptyStatement()
			semi := lexer.LxTok(k, 0) == scanner.TSEMICOLON
			if (err == nil) != semi {
				return fmt.Sprintf("ReadEmptyStatement at rune %d: error %v", k, err)
			}
			if semi {
				k = lexer.LxEnd(k, 0)
			}
			continue
		case 6:
			t := lex.Peek()
			if w := lexer.LxTok(k, 0); t != w {
				return fmt.Sprintf("Peek at rune %d: %v, want %v", k, t, w)
			}
			continue
		case 7:
			t := scanner.Token(c.R.Intn(int(scanner.TIDENT) + 20))
			lex.ConsumeToken(t)
			w := lexer.LxTok(k, 0)
			if w == t && w != scanner.TILLEGAL {
				if lex.Token != t {
					return fmt.Sprintf("ConsumeToken(%v) at rune %d does not consume", t, k)
				}
				k = lexer.LxEnd(k, 0)
			} else if w == t {
				return ""
			} else if lex.Token != scanner.TILLEGAL {
				return fmt.Sprintf("ConsumeToken(%v) at rune %d consumes %v", t, k, w)
			}
			continue
		case 8:
			n := 1 + c.R.Intn(3)
			t := lex.PeekN(n)
			j := k
			for ; n > 0; n-- {
				if lexer.LxBad(j, 0) {
					break
				}
				if n > 1 {
					j = lexer.LxEnd(j, 0)
				}
			}
			if n > 0 {
				continue
			}
			if w := lexer.LxTok(j, 0); t != w {
				return fmt.Sprintf("PeekN at rune %d: %v, want %v", k, t, w)
			}
			continue
		default:
			modes := []scanner.Mode{0, scanner.ScanKeyword, scanner.ScanComment, scanner.ScanStrLit, scanner.ScanNumberLit, scanner.ScanLit, scanner.ScanKeyword | scanner.ScanStrLit}
			fs := []func(){lex.Next, lex.NextKeyword, lex.NextComment, lex.NextStrLit, lex.NextNumberLit, lex.NextLit, lex.NextKeywordOrStrLit}
			x := c.R.Intn(len(fs))
			fs[x]()
			t, st, te, e, bad := scanner.SpScan(k, modes[x])
			if lex.Token != t || lex.Text != meta.Str(st, te) || lex.Pos.Position != scanner.SpPos(st) {
				return fmt.Sprintf("next token %d at rune %d: %v %q %+v, want %v %q %+v", x, k, lex.Token, lex.Text, lex.Pos.Position, t, meta.Str(st, te), scanner.SpPos(st))
			}
			if t != scanner.TEOF && c.R.Intn(3) == 0 || bad {
				lex.UnNext()
				if lex.Pos.Position != scanner.SpPos(k) {
					return fmt.Sprintf("put back to %+v, want %+v", lex.Pos.Position, scanner.SpPos(k))
				}
			} else {
				k = e
			}
			continue
		}
		if ok != (err == nil) {
			return fmt.Sprintf("%s at rune %d: error %v, well-formed %v", what, k, err, ok)
		}
		if !ok {
			return ""
		}
		if text != want {
			return fmt.Sprintf("%s at rune %d: %q, want %q", what, k, text, want)
		}
		if pos.Position != scanner.SpPos(st) {
			return fmt.Sprintf("%s at rune %d: position %+v, want %+v", what, k, pos.Position, scanner.SpPos(st))
		}
		c.Nontriv = true
		k = e
		if lexer.LxTok(k, 0) == scanner.TEOF {
			return ""
		}
	}
	return ""
}
