From b6d5eab85aff0f5bdcf694750cab08cbfa65dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 01/19] fix: do not append a nil element after a top-level
 empty statement

ProtoBody got an extra nil element for each top-level ";" and an inline
comment behind it (";//c") panicked with a nil pointer dereference.
---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..9b9999b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -165,7 +165,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From fb363fb4b65d08cc8d21b4ea12bdcd5361a9da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 02/19] fix: reject an import with an unknown token before the
 location

ParseImport silently swallowed any token between "import" and the
location (import foo "a.proto"; and import ; "a.proto"; were accepted).
---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..adc00e2 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected(`"public", "weak" or strLit`)
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From afda62d68082153bf1ed3ba1bcec320492d28eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 03/19] fix: require the closing bracket of an option constant
 list

Any token was accepted in place of "]" (option a = [1, 2 };).
---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From b3b8bf1cc54c2a3811184ee64a705083a9d9ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 04/19] fix: do not drop the ranges of a reserved that mixes
 ranges and names

"reserved 1, "foo";" was accepted as FieldNames ["foo"] only: the ranges
read before the failure were silently discarded.
---
 parser/reserved.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..77e953d 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -70,10 +70,18 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	startPos := p.lex.Pos
 
 	parse := func() ([]*Range, []string, error) {
+		p.lex.NextNumberLit()
+		token := p.lex.Token
+		p.lex.UnNext()
+
 		ranges, err := p.parseRanges()
 		if err == nil {
 			return ranges, nil, nil
 		}
+		if token == scanner.TINTLIT {
+			// never falls back to fieldNames once ranges are read.
+			return nil, nil, err
+		}
 
 		fieldNames, ferr := p.parseFieldNames()
 		if ferr == nil {
-- 
2.43.0


From 56b7b3b2474e70d0d5de2d2f9f2698ae13abaf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 05/19] fix: keep the escaped and other quotes of a merged
 string literal

In the permissive mode a string constant was stripped with strings.Trim:
an escaped quote at either end was cut ("say \"hi\"" lost a quote), and
the quotes of an adjacent literal of the other kind were kept ("a" 'b'
became "a'b'").
---
 lexer/constant.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..bc459f3 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -55,8 +55,12 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
-		b.WriteString(strippedString)
+		inner := lex.Text[1 : len(lex.Text)-1]
+		if !strings.HasPrefix(lex.Text, q) {
+			// the quotes of the other kind get to need an escape.
+			inner = strings.NewReplacer(`\\`, `\\`, `\`+q, `\`+q, q, `\`+q).Replace(inner)
+		}
+		b.WriteString(inner)
 		lex.NextLit()
 	}
 	lex.UnNext()
-- 
2.43.0


From 1a0b725ced3c7dcbc319685a3826945439b3b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 06/19] fix: keep the leading comments of a file without syntax
 and edition

The comments in front of the first element were parsed for the syntax and
then dropped when the file had neither syntax nor edition.
---
 parser/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 9b9999b..01cccfa 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -59,7 +59,10 @@ func (p *Parser) ParseProto() (*Proto, error) {
 		p.MaybeScanInlineComment(edition)
 	}
 
-	protoBody, err := p.parseProtoBody()
+	if syntax != nil || edition != nil {
+		comments = nil
+	}
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -86,11 +89,12 @@ func (p *Parser) parseBOM() {
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
 	for {
-		comments := p.ParseComments()
+		comments := append(leadingComments, p.ParseComments()...)
+		leadingComments = nil
 
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
-- 
2.43.0


From 469969dfc0f739cd2e8f00724b39b407466b1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 07/19] fix: keep the comments inside an empty message, group
 or extend body

The shortcut for an empty body dropped the inline comment behind the left
curly and, with WithBodyIncludingComments, the comments in the body. The
general loop handles an empty body already.
---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..7b00021 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -109,23 +109,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..551a849 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -111,23 +111,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From 7a3f76a5e9c7d8ad55c584000b6261c6ab909a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 08/19] fix: do not take a malformed field that ends in a
 semicolon as ";"

A field, enum value or group that failed to parse at a ";" was replaced by
an empty statement: "string name;" or "FOO = ;" were accepted and dropped.
An empty statement is now recognised by its first token.
---
 parser/enum.go    | 13 ++++++-------
 parser/extend.go  | 13 ++++++-------
 parser/message.go | 14 ++++++--------
 3 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..93c4969 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -198,19 +198,18 @@ func (p *Parser) parseEnumBody() (
 			reserved.Comments = comments
 			stmt = reserved
 		default:
+			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil {
+				stmt = &EmptyStatement{}
+				break
+			}
+
 			enumField, enumFieldErr := p.parseEnumField()
 			if enumFieldErr == nil {
 				enumField.Comments = comments
 				stmt = enumField
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseEnumBodyStatementErr{
 				parseEnumFieldErr:      enumFieldErr,
diff --git a/parser/extend.go b/parser/extend.go
index 7b00021..a9c7763 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -142,19 +142,18 @@ func (p *Parser) parseExtendBody() (
 			}
 			return stmts, inlineLeftCurly, lastPos, nil
 		default:
+			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil {
+				stmt = &EmptyStatement{}
+				break
+			}
+
 			field, fieldErr := p.ParseField()
 			if fieldErr == nil {
 				field.Comments = comments
 				stmt = field
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseExtendBodyStatementErr{
 				parseFieldErr:          fieldErr,
diff --git a/parser/message.go b/parser/message.go
index 551a849..2161806 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -200,6 +200,12 @@ func (p *Parser) parseMessageBody() (
 			extensions.Comments = comments
 			stmt = extensions
 		default:
+			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil {
+				stmt = &EmptyStatement{}
+				break
+			}
+
 			var ferr error
 			isGroup := p.peekIsGroup()
 			if isGroup {
@@ -210,7 +216,6 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = groupErr
-				p.lex.UnNext()
 			} else {
 				field, fieldErr := p.ParseField()
 				if fieldErr == nil {
@@ -219,13 +224,6 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = fieldErr
-				p.lex.UnNext()
-			}
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
 			}
 
 			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
-- 
2.43.0


From 58bc88610af77dd27342cf30fd39e4f8654b0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 09/19] fix: require matching quotes around the syntax and the
 edition

syntax = "proto3'; was accepted.
---
 parser/edition.go | 2 +-
 parser/syntax.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/edition.go b/parser/edition.go
index 63921fc..a4dc817 100644
--- a/parser/edition.go
+++ b/parser/edition.go
@@ -70,7 +70,7 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 	edition := p.lex.Text
 
 	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	if p.lex.Token != scanner.TQUOTE || p.lex.Text != lq {
 		return nil, p.unexpected("quote")
 	}
 	tq := p.lex.Text
diff --git a/parser/syntax.go b/parser/syntax.go
index 7560adb..039c459 100644
--- a/parser/syntax.go
+++ b/parser/syntax.go
@@ -83,7 +83,7 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 	version := p.lex.Text
 
 	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	if p.lex.Token != scanner.TQUOTE || p.lex.Text != lq {
 		return nil, p.unexpected("quote")
 	}
 	tq := p.lex.Text
-- 
2.43.0


From 3bb64b7875bae5f5405d3e2a9bb94d0f10baf049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 10/19] fix: accept an empty statement at the end of a oneof

The grammar allows "oneof o { string a = 1; ; }", which was rejected.
---
 parser/oneof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/oneof.go b/parser/oneof.go
index 8057282..06fa95c 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -113,6 +113,11 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 
 		err := p.lex.ReadEmptyStatement()
 		if err == nil {
+			p.lex.Next()
+			if p.lex.Token == scanner.TRIGHTCURLY {
+				break
+			}
+			p.lex.UnNext()
 			continue
 		}
 
-- 
2.43.0


From b9f4e7726102a6855b45c557c484d35adfc15db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 11/19] fix: do not take a NUL character for the end of the
 input

The scanner used 0 as its end marker, so a NUL in the input was silently
dropped and cut tokens and comments short without moving the position
(int32 a\x00 = 1; was accepted).
---
 lexer/scanner/scanner.go | 2 +-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..ff790da 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,7 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+var eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..fcdb9e2 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, 0, '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From fc21e2e9bc7f649d491b886f995f01d67e3adeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 12/19] fix: let a visitor reach the options and comments of an
 rpc, oneof and extensions

---
 parser/extensions.go | 3 +++
 parser/oneof.go      | 3 +++
 parser/service.go    | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..5cfb430 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -40,6 +40,9 @@ func (e *Extensions) Accept(v Visitor) {
 	if e.InlineComment != nil {
 		e.InlineComment.Accept(v)
 	}
+	if e.InlineCommentBehindLeftSquare != nil {
+		e.InlineCommentBehindLeftSquare.Accept(v)
+	}
 }
 
 // ParseExtensions parses the extensions.
diff --git a/parser/oneof.go b/parser/oneof.go
index 06fa95c..929656c 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -79,6 +79,9 @@ func (o *Oneof) Accept(v Visitor) {
 	if o.InlineComment != nil {
 		o.InlineComment.Accept(v)
 	}
+	if o.InlineCommentBehindLeftCurly != nil {
+		o.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // ParseOneof parses the oneof.
diff --git a/parser/service.go b/parser/service.go
index 62b021d..dbb29de 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -53,12 +53,21 @@ func (r *RPC) Accept(v Visitor) {
 		return
 	}
 
+	for _, option := range r.Options {
+		option.Accept(v)
+	}
 	for _, comment := range r.Comments {
 		comment.Accept(v)
 	}
 	if r.InlineComment != nil {
 		r.InlineComment.Accept(v)
 	}
+	if r.InlineCommentBehindLeftCurly != nil {
+		r.InlineCommentBehindLeftCurly.Accept(v)
+	}
+	for _, comment := range r.EmbeddedComments {
+		comment.Accept(v)
+	}
 }
 
 // Service consists of RPCs.
-- 
2.43.0


From 94dfa24a1a6bd7dd7b4677050c1db378f7414bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 13/19] fix: do not take an arbitrary identifier for false in a
 declaration

---
 parser/declaration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..d1b3c81 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -127,7 +127,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -137,7 +137,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From ee6ae126267e7e97cd2eee953ebe2a7bf8522a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 14/19] fix: do not give the comments of the syntax to the
 edition too

---
 parser/proto.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 01cccfa..22888f1 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -48,6 +48,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -57,11 +58,9 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if edition != nil {
 		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
-	}
-
-	if syntax != nil || edition != nil {
 		comments = nil
 	}
+
 	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 37a26c647297e10438f570548c753783e76d99a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 15/19] fix: do not overflow the stack on a long run of white
 space or comments

---
 lexer/scanner/scanner.go | 100 +++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 51 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index ff790da..35326c5 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -92,12 +92,8 @@ func (s *Scanner) peek() rune {
 
 // UnScan put the last scanned text back to the read buffer.
 func (s *Scanner) UnScan() Position {
-	var reversedRunes []rune
-	for _, ch := range s.lastScanRaw {
-		reversedRunes = append([]rune{ch}, reversedRunes...)
-	}
-	for _, ch := range reversedRunes {
-		s.unread(ch)
+	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
+		s.unread(s.lastScanRaw[i])
 	}
 	return *s.pos
 }
@@ -141,51 +137,53 @@ func (s *Scanner) GetScannedComments() []Text {
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
-	ch := s.peek()
-
-	startPos := *s.pos
-
-	switch {
-	case unicode.IsSpace(ch):
-		s.read()
-		return s.scan()
-	case s.isEOF():
-		return TEOF, "", startPos, nil
-	case isLetter(ch), ch == '_':
-		ident := s.scanIdent()
-		if s.Mode&ScanBoolLit != 0 && isBoolLit(ident) {
-			return TBOOLLIT, ident, startPos, nil
-		}
-		if s.Mode&ScanNumberLit != 0 && isFloatLitKeyword(ident) {
-			return TFLOATLIT, ident, startPos, nil
-		}
-		if s.Mode&ScanKeyword != 0 && asKeywordToken(ident) != TILLEGAL {
-			return asKeywordToken(ident), ident, startPos, nil
-		}
-		return TIDENT, ident, startPos, nil
-	case ch == '/':
-		lit, err := s.scanComment()
-		if err != nil {
-			return TILLEGAL, "", startPos, err
-		}
-		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
-		if s.Mode&ScanComment != 0 {
-			return TCOMMENT, lit, startPos, nil
-		}
-		return s.scan()
-	case isQuote(ch) && s.Mode&ScanStrLit != 0:
-		lit, err := s.scanStrLit()
-		if err != nil {
-			return TILLEGAL, "", startPos, err
-		}
-		return TSTRLIT, lit, startPos, nil
-	case (isDecimalDigit(ch) || ch == '.') && s.Mode&ScanNumberLit != 0:
-		tok, lit, err := s.scanNumberLit()
-		if err != nil {
-			return TILLEGAL, "", startPos, err
+	for {
+		ch := s.peek()
+
+		startPos := *s.pos
+
+		switch {
+		case unicode.IsSpace(ch):
+			s.read()
+			continue
+		case s.isEOF():
+			return TEOF, "", startPos, nil
+		case isLetter(ch), ch == '_':
+			ident := s.scanIdent()
+			if s.Mode&ScanBoolLit != 0 && isBoolLit(ident) {
+				return TBOOLLIT, ident, startPos, nil
+			}
+			if s.Mode&ScanNumberLit != 0 && isFloatLitKeyword(ident) {
+				return TFLOATLIT, ident, startPos, nil
+			}
+			if s.Mode&ScanKeyword != 0 && asKeywordToken(ident) != TILLEGAL {
+				return asKeywordToken(ident), ident, startPos, nil
+			}
+			return TIDENT, ident, startPos, nil
+		case ch == '/':
+			lit, err := s.scanComment()
+			if err != nil {
+				return TILLEGAL, "", startPos, err
+			}
+			s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+			if s.Mode&ScanComment != 0 {
+				return TCOMMENT, lit, startPos, nil
+			}
+			continue
+		case isQuote(ch) && s.Mode&ScanStrLit != 0:
+			lit, err := s.scanStrLit()
+			if err != nil {
+				return TILLEGAL, "", startPos, err
+			}
+			return TSTRLIT, lit, startPos, nil
+		case (isDecimalDigit(ch) || ch == '.') && s.Mode&ScanNumberLit != 0:
+			tok, lit, err := s.scanNumberLit()
+			if err != nil {
+				return TILLEGAL, "", startPos, err
+			}
+			return tok, lit, startPos, nil
+		default:
+			return asMiscToken(ch), string(s.read()), startPos, nil
 		}
-		return tok, lit, startPos, nil
-	default:
-		return asMiscToken(ch), string(s.read()), startPos, nil
 	}
 }
-- 
2.43.0


From f58ddaf02495824a716dd55ada9e61131f034779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 16/19] fix: report an error of the reader instead of taking it
 for the end of the input

---
 lexer/lexer.go           |  5 +++++
 lexer/scanner/scanner.go | 11 +++++++++++
 parser/proto.go          |  3 +++
 3 files changed, 19 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 91d6add..05e6398 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -149,6 +149,11 @@ func (lex *Lexer) LatestErr() error {
 	return lex.scanErr
 }
 
+// ReadErr returns the error other than io.EOF that ended the input, if any.
+func (lex *Lexer) ReadErr() error {
+	return lex.scanner.ReadErr()
+}
+
 // Peek returns the next token with keeping the read buffer unchanged.
 func (lex *Lexer) Peek() scanner.Token {
 	lex.Next()
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 35326c5..1b121e5 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -23,6 +23,9 @@ type Scanner struct {
 	// pos is a current source position.
 	pos *Position
 
+	// readErr is the error other than io.EOF that ended the input, if any.
+	readErr error
+
 	// The Mode field controls which tokens are recognized.
 	Mode Mode
 
@@ -70,6 +73,9 @@ func (s *Scanner) read() (r rune) {
 	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		if err != io.EOF {
+			s.readErr = err
+		}
 		return eof
 	}
 	return ch
@@ -116,6 +122,11 @@ func (s *Scanner) SetLastScanRaw(raw []rune) {
 	s.lastScanRaw = raw
 }
 
+// ReadErr returns the error other than io.EOF that ended the input, if any.
+func (s *Scanner) ReadErr() error {
+	return s.readErr
+}
+
 // GetScannedComments returns all the uniquely scanned comments.
 func (s *Scanner) GetScannedComments() []Text {
 	var uniqueComments []Text
diff --git a/parser/proto.go b/parser/proto.go
index 22888f1..01bab92 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -96,6 +96,9 @@ func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 		leadingComments = nil
 
 		if p.IsEOF() {
+			if err := p.lex.ReadErr(); err != nil {
+				return nil, err
+			}
 			if p.bodyIncludingComments {
 				for _, comment := range comments {
 					protoBody = append(protoBody, Visitee(comment))
-- 
2.43.0


From 8143daa74668f9ab1c73faf2211b9560e60f0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 17/19] fix: interpret a service body with an empty statement

---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From d985c8a7a83435ccf622a1bb66953c0bb4d04264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 18/19] fix: keep the edition when a proto is interpreted

---
 interpret/unordered/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..6ae4dff 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -21,6 +21,7 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
 }
 
@@ -36,6 +37,7 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
 	}, nil
 }
-- 
2.43.0


From 53aea1b632dbfa8b19d12616262c32b567aa85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 19/19] fix: interpret a body that includes comments

---
 interpret/unordered/enum.go    | 7 +++++++
 interpret/unordered/extend.go  | 7 +++++++
 interpret/unordered/message.go | 7 +++++++
 interpret/unordered/proto.go   | 7 +++++++
 interpret/unordered/service.go | 7 +++++++
 5 files changed, 35 insertions(+)

diff --git a/interpret/unordered/enum.go b/interpret/unordered/enum.go
index e8287cd..d31b26a 100644
--- a/interpret/unordered/enum.go
+++ b/interpret/unordered/enum.go
@@ -13,6 +13,9 @@ type EnumBody struct {
 	EnumFields      []*parser.EnumField
 	Reserveds       []*parser.Reserved
 	EmptyStatements []*parser.EmptyStatement
+
+	// Comments are the ones placed in the body with parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Enum consists of a name and an enum body.
@@ -58,6 +61,7 @@ func interpretEnumBody(src []parser.Visitee) (
 	var enumFields []*parser.EnumField
 	var reserveds []*parser.Reserved
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -68,6 +72,8 @@ func interpretEnumBody(src []parser.Visitee) (
 			reserveds = append(reserveds, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid EnumBody type %T of %v", t, t)
 		}
@@ -77,5 +83,6 @@ func interpretEnumBody(src []parser.Visitee) (
 		EnumFields:      enumFields,
 		Reserveds:       reserveds,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/extend.go b/interpret/unordered/extend.go
index 44253cf..6091464 100644
--- a/interpret/unordered/extend.go
+++ b/interpret/unordered/extend.go
@@ -11,6 +11,9 @@ import (
 type ExtendBody struct {
 	Fields          []*parser.Field
 	EmptyStatements []*parser.EmptyStatement
+
+	// Comments are the ones placed in the body with parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Extend consists of a messageType and a extend body.
@@ -54,12 +57,15 @@ func interpretExtendBody(src []parser.Visitee) (
 ) {
 	var fields []*parser.Field
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Field:
 			fields = append(fields, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ExtendBody type %T of %v", t, t)
 		}
@@ -67,5 +73,6 @@ func interpretExtendBody(src []parser.Visitee) (
 	return &ExtendBody{
 		Fields:          fields,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/message.go b/interpret/unordered/message.go
index 12fb674..0100cef 100644
--- a/interpret/unordered/message.go
+++ b/interpret/unordered/message.go
@@ -20,6 +20,9 @@ type MessageBody struct {
 	Extends         []*parser.Extend
 	EmptyStatements []*parser.EmptyStatement
 	Extensions      []*parser.Extensions
+
+	// Comments are the ones placed in the body with parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Message consists of a message name and a message body.
@@ -71,6 +74,7 @@ func interpretMessageBody(src []parser.Visitee) (
 	var reserves []*parser.Reserved
 	var extends []*parser.Extend
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	var extensions []*parser.Extensions
 	for _, s := range src {
 		switch t := s.(type) {
@@ -102,6 +106,8 @@ func interpretMessageBody(src []parser.Visitee) (
 			extends = append(extends, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		case *parser.Extensions:
 			extensions = append(extensions, t)
 		default:
@@ -119,6 +125,7 @@ func interpretMessageBody(src []parser.Visitee) (
 		Reserves:        reserves,
 		Extends:         extends,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 		Extensions:      extensions,
 	}, nil
 }
diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 6ae4dff..3fe1190 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -16,6 +16,9 @@ type ProtoBody struct {
 	Enums           []*Enum
 	Services        []*Service
 	EmptyStatements []*parser.EmptyStatement
+
+	// Comments are the ones placed in the body with parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Proto represents a protocol buffer definition.
@@ -54,6 +57,7 @@ func interpretProtoBody(src []parser.Visitee) (
 	var enums []*Enum
 	var services []*Service
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Import:
@@ -88,6 +92,8 @@ func interpretProtoBody(src []parser.Visitee) (
 			services = append(services, service)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ProtoBody type %T of %v", t, t)
 		}
@@ -101,5 +107,6 @@ func interpretProtoBody(src []parser.Visitee) (
 		Enums:           enums,
 		Services:        services,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index 7a29024..3f5c648 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -12,6 +12,9 @@ type ServiceBody struct {
 	Options         []*parser.Option
 	RPCs            []*parser.RPC
 	EmptyStatements []*parser.EmptyStatement
+
+	// Comments are the ones placed in the body with parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Service consists of RPCs.
@@ -56,6 +59,7 @@ func interpretServiceBody(src []parser.Visitee) (
 	var options []*parser.Option
 	var rpcs []*parser.RPC
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -64,6 +68,8 @@ func interpretServiceBody(src []parser.Visitee) (
 			rpcs = append(rpcs, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
@@ -72,5 +78,6 @@ func interpretServiceBody(src []parser.Visitee) (
 		Options:         options,
 		RPCs:            rpcs,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
-- 
2.43.0

