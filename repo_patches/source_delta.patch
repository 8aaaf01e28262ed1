From e7bcc43d0c8365f3f836bb767ac0c3617c8fb10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 01/75] fix: report an unclosed delimited identifier instead of
 looping forever

---
 sqltoken/tokenizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..177bf3a 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -283,6 +283,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == end {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From c70f684b609acbf67d16340fff5961659bdbc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 02/75] fix: keep the text of a multiline comment that contains
 '*'

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 177bf3a..fc31b33 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -534,7 +534,7 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 			if n == '/' {
 				break
 			} else {
-				str = append(str, n)
+				str = append(str, '*')
 			}
 		}
 		mayBeClosingComment = n == '*'
-- 
2.43.0


From 1907b0c362761e0e3314a9f174a054309939d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 03/75] fix: treat a carriage return as a line end inside
 comments too

---
 sqltoken/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index fc31b33..1085b7b 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -330,7 +330,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			var s []rune
 			for {
 				ch := t.Scanner.Peek()
-				if ch != scanner.EOF && ch != '\n' {
+				if ch != scanner.EOF && ch != '\n' && ch != '\r' {
 					t.Scanner.Next()
 					s = append(s, ch)
 				} else {
@@ -519,6 +519,7 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 			if t.Scanner.Peek() == '\n' {
 				t.Scanner.Next()
 			}
+			n = '\n'
 			t.Col = 1
 			t.Line += 1
 		} else if n == '\n' {
-- 
2.43.0


From e172bb0cd3d5544ac5e3759ee8a0093df1878c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 04/75] fix: track positions through quoted tokens with
 escapes, newlines or non-ASCII text

---
 sqltoken/tokenizer.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 1085b7b..f5f24ae 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -274,12 +274,12 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		return SingleQuotedString, s, nil
 
 	case t.Dialect.IsDelimitedIdentifierStart(r):
-		t.Scanner.Next()
+		t.consume()
 		end := matchingEndQuote(r)
 
 		var s []rune
 		for {
-			n := t.Scanner.Next()
+			n := t.consume()
 			if n == end {
 				break
 			}
@@ -288,7 +288,6 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			}
 			s = append(s, n)
 		}
-		t.Col += 2 + len(s)
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -478,17 +477,38 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	return str
 }
 
+// consume reads the next character of a token that may span several lines and
+// moves the current position past it.
+func (t *Tokenizer) consume() rune {
+	r := t.Scanner.Next()
+	switch r {
+	case scanner.EOF:
+	case '\r':
+		// "\r\n" is a single line end, which is counted at '\n'
+		if t.Scanner.Peek() != '\n' {
+			t.Line += 1
+			t.Col = 1
+		}
+	case '\n':
+		t.Line += 1
+		t.Col = 1
+	default:
+		t.Col += 1
+	}
+	return r
+}
+
 func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 	var builder strings.Builder
-	t.Scanner.Next()
+	t.consume()
 	for {
 		n := t.Scanner.Peek()
 		if n == '\'' {
-			t.Scanner.Next()
+			t.consume()
 			if t.Scanner.Peek() == '\'' {
 				// str = append(str, '\'')
 				builder.WriteRune('\'')
-				t.Scanner.Next()
+				t.consume()
 			} else {
 				break
 			}
@@ -498,14 +518,11 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 			return "", errors.Errorf("unclosed single quoted string: %s at %+v", builder.String(), t.Pos())
 		}
 
-		t.Scanner.Next()
+		t.consume()
 		builder.WriteRune(n)
 		// str = append(str, n)
 	}
-	str := builder.String()
-	t.Col += 2 + len(str)
-
-	return str, nil
+	return builder.String(), nil
 }
 
 func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
-- 
2.43.0


From 09f9eb910da2ae907e3b5fa3bd0d6c33f655a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 05/75] fix: report a read error instead of taking it as the
 end of the input

---
 sqltoken/tokenizer.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index f5f24ae..f485f7b 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -124,16 +124,38 @@ type Tokenizer struct {
 	Line         int
 	Col          int
 	parseComment bool
+	src          *errReader
+}
+
+// errReader remembers why reading src failed. text/scanner has no way to return
+// a read error, it takes every error as the end of the input.
+type errReader struct {
+	src io.Reader
+	err error
+}
+
+func (r *errReader) Read(p []byte) (int, error) {
+	if r.err != nil {
+		return 0, io.EOF
+	}
+	n, err := r.src.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+		err = io.EOF
+	}
+	return n, err
 }
 
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
+	reader := &errReader{src: src}
 	return &Tokenizer{
 		Dialect:      dialect,
-		Scanner:      scan.Init(src),
+		Scanner:      scan.Init(reader),
 		Line:         1,
 		Col:          1,
 		parseComment: true,
+		src:          reader,
 	}
 }
 
@@ -451,6 +473,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		t.Col += 1
 		return RBrace, "}", nil
 	case scanner.EOF == r:
+		if t.src != nil && t.src.err != nil {
+			return ILLEGAL, "", errors.Errorf("read failed: %w", t.src.err)
+		}
 		return ILLEGAL, "", io.EOF
 	default:
 		t.Scanner.Next()
-- 
2.43.0


From 9d0d64bd56bebce45fe52ec1e2df1397af21fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 06/75] fix: never take a delimited identifier for a keyword

---
 parser.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index f0c25ba..18909fa 100644
--- a/parser.go
+++ b/parser.go
@@ -38,7 +38,7 @@ func NewParser(src io.Reader, dialect dialect.Dialect, opts ...ParserOption) (*P
 		return nil, errors.Errorf("tokenize err failed: %w", err)
 	}
 
-	parser := &Parser{tokens: set, index: 0}
+	parser := &Parser{tokens: maskQuotedKeywords(set), index: 0}
 
 	for _, o := range opts {
 		o(parser)
@@ -58,7 +58,23 @@ func NewParserWithOptions(opts ...ParserOption) *Parser {
 // workaround
 // FIXME: create appropriate parse function
 func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
-	p.tokens = tokens
+	p.tokens = maskQuotedKeywords(tokens)
+}
+
+// maskQuotedKeywords returns tokens in which delimited identifiers are no
+// keywords, whatever their text is: "select" is a name, not the SELECT keyword.
+func maskQuotedKeywords(tokens []*sqltoken.Token) []*sqltoken.Token {
+	masked := make([]*sqltoken.Token, 0, len(tokens))
+	for _, tok := range tokens {
+		if word, ok := tok.Value.(*sqltoken.SQLWord); ok && word.QuoteStyle != 0 {
+			t, w := *tok, *word
+			w.Keyword = ""
+			t.Value = &w
+			tok = &t
+		}
+		masked = append(masked, tok)
+	}
+	return masked
 }
 
 func (p *Parser) ParseFile() (*sqlast.File, error) {
@@ -3103,7 +3119,7 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
-- 
2.43.0


From 5592e9edd2d8cad6c87b18734bfa311083d6e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 07/75] fix: return an error for invalid input instead of
 panicking and printing tokens

---
 parser.go | 65 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/parser.go b/parser.go
index 18909fa..a7077a7 100644
--- a/parser.go
+++ b/parser.go
@@ -3,7 +3,6 @@ package xsqlparser
 import (
 	"fmt"
 	"io"
-	"log"
 	"sort"
 	"strconv"
 	"strings"
@@ -77,6 +76,24 @@ func maskQuotedKeywords(tokens []*sqltoken.Token) []*sqltoken.Token {
 	return masked
 }
 
+// fail gives up the current parse. The exported Parse methods turn it into an
+// error with recoverError.
+func fail(format string, args ...interface{}) {
+	panic(errors.Errorf(format, args...))
+}
+
+// recoverError reports a parse that was given up, or that ran past the last
+// token, as an error.
+func recoverError(err *error) {
+	switch r := recover().(type) {
+	case nil:
+	case error:
+		*err = errors.Errorf("parse failed: %w", r)
+	default:
+		panic(r)
+	}
+}
+
 func (p *Parser) ParseFile() (*sqlast.File, error) {
 	stmts, err := p.ParseSQL()
 	if err != nil {
@@ -99,7 +116,9 @@ func (p *Parser) ParseFile() (*sqlast.File, error) {
 	}, nil
 }
 
-func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
+func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	var stmts []sqlast.Stmt
 	var expectingDelimiter bool
 
@@ -142,7 +161,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -185,7 +206,9 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -312,7 +335,9 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
+	defer recoverError(&err)
+
 	return p.parseSubexpr(0)
 }
 
@@ -377,7 +402,7 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 			Query: subquery,
 		}
 	} else {
-		log.Panicln("expect SELECT or subquery in the query body")
+		fail("expect SELECT or subquery in the query body")
 	}
 BODY_LOOP:
 	for {
@@ -554,7 +579,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateIndex(uiok)
 	}
 
-	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
+	fail("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
 
 	return nil, nil
 }
@@ -695,7 +720,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 		t, _ := p.nextToken()
 		if t == nil || (t.Kind != sqltoken.Comma && t.Kind != sqltoken.RParen) {
-			log.Panicf("Expected ',' or ')' after column definition but %v", t)
+			fail("Expected ',' or ')' after column definition but %v", t)
 		} else if t.Kind == sqltoken.RParen {
 			break
 		}
@@ -1022,7 +1047,6 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 		}
 		opt, err := p.parseTableOption()
 		if err != nil {
-			p.Debug()
 			return nil, errors.Errorf("parseTableOption failed: %w", err)
 		}
 		opts = append(opts, opt)
@@ -1557,7 +1581,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 		}
 	}
 	if afterAs {
-		log.Panicf("expected an identifier after AS")
+		fail("expected an identifier after AS")
 	}
 	p.prevToken()
 	return nil
@@ -2070,7 +2094,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return p.parsePGCast(expr)
 	}
 
-	log.Panicf("no infix parser for sqltoken %+v", tok)
+	fail("no infix parser for sqltoken %+v", tok)
 	return nil, nil
 }
 
@@ -2383,7 +2407,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return ast, nil
 	}
-	log.Panicf("prefix parser expected a keyword but hit EOF")
+	fail("prefix parser expected a keyword but hit EOF")
 	return nil, nil
 }
 
@@ -2576,7 +2600,7 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
 		return &sqlast.Following{Bound: rows}, nil
 	}
-	log.Panicln("expected PRECEDING or FOLLOWING")
+	fail("expected PRECEDING or FOLLOWING")
 	return nil, nil
 }
 
@@ -2885,11 +2909,7 @@ func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
 func (p *Parser) expectKeyword(expected string) *sqltoken.Token {
 	ok, tok, err := p.parseKeyword(expected)
 	if err != nil || !ok {
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be expected keyword: %s err: %v", expected, err)
+		fail("should be expected keyword: %s err: %v", expected, err)
 	}
 
 	return tok
@@ -2899,12 +2919,7 @@ func (p *Parser) expectToken(expected sqltoken.Kind) {
 	ok, err := p.consumeToken(expected)
 	if err != nil || !ok {
 		tok, _ := p.peekToken()
-
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
+		fail("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
 	}
 }
 
@@ -2927,7 +2942,7 @@ func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
 func (p *Parser) mustNextToken() *sqltoken.Token {
 	tok, err := p.nextToken()
 	if err != nil {
-		log.Panicf("%+v", err)
+		fail("%+v", err)
 	}
 
 	return tok
-- 
2.43.0


From 93ec21e7611b0dc13dcf93f9afaea5b3b06fe46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 08/75] fix: accept a SELECT that ends with its select list

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a7077a7..c77c31b 100644
--- a/parser.go
+++ b/parser.go
@@ -546,7 +546,7 @@ func (p *Parser) parseSelectList() ([]sqlast.SQLSelectItem, error) {
 			}
 		}
 
-		if t, _ := p.peekToken(); t.Kind == sqltoken.Comma {
+		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
 			p.mustNextToken()
 		} else {
 			break
-- 
2.43.0


From 4393b2b0b53b72ea0858505fcd1ec098d6e6ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 09/75] fix: make the last semicolon optional and skip empty
 statements in ParseSQL

---
 parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index c77c31b..b43bb31 100644
--- a/parser.go
+++ b/parser.go
@@ -123,10 +123,12 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 	var expectingDelimiter bool
 
 	for {
-		ok, _ := p.consumeToken(sqltoken.Semicolon)
-		if !ok && expectingDelimiter {
-			tok, _ := p.peekToken()
-			return nil, errors.Errorf("expect semicolon but %+v", tok)
+		for {
+			ok, _ := p.consumeToken(sqltoken.Semicolon)
+			if !ok {
+				break
+			}
+			expectingDelimiter = false
 		}
 
 		if p.parseComment {
@@ -149,6 +151,11 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 			}
 		}
 
+		if expectingDelimiter {
+			tok, _ := p.peekToken()
+			return nil, errors.Errorf("expect semicolon but %+v", tok)
+		}
+
 		stmt, err := p.ParseStatement()
 		if err != nil {
 			return nil, errors.Errorf("parseStatement failed: %w", err)
-- 
2.43.0


From cc95fe01f794fce7c5157ac2c4d4da00490f89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 10/75] fix: keep the earlier joins of a FROM item when a CROSS
 JOIN follows

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b43bb31..f0f1a64 100644
--- a/parser.go
+++ b/parser.go
@@ -1670,7 +1670,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			}
 			e = rtp
 		case *sqlast.CrossJoin:
-			rtp.Reference = leftElem
+			rtp.Reference = e
 			e = rtp
 		case *sqlast.QualifiedJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
-- 
2.43.0


From e1fc1a0dc11e1baae593e9a145d50dd40ffcf9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 11/75] fix: make NATURAL JOIN left associative like the other
 joins

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index f0f1a64..77d79db 100644
--- a/parser.go
+++ b/parser.go
@@ -1708,7 +1708,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 			return nil, errors.Errorf("parse natural join type failed: %w", err)
 		}
 		p.expectKeyword("JOIN")
-		rightElem, err := p.parseTableReference()
+		rightElem, err := p.parseTableFactor()
 		if err != nil {
 			return nil, errors.Errorf("parse natural join right element failed: %w", err)
 		}
-- 
2.43.0


From 7f85604d3b2ee19fcb3dd2073ea374659fa2a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 12/75] fix: parse the closing parenthesis of a table function
 call and print f()

---
 parser.go       | 18 ++++++++++++++----
 sqlast/query.go |  6 +++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 77d79db..2e95be5 100644
--- a/parser.go
+++ b/parser.go
@@ -1880,12 +1880,21 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		return nil, errors.Errorf("parseObjectName failed: %w", err)
 	}
 	var args []sqlast.Node
+	var argsRParen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		a, err := p.parseOptionalArgs()
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
 		args = a
+		if args == nil {
+			args = []sqlast.Node{} // f() is not the table f
+		}
+		r, _ := p.nextToken()
+		if r == nil || r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
+		argsRParen = r.To
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
@@ -1904,10 +1913,11 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	}
 
 	return &sqlast.Table{
-		Name:      name,
-		Args:      args,
-		Alias:     alias,
-		WithHints: withHints,
+		Name:       name,
+		Args:       args,
+		ArgsRParen: argsRParen,
+		Alias:      alias,
+		WithHints:  withHints,
 	}, nil
 
 }
diff --git a/sqlast/query.go b/sqlast/query.go
index 8638133..f7f2dbe 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -307,7 +307,7 @@ type Table struct {
 	tableReference
 	Name            *ObjectName
 	Alias           *Ident
-	Args            []Node
+	Args            []Node // arguments of a table function, nil for a plain table
 	ArgsRParen      sqltoken.Pos
 	WithHints       []Node
 	WithHintsRParen sqltoken.Pos
@@ -326,7 +326,7 @@ func (t *Table) End() sqltoken.Pos {
 		return t.Alias.End()
 	}
 
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		return t.ArgsRParen
 	}
 
@@ -340,7 +340,7 @@ func (t *Table) ToSQLString() string {
 func (t *Table) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Node(t.Name)
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		sw.LParen().Nodes(t.Args).RParen()
 	}
 	if t.Alias != nil {
-- 
2.43.0


From b7fe1d19a5d0952e2badaf819931e760cf1d094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 13/75] fix: keep the column constraints that precede DEFAULT
 or AUTO_INCREMENT

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 2e95be5..8e992ab 100644
--- a/parser.go
+++ b/parser.go
@@ -916,7 +916,7 @@ COLUMN_DEF_LOOP:
 			if err != nil {
 				return nil, nil, nil, errors.Errorf("parseColumnConstraints failed: %w", err)
 			}
-			specs = s
+			specs = append(specs, s...)
 		case "AUTO_INCREMENT":
 			p.mustNextToken()
 			decorates = append(decorates, &sqlast.AutoIncrement{
-- 
2.43.0


From 435176257cde9e125fa1e76fa21982b751f4f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 14/75] fix: reject a CONSTRAINT name that no constraint
 follows

---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index 8e992ab..a16f85e 100644
--- a/parser.go
+++ b/parser.go
@@ -956,6 +956,9 @@ CONSTRAINT_LOOP:
 
 		tok, _ = p.peekToken()
 		if tok.Kind != sqltoken.SQLKeyword {
+			if name != nil {
+				return nil, errors.Errorf("expected a constraint after CONSTRAINT %s but %+v", name.Value, tok)
+			}
 			break
 		}
 
@@ -1023,6 +1026,9 @@ CONSTRAINT_LOOP:
 				RParen: r.To,
 			}
 		default:
+			if name != nil {
+				return nil, errors.Errorf("expected a constraint after CONSTRAINT %s but %+v", name.Value, tok)
+			}
 			break CONSTRAINT_LOOP
 		}
 
-- 
2.43.0


From f91e5a54df914076ddd0111854f8f61a67a33dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 15/75] fix: parse the bounds of BETWEEN as expressions

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index a16f85e..ce94612 100644
--- a/parser.go
+++ b/parser.go
@@ -2174,14 +2174,15 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 }
 
 func (p *Parser) parseBetween(expr sqlast.Node, negated bool) (sqlast.Node, error) {
-	low, err := p.parsePrefix()
+	// the bounds bind tighter than comparison operators
+	low, err := p.parseSubexpr(20)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr failed: %w", err)
 	}
 	p.expectKeyword("AND")
-	high, err := p.parsePrefix()
+	high, err := p.parseSubexpr(20)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr failed: %w", err)
 	}
 
 	return &sqlast.Between{
-- 
2.43.0


From 4d31597f18f83e1c654ab8d938c12d925a77992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 16/75] fix: give NOT IN, NOT LIKE and NOT BETWEEN the
 precedence of IN, LIKE and BETWEEN

---
 parser.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parser.go b/parser.go
index ce94612..534bcab 100644
--- a/parser.go
+++ b/parser.go
@@ -2199,6 +2199,23 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	if tok == nil {
 		return 0, nil
 	}
+	if ok, _, _ := p.parseKeyword("NOT"); ok {
+		// an infix NOT belongs to the operator it negates
+		negated, err := p.peekToken()
+		p.prevToken()
+		if err != nil {
+			return 0, nil
+		}
+		word, ok := negated.Value.(*sqltoken.SQLWord)
+		if !ok {
+			return 0, nil
+		}
+		switch word.Keyword {
+		case "IN", "BETWEEN", "LIKE":
+			return p.getPrecedence(negated), nil
+		}
+		return 0, nil
+	}
 	return p.getPrecedence(tok), nil
 }
 
-- 
2.43.0


From a3a95eef223508ef60717bfaf4e269989778cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 17/75] fix: reject an integer literal that does not fit in 64
 bits instead of changing its value

---
 parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 534bcab..cfabe04 100644
--- a/parser.go
+++ b/parser.go
@@ -2407,7 +2407,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		p.prevToken()
 		v, err := p.parseSQLValue()
 		if err != nil {
-			return nil, errors.Errorf("parseSQLValue failed", err)
+			return nil, errors.Errorf("parseSQLValue failed: %w", err)
 		}
 		return v, nil
 	case sqltoken.LParen:
@@ -2703,9 +2703,12 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 				Double: f,
 			}, nil
 		} else {
-			i, _ := strconv.Atoi(num)
+			i, err := strconv.ParseInt(num, 10, 64)
+			if err != nil {
+				return nil, errors.Errorf("parseInt failed: %w", err)
+			}
 			return &sqlast.LongValue{
-				Long: int64(i),
+				Long: i,
 				From: tok.From,
 				To:   tok.To,
 			}, nil
-- 
2.43.0


From fc114f57578c6d4b525384af04227847573bdd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 18/75] fix: reject a dangling AS at the end of the input

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index cfabe04..d64f979 100644
--- a/parser.go
+++ b/parser.go
@@ -1579,6 +1579,9 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	maybeAlias, _ := p.nextToken()
 
 	if maybeAlias == nil {
+		if afterAs {
+			fail("expected an identifier after AS")
+		}
 		return nil
 	}
 
-- 
2.43.0


From d51ba2781a80588817f296551700de9a040d2701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 19/75] fix: parse BIGINT at the end of the input

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index d64f979..f3b5a69 100644
--- a/parser.go
+++ b/parser.go
@@ -251,8 +251,8 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Int{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "BIGINT":
-		unsigned, u, _ := p.parseKeyword("UNSIGNED")
-		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: u.To}, nil
+		unsigned, pos := p.parseMyUnsigned()
+		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "VARCHAR":
 		p, r, err := p.parseOptionalPrecision()
 		if err != nil {
-- 
2.43.0


From 83828965eb5dcfff68002f9cdfbd6d3ff6f7663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 20/75] fix: accept NUMERIC without a precision

---
 parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index f3b5a69..3e9af42 100644
--- a/parser.go
+++ b/parser.go
@@ -314,10 +314,13 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalPrecisionScale failed: %w", err)
 		}
-		p.prevToken()
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %s", r)
+		r := tok // without a precision, NUMERIC itself ends the type
+		if precision != nil {
+			p.prevToken()
+			r, _ = p.nextToken()
+			if r.Kind != sqltoken.RParen {
+				return nil, errors.Errorf("expected RParen but %s", r)
+			}
 		}
 
 		unsigned, pos := p.parseMyUnsigned()
-- 
2.43.0


From 39b625e7b90e8b719dbdba858450b5b2ba570663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 21/75] fix: keep MATERIALIZED of CREATE MATERIALIZED VIEW,
 report bad reference columns

---
 parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3e9af42..902ce1f 100644
--- a/parser.go
+++ b/parser.go
@@ -578,7 +578,12 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	vok, _, _ := p.parseKeyword("VIEW")
 
 	if mok || vok {
-		p.prevToken()
+		if vok {
+			p.prevToken()
+		}
+		if mok {
+			p.prevToken()
+		}
 		return p.parseCreateView(t)
 	}
 
@@ -843,6 +848,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		w := t.Value.(*sqltoken.SQLWord)
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
+		if err != nil {
+			return nil, errors.Errorf("parseColumnNames failed: %w", err)
+		}
 		r, _ := p.nextToken()
 		if r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
-- 
2.43.0


From 58777352c3b1c1b4de8ed994e8893a78e894459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 22/75] fix: parse comma separated table options

---
 parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 902ce1f..65524a9 100644
--- a/parser.go
+++ b/parser.go
@@ -1064,7 +1064,14 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 		}
 
 		if tok.Kind == sqltoken.Comma {
-			tok = p.mustNextToken()
+			p.mustNextToken()
+			tok, err = p.peekToken()
+			if err != nil {
+				return nil, errors.Errorf("expected a table option after ',': %w", err)
+			}
+			if tok.Kind != sqltoken.SQLKeyword {
+				return nil, errors.Errorf("expected a table option after ',' but: %v", tok)
+			}
 		}
 		if tok.Kind != sqltoken.SQLKeyword {
 			break
-- 
2.43.0


From 76fd653778355df8e7a460e00ec1a8c9791f9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 23/75] fix: walk the children with the visitor that Visit
 returned

---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..71303f0 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From dd1032f505dfd1adafc4b60655d7d0a4f26583cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 24/75] fix: visit every child node in Walk and skip the absent
 ones

---
 sqlast/walk.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 71303f0..0a57914 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -71,7 +71,16 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
+		for i, c := range n.Conditions {
+			Walk(v, c)
+			Walk(v, n.Results[i])
+		}
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -157,8 +166,11 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Ref)
 	case *JoinType:
 	// nothing to do
+	case *PartitionedJoinTable:
+		Walk(v, n.Factor)
+		walkIdentLists(v, n.ColumnList)
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
@@ -241,9 +253,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -271,7 +283,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
@@ -285,6 +299,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -309,9 +330,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, d := range n.MyDataTypeDecoration {
+			Walk(v, d)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
-- 
2.43.0


From f94eab967de8f230360c7a2246bd90a309dcce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 25/75] fix: walk child nodes in source order, as comment
 association expects

---
 sqlast/walk.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 0a57914..20b6cbe 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -125,15 +125,15 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Limit)
 		}
 	case *CTE:
-		Walk(v, n.Query)
 		Walk(v, n.Alias)
+		Walk(v, n.Query)
 	case *SelectExpr:
 		Walk(v, n.Select)
 	case *QueryExpr:
 		Walk(v, n.Query)
 	case *SetOperationExpr:
-		Walk(v, n.Op)
 		Walk(v, n.Left)
+		Walk(v, n.Op)
 		Walk(v, n.Right)
 	case *UnionOperator:
 		// nothing to do
@@ -178,14 +178,14 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Type)
 		Walk(v, n.RightElement)
 	case *CrossJoin:
-		Walk(v, n.Factor)
 		Walk(v, n.Reference)
+		Walk(v, n.Factor)
 	case *Table:
 		Walk(v, n.Name)
+		walkASTNodeLists(v, n.Args)
 		if n.Alias != nil {
 			Walk(v, n.Alias)
 		}
-		walkASTNodeLists(v, n.Args)
 		walkASTNodeLists(v, n.WithHints)
 	case *Derived:
 		Walk(v, n.SubQuery)
@@ -381,10 +381,10 @@ func Walk(v Visitor, node Node) {
 			Walk(v, t)
 		}
 	case *CreateIndexStmt:
-		Walk(v, n.TableName)
 		if n.IndexName != nil {
 			Walk(v, n.IndexName)
 		}
+		Walk(v, n.TableName)
 		if n.MethodName != nil {
 			Walk(v, n.MethodName)
 		}
-- 
2.43.0


From 68db25a03161e9c3f74f4fa57d699b8ec628b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 26/75] fix: name the field that holds the query, so that
 Cursor.Replace works on it

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..14e5c5f 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -171,9 +171,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CaseExpr:
 		a.apply(n, "Operand", nil, n.Operand)
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -203,12 +203,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -348,7 +348,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From b568ce256094c776dbec0fbdb8e551bae76cff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 27/75] fix: apply the callbacks to every child node and skip
 the absent ones

---
 sqlastutil/rewrite.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 14e5c5f..0d61d13 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -169,7 +169,14 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
+		a.applyList(n, "Conditions")
+		a.applyList(n, "Results")
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -238,6 +245,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Ref", nil, n.Ref)
 	case *sqlast.JoinType:
 		// nothing to do
+	case *sqlast.PartitionedJoinTable:
+		a.apply(n, "Factor", nil, n.Factor)
+		a.applyList(n, "ColumnList")
+	case *sqlast.NamedColumnsJoin:
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
@@ -320,9 +332,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -340,7 +352,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
@@ -352,6 +366,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -376,7 +395,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
-- 
2.43.0


From 0571aaf1dba0e71831d1a8cc5d15ab2b9966703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 28/75] fix: report an input that cannot be tokenized instead
 of crashing in astprinter

---
 cmd/astprinter/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/astprinter/main.go b/cmd/astprinter/main.go
index fd46503..eef250e 100644
--- a/cmd/astprinter/main.go
+++ b/cmd/astprinter/main.go
@@ -29,7 +29,10 @@ func main() {
 		src = file
 	}
 
-	parser, _ := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	parser, err := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	if err != nil {
+		log.Fatal(err)
+	}
 	stmt, err := parser.ParseStatement()
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From 8ebf428a072a77f8a79755bba4754227b5bbcf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 29/75] fix: SubQuery starts at its opening parenthesis

---
 sqlast/ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..f2a5fcf 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -510,11 +510,11 @@ type SubQuery struct {
 }
 
 func (s *SubQuery) Pos() sqltoken.Pos {
-	return s.RParen
+	return s.LParen
 }
 
 func (s *SubQuery) End() sqltoken.Pos {
-	return s.LParen
+	return s.RParen
 }
 
 func (s *SubQuery) ToSQLString() string {
-- 
2.43.0


From 4cdcc75a426725c11f967e3162fa4a258b816e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 30/75] fix: record the position of a set operator

---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 65524a9..0b32c91 100644
--- a/parser.go
+++ b/parser.go
@@ -458,11 +458,11 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 	word := token.Value.(*sqltoken.SQLWord)
 	switch word.Keyword {
 	case "UNION":
-		return &sqlast.UnionOperator{}
+		return &sqlast.UnionOperator{From: token.From, To: token.To}
 	case "EXCEPT":
-		return &sqlast.ExceptOperator{}
+		return &sqlast.ExceptOperator{From: token.From, To: token.To}
 	case "INTERSECT":
-		return &sqlast.IntersectOperator{}
+		return &sqlast.IntersectOperator{From: token.From, To: token.To}
 	}
 
 	return nil
-- 
2.43.0


From 68ee8e7357f87d31c4b58381fc1e55d5f9dbc14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 31/75] fix: record the parentheses of a parenthesised query

---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 0b32c91..86d4e27 100644
--- a/parser.go
+++ b/parser.go
@@ -402,14 +402,18 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 		}
 		s.Select = tok.From
 		expr = s
-	} else if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	} else if lparen, _ := p.peekToken(); lparen != nil && lparen.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
+		rparen, _ := p.peekToken()
 		p.expectToken(sqltoken.RParen)
 		expr = &sqlast.QueryExpr{
-			Query: subquery,
+			LParen: lparen.From,
+			RParen: rparen.To,
+			Query:  subquery,
 		}
 	} else {
 		fail("expect SELECT or subquery in the query body")
-- 
2.43.0


From de385aa90a0fb9b5b5bf3f967cda2e6c3a131b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 32/75] fix: record the extent of CREATE INDEX

---
 parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 86d4e27..0da5687 100644
--- a/parser.go
+++ b/parser.go
@@ -595,7 +595,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
 
 	if iok || uiok {
-		return p.parseCreateIndex(uiok)
+		return p.parseCreateIndex(t, uiok)
 	}
 
 	fail("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
@@ -651,7 +651,7 @@ func (p *Parser) parseCreateView(create *sqltoken.Token) (sqlast.Stmt, error) {
 
 }
 
-func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
+func (p *Parser) parseCreateIndex(create *sqltoken.Token, unique bool) (sqlast.Stmt, error) {
 	var indexName *sqlast.Ident
 	ok, _, _ := p.parseKeyword("ON")
 	if !ok {
@@ -678,12 +678,15 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	var columns []*sqlast.Ident
+	var rparen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		columns, err = p.parseColumnNames()
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
+		r, _ := p.peekToken()
 		p.expectToken(sqltoken.RParen)
+		rparen = r.To
 	}
 
 	var selection sqlast.Node
@@ -696,6 +699,8 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	return &sqlast.CreateIndexStmt{
+		Create:      create.From,
+		RParen:      rparen,
 		IsUnique:    unique,
 		IndexName:   indexName,
 		TableName:   tableName,
-- 
2.43.0


From 7303cf8e2b5a9d654aef520c8f9f0572d19bcdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 33/75] fix: record the extent of INNER, RIGHT, FULL and OUTER
 join types

---
 parser.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index 0da5687..d6bfdd2 100644
--- a/parser.go
+++ b/parser.go
@@ -1781,7 +1781,11 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 				Ref: ref,
 			},
 			Spec: spec,
-			Type: &sqlast.JoinType{Condition: sqlast.INNER},
+			Type: &sqlast.JoinType{
+				Condition: sqlast.INNER,
+				From:      tok.From,
+				To:        tok.To,
+			},
 		}, nil
 	case "LEFT", "RIGHT", "FULL", "JOIN":
 		p.prevToken()
@@ -1829,12 +1833,12 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "LEFT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, outerTok, _ := p.parseKeyword("OUTER")
 		if outer {
 			return &sqlast.JoinType{
 				Condition: sqlast.LEFTOUTER,
 				From:      tok.From,
-				To:        tok.To,
+				To:        outerTok.To,
 			}, nil
 		}
 		return &sqlast.JoinType{
@@ -1843,17 +1847,33 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "RIGHT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, outerTok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER}, nil
+			return &sqlast.JoinType{
+				Condition: sqlast.RIGHTOUTER,
+				From:      tok.From,
+				To:        outerTok.To,
+			}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.RIGHT}, nil
+		return &sqlast.JoinType{
+			Condition: sqlast.RIGHT,
+			From:      tok.From,
+			To:        tok.To,
+		}, nil
 	case "FULL":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, outerTok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.FULLOUTER}, nil
+			return &sqlast.JoinType{
+				Condition: sqlast.FULLOUTER,
+				From:      tok.From,
+				To:        outerTok.To,
+			}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.FULL}, nil
+		return &sqlast.JoinType{
+			Condition: sqlast.FULL,
+			From:      tok.From,
+			To:        tok.To,
+		}, nil
 	case "JOIN":
 		p.prevToken()
 		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
-- 
2.43.0


From 1a094c790e11f4bb470156eb9d8ed9651fae9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 34/75] fix: record the extent of USING (columns)

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index d6bfdd2..66ca0a4 100644
--- a/parser.go
+++ b/parser.go
@@ -1894,7 +1894,7 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 		}, nil
 	}
 
-	ok, _, _ := p.parseKeyword("USING")
+	ok, using, _ := p.parseKeyword("USING")
 	if !ok {
 		tok, _ := p.nextToken()
 		return nil, errors.Errorf("unknown join spec need USING or ON but: %v", tok)
@@ -1905,10 +1905,13 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 	if err != nil {
 		return nil, errors.Errorf("parse named columns join list failed: %w", err)
 	}
+	r, _ := p.peekToken()
 	p.expectToken(sqltoken.RParen)
 
 	return &sqlast.NamedColumnsJoin{
 		ColumnList: idents,
+		Using:      using.From,
+		RParen:     r.To,
 	}, nil
 }
 
-- 
2.43.0


From 36c26a901a9805b49715e0e14e48b5d36c385ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 35/75] fix: record the extent of a derived table

---
 parser.go       | 21 +++++++++++++++------
 sqlast/query.go |  4 ++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index 66ca0a4..f9f1e5f 100644
--- a/parser.go
+++ b/parser.go
@@ -1916,20 +1916,29 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 }
 
 func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
-	isLateral, _, _ := p.parseKeyword("LATERAL")
-	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	isLateral, lateral, _ := p.parseKeyword("LATERAL")
+	if lparen, _ := p.peekToken(); lparen != nil && lparen.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
+		rparen, _ := p.peekToken()
 		p.expectToken(sqltoken.RParen)
 		alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
+		var lateralPos sqltoken.Pos
+		if isLateral {
+			lateralPos = lateral.From
+		}
 		return &sqlast.Derived{
-			Lateral:  isLateral,
-			SubQuery: subquery,
-			Alias:    alias,
+			Lateral:    isLateral,
+			LateralPos: lateralPos,
+			LParen:     lparen.From,
+			RParen:     rparen.To,
+			SubQuery:   subquery,
+			Alias:      alias,
 		}, nil
-	} else if isLateral && !ok {
+	} else if isLateral {
 		t, _ := p.nextToken()
 		return nil, errors.Errorf("after lateral expected %s but %+v", sqltoken.LParen, t)
 	}
diff --git a/sqlast/query.go b/sqlast/query.go
index f7f2dbe..5e883cb 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -356,7 +356,7 @@ type Derived struct {
 	tableFactor
 	tableReference
 	Lateral    bool
-	LateralPos sqltoken.Pos // last position of LATERAL keyword if Lateral is true
+	LateralPos sqltoken.Pos // first position of LATERAL keyword if Lateral is true
 	LParen     sqltoken.Pos
 	RParen     sqltoken.Pos
 	SubQuery   *QueryStmt
@@ -375,7 +375,7 @@ func (d *Derived) End() sqltoken.Pos {
 		return d.Alias.End()
 	}
 
-	return d.LParen
+	return d.RParen
 }
 
 func (d *Derived) ToSQLString() string {
-- 
2.43.0


From 618b3bbf5484a1e1dcb840294d49fe375b053782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 36/75] fix: record where WITH (hints) ends

---
 parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index f9f1e5f..53d3f3e 100644
--- a/parser.go
+++ b/parser.go
@@ -1967,6 +1967,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
 	var withHints []sqlast.Node
+	var withHintsRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("WITH"); ok {
 		if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 			h, err := p.parseExprList()
@@ -1974,18 +1975,21 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 				return nil, errors.Errorf("parseExprList failed: %w", err)
 			}
 			withHints = h
+			r, _ := p.peekToken()
 			p.expectToken(sqltoken.RParen)
+			withHintsRParen = r.To
 		} else {
 			p.prevToken()
 		}
 	}
 
 	return &sqlast.Table{
-		Name:       name,
-		Args:       args,
-		ArgsRParen: argsRParen,
-		Alias:      alias,
-		WithHints:  withHints,
+		Name:            name,
+		Args:            args,
+		ArgsRParen:      argsRParen,
+		Alias:           alias,
+		WithHints:       withHints,
+		WithHintsRParen: withHintsRParen,
 	}, nil
 
 }
-- 
2.43.0


From dc9118d831359b4b9b0fa00605bda65c1879f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 37/75] fix: record the extent of OFFSET's value

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 53d3f3e..636c302 100644
--- a/parser.go
+++ b/parser.go
@@ -2005,8 +2005,8 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 	}
 
 	var offset *sqlast.LongValue
-	if ok, tok, _ := p.parseKeyword("OFFSET"); ok {
-		o, _, err := p.parseLiteralInt()
+	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
+		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
-- 
2.43.0


From 15a8bd8a9ea6949a8b18d3101a928d11f68b3f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 38/75] fix: record the extent of LIMIT ALL

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 636c302..c552057 100644
--- a/parser.go
+++ b/parser.go
@@ -1995,8 +1995,8 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
-	if ok, _, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true}, nil
+	if ok, all, _ := p.parseKeyword("ALL"); ok {
+		return &sqlast.LimitExpr{All: true, AllPos: all.To}, nil
 	}
 
 	i, tok, err := p.parseLiteralInt()
-- 
2.43.0


From 12025d92adfabf8f9054da43e95e8c6177b84806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 39/75] fix: give an implicit join type the position of its
 JOIN

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index c552057..aaa98f4 100644
--- a/parser.go
+++ b/parser.go
@@ -1876,7 +1876,11 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 		}, nil
 	case "JOIN":
 		p.prevToken()
-		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
+		return &sqlast.JoinType{
+			Condition: sqlast.IMPLICIT,
+			From:      tok.From,
+			To:        tok.From,
+		}, nil
 	default:
 		return nil, errors.Errorf("unknown join type: %v", word)
 	}
-- 
2.43.0


From 5ca7fe1813031ce12bcc9df6b99e0f60d7648873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 40/75] fix: parse OFFSET after LIMIT ALL

---
 parser.go       | 31 +++++++++++++++----------------
 sqlast/query.go |  8 ++++----
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/parser.go b/parser.go
index aaa98f4..0e6a5a4 100644
--- a/parser.go
+++ b/parser.go
@@ -1999,36 +1999,35 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
+	limit := &sqlast.LimitExpr{}
 	if ok, all, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true, AllPos: all.To}, nil
-	}
-
-	i, tok, err := p.parseLiteralInt()
-	if err != nil {
-		return nil, errors.Errorf("invalid limit value: %w", err)
+		limit.All = true
+		limit.AllPos = all.To
+	} else {
+		i, tok, err := p.parseLiteralInt()
+		if err != nil {
+			return nil, errors.Errorf("invalid limit value: %w", err)
+		}
+		limit.LimitValue = &sqlast.LongValue{
+			Long: int64(i),
+			From: tok.From,
+			To:   tok.To,
+		}
 	}
 
-	var offset *sqlast.LongValue
 	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
 		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
-		offset = &sqlast.LongValue{
+		limit.OffsetValue = &sqlast.LongValue{
 			Long: int64(o),
 			From: tok.From,
 			To:   tok.To,
 		}
 	}
 
-	return &sqlast.LimitExpr{
-		LimitValue: &sqlast.LongValue{
-			Long: int64(i),
-			From: tok.From,
-			To:   tok.To,
-		},
-		OffsetValue: offset,
-	}, nil
+	return limit, nil
 }
 
 func (p *Parser) parseIdentifier() (*sqlast.Ident, error) {
diff --git a/sqlast/query.go b/sqlast/query.go
index 5e883cb..8b9d575 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -766,13 +766,13 @@ func (l *LimitExpr) Pos() sqltoken.Pos {
 }
 
 func (l *LimitExpr) End() sqltoken.Pos {
-	if l.All {
-		return l.AllPos
-	}
-
 	if l.OffsetValue != nil {
 		return l.OffsetValue.To
 	}
+
+	if l.All {
+		return l.AllPos
+	}
 	return l.LimitValue.To
 }
 
-- 
2.43.0


From 12a4147e560a7643065201f4818987bbdb25db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 41/75] fix: give a :: cast the extent of its operand and type

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0e6a5a4..d70b8de 100644
--- a/parser.go
+++ b/parser.go
@@ -2190,7 +2190,6 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	return nil, nil
 }
 
-// TODO position
 func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 	tp, err := p.ParseDataType()
 	if err != nil {
@@ -2199,6 +2198,8 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 	return &sqlast.Cast{
 		Expr:     expr,
 		DataType: tp,
+		Cast:     expr.Pos(),
+		RParen:   tp.End(),
 	}, nil
 }
 
-- 
2.43.0


From 095198e75b4e41e094ded25fb0e3ee4acd76cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 42/75] fix: record the position of a NOT operator

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index d70b8de..3e86f74 100644
--- a/parser.go
+++ b/parser.go
@@ -2384,7 +2384,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			}
 			return &sqlast.UnaryExpr{
 				From: tok.From,
-				Op:   &sqlast.Operator{Type: sqlast.Not},
+				Op:   &sqlast.Operator{Type: sqlast.Not, From: tok.From, To: tok.To},
 				Expr: expr,
 			}, nil
 		default:
-- 
2.43.0


From d40e8e1d8f615c6b118ae35cffbcc69585a6c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 43/75] fix: record the extent of NOT LIKE

---
 parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 3e86f74..1dce910 100644
--- a/parser.go
+++ b/parser.go
@@ -2101,6 +2101,8 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return nil, errors.Errorf("nextToken failed: %w", err)
 	}
 
+	to := tok.To
+
 	switch tok.Kind {
 	case sqltoken.Eq:
 		operator = sqlast.Eq
@@ -2134,9 +2136,10 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		case "LIKE":
 			operator = sqlast.Like
 		case "NOT":
-			ok, _, _ := p.parseKeyword("LIKE")
+			ok, like, _ := p.parseKeyword("LIKE")
 			if ok {
 				operator = sqlast.NotLike
+				to = like.To
 			}
 		}
 	}
@@ -2149,7 +2152,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		return &sqlast.BinaryExpr{
 			Left:  expr,
-			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: tok.To},
+			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: to},
 			Right: right,
 		}, nil
 	}
-- 
2.43.0


From f5ab7f4cf81b32334c53d5d87085adb47f646056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 44/75] fix: record the positions of ASC and DESC

---
 parser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 1dce910..99286c6 100644
--- a/parser.go
+++ b/parser.go
@@ -2614,17 +2614,22 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 		}
 		var asc *bool
 
-		if ok, _, _ := p.parseKeyword("ASC"); ok {
+		var ordering sqltoken.Pos
+
+		if ok, tok, _ := p.parseKeyword("ASC"); ok {
 			b := true
 			asc = &b
-		} else if ok, _, _ := p.parseKeyword("DESC"); ok {
+			ordering = tok.To
+		} else if ok, tok, _ := p.parseKeyword("DESC"); ok {
 			b := false
 			asc = &b
+			ordering = tok.To
 		}
 
 		exprList = append(exprList, &sqlast.OrderByExpr{
-			Expr: expr,
-			ASC:  asc,
+			Expr:        expr,
+			OrderingPos: ordering,
+			ASC:         asc,
 		})
 
 		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
-- 
2.43.0


From 7514250ae584243e33fceaf33581933fd7e3b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 45/75] fix: record where the OVER clause of a function ends

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 99286c6..2ea8f3f 100644
--- a/parser.go
+++ b/parser.go
@@ -2538,6 +2538,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 	}
 
 	var over *sqlast.WindowSpec
+	var overRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("OVER"); ok {
 		p.expectToken(sqltoken.LParen)
 
@@ -2573,6 +2574,10 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		if err != nil {
 			return nil, errors.Errorf("parseWindowFrame failed: %w", err)
 		}
+		if rparen, _ := p.peekToken(); rparen != nil {
+			overRParen = rparen.To
+		}
+		p.expectToken(sqltoken.RParen)
 
 		over = &sqlast.WindowSpec{
 			PartitionBy:  partitionBy,
@@ -2588,6 +2593,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		Args:       args,
 		Over:       over,
 		ArgsRParen: r.To,
+		OverRparen: overRParen,
 	}, nil
 }
 
@@ -2684,7 +2690,6 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		}
 	}
 
-	p.expectToken(sqltoken.RParen)
 	return windowFrame, nil
 }
 
-- 
2.43.0


From a63fc503de0b407c7e81e374f06b7c7ead247c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 46/75] fix: record the positions of a window frame

---
 parser.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index 2ea8f3f..cd04229 100644
--- a/parser.go
+++ b/parser.go
@@ -2661,6 +2661,8 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
 		p.mustNextToken()
+		units.From = t.From
+		units.To = t.To
 
 		if ok, _, _ := p.parseKeyword("BETWEEN"); ok {
 			startBound, err := p.parseWindowFrameBound()
@@ -2694,20 +2696,21 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 }
 
 func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
-	if ok, _, _ := p.parseKeywords("CURRENT", "ROW"); ok {
-		return &sqlast.CurrentRow{}, nil
+	if ok, toks, _ := p.parseKeywords("CURRENT", "ROW"); ok {
+		return &sqlast.CurrentRow{Current: toks[0].From, Row: toks[1].To}, nil
 	}
 
 	var rows *uint64
-	if ok, _, _ := p.parseKeyword("UNBOUNDED"); ok {
-		if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-			return &sqlast.UnboundedPreceding{}, nil
+	var from sqltoken.Pos
+	if ok, unbounded, _ := p.parseKeyword("UNBOUNDED"); ok {
+		if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+			return &sqlast.UnboundedPreceding{Unbounded: unbounded.From, Preceding: tok.To}, nil
 		}
-		if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-			return &sqlast.UnboundedFollowing{}, nil
+		if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+			return &sqlast.UnboundedFollowing{Unbounded: unbounded.From, Following: tok.To}, nil
 		}
 	} else {
-		i, _, err := p.parseLiteralInt()
+		i, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
@@ -2716,13 +2719,14 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 		}
 		ui := uint64(i)
 		rows = &ui
+		from = tok.From
 	}
 
-	if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-		return &sqlast.Preceding{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+		return &sqlast.Preceding{Bound: rows, From: from, Preceding: tok.To}, nil
 	}
-	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-		return &sqlast.Following{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+		return &sqlast.Following{Bound: rows, From: from, Following: tok.To}, nil
 	}
 	fail("expected PRECEDING or FOLLOWING")
 	return nil, nil
-- 
2.43.0


From ba0843234facc070a838ff78be051d9f5c6508ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 47/75] fix: record where IS NULL and IS NOT NULL end

---
 parser.go     | 10 ++++++----
 sqlast/ast.go | 16 ++++++----------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/parser.go b/parser.go
index cd04229..62a496a 100644
--- a/parser.go
+++ b/parser.go
@@ -2162,14 +2162,16 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		switch word.Keyword {
 		case "IS":
-			if ok, _, _ := p.parseKeyword("NULL"); ok {
+			if ok, null, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
-					X: expr,
+					X:    expr,
+					Null: null.To,
 				}, nil
 			}
-			if ok, _, _ := p.parseKeywords("NOT", "NULL"); ok {
+			if ok, toks, _ := p.parseKeywords("NOT", "NULL"); ok {
 				return &sqlast.IsNotNull{
-					X: expr,
+					X:    expr,
+					Null: toks[1].To,
 				}, nil
 			}
 			return nil, errors.Errorf("NULL or NOT NULL after IS")
diff --git a/sqlast/ast.go b/sqlast/ast.go
index f2a5fcf..39c1431 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -167,7 +167,8 @@ func (s *CompoundIdent) WriteTo(w io.Writer) (int64, error) {
 
 // ` X IS NULL`
 type IsNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL keyword
 }
 
 func (s *IsNull) Pos() sqltoken.Pos {
@@ -175,10 +176,7 @@ func (s *IsNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 8,
-	}
+	return s.Null
 }
 
 func (s *IsNull) ToSQLString() string {
@@ -191,7 +189,8 @@ func (s *IsNull) WriteTo(w io.Writer) (int64, error) {
 
 // `X IS NOT NULL`
 type IsNotNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL keyword
 }
 
 func (s *IsNotNull) Pos() sqltoken.Pos {
@@ -199,10 +198,7 @@ func (s *IsNotNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNotNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 12,
-	}
+	return s.Null
 }
 
 func (s *IsNotNull) ToSQLString() string {
-- 
2.43.0


From 56754fea48ea0211e3cc7041f25af76c379e8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 48/75] fix: include the wildcard in the extent of a qualified
 wildcard

---
 sqlast/ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 39c1431..6d4f7ed 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -133,7 +133,11 @@ func (s *QualifiedWildcard) Pos() sqltoken.Pos {
 }
 
 func (s *QualifiedWildcard) End() sqltoken.Pos {
-	return s.Idents[len(s.Idents)-1].End()
+	end := s.Idents[len(s.Idents)-1].End()
+	return sqltoken.Pos{
+		Line: end.Line,
+		Col:  end.Col + 2,
+	}
 }
 
 func (s *QualifiedWildcard) ToSQLString() string {
-- 
2.43.0


From c141b94d631fac3688dc09b30cc8efb98fe881c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 49/75] fix: record where VARCHAR without a size ends

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 62a496a..570855e 100644
--- a/parser.go
+++ b/parser.go
@@ -260,7 +260,11 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 
 		}
 		// FIXME Character
-		return &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From}, nil
+		varchar := &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From}
+		if p == nil {
+			varchar.Varying = tok.To
+		}
+		return varchar, nil
 	case "CHAR", "CHARACTER":
 		if ok, v, _ := p.parseKeyword("VARYING"); ok {
 			p, r, err := p.parseOptionalPrecision()
-- 
2.43.0


From 7926b6c90df401cba762cbb5159516c9c2e5dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 50/75] fix: record the positions of DATE

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 570855e..7c0a946 100644
--- a/parser.go
+++ b/parser.go
@@ -281,7 +281,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "UUID":
 		return &sqlast.UUID{From: tok.From, To: tok.To}, nil
 	case "DATE":
-		return &sqlast.Date{}, nil
+		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
 		wok, _, _ := p.parseKeyword("WITH")
 		ook, _, _ := p.parseKeyword("WITHOUT")
-- 
2.43.0


From ccc276fd1b832bb4f4bee29beca39cb2636e4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 51/75] fix: record the positions of REGCLASS and BYTEA

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 7c0a946..b5da082 100644
--- a/parser.go
+++ b/parser.go
@@ -302,7 +302,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		}
 		return &sqlast.Time{}, nil
 	case "REGCLASS":
-		return &sqlast.Regclass{}, nil
+		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
 		if ok, _ := p.consumeToken(sqltoken.LBracket); ok {
 			p.expectToken(sqltoken.RBracket)
@@ -312,7 +312,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		}
 		return &sqlast.Text{}, nil
 	case "BYTEA":
-		return &sqlast.Bytea{}, nil
+		return &sqlast.Bytea{From: tok.From, To: tok.To}, nil
 	case "NUMERIC":
 		precision, scale, err := p.parseOptionalPrecisionScale()
 		if err != nil {
-- 
2.43.0


From a7ba755170730ea666d36b7f9b6fdd9ece61bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 52/75] fix: record the positions of TEXT and TEXT[]

---
 parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index b5da082..9da4937 100644
--- a/parser.go
+++ b/parser.go
@@ -305,12 +305,14 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
 		if ok, _ := p.consumeToken(sqltoken.LBracket); ok {
+			r, _ := p.peekToken()
 			p.expectToken(sqltoken.RBracket)
 			return &sqlast.Array{
-				Ty: &sqlast.Text{},
+				Ty:     &sqlast.Text{From: tok.From, To: tok.To},
+				RParen: r.To,
 			}, nil
 		}
-		return &sqlast.Text{}, nil
+		return &sqlast.Text{From: tok.From, To: tok.To}, nil
 	case "BYTEA":
 		return &sqlast.Bytea{From: tok.From, To: tok.To}, nil
 	case "NUMERIC":
-- 
2.43.0


From 03070a4bdf0961814fb8e7d99871b27e90a1b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 53/75] fix: keep the time zone of TIME and record where TIME
 and TIMESTAMP end

---
 parser.go      | 42 ++++++++++++++++++++++++++++--------------
 sqlast/type.go | 15 +++++++++------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/parser.go b/parser.go
index 9da4937..06e1ac9 100644
--- a/parser.go
+++ b/parser.go
@@ -283,24 +283,23 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "DATE":
 		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
-		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
-		}
+		withTimeZone, zone := p.parseTimeZone()
 		return &sqlast.Timestamp{
 			Timestamp:    tok.From,
-			WithTimeZone: wok,
+			WithTimeZone: withTimeZone,
+			Zone:         zone,
 		}, nil
 	case "TIME":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
-		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
-		}
-		return &sqlast.Time{}, nil
+		withTimeZone, zone := p.parseTimeZone()
+		end := tok.To
+		if zone != (sqltoken.Pos{}) {
+			end = zone
+		}
+		return &sqlast.Time{
+			From:         tok.From,
+			To:           end,
+			WithTimeZone: withTimeZone,
+		}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
@@ -351,6 +350,21 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	}
 }
 
+// parseTimeZone parses the optional WITH TIME ZONE or WITHOUT TIME ZONE after
+// TIME and TIMESTAMP and returns the last position of ZONE, if it is there.
+func (p *Parser) parseTimeZone() (bool, sqltoken.Pos) {
+	with, _, _ := p.parseKeyword("WITH")
+	without := false
+	if !with {
+		without, _, _ = p.parseKeyword("WITHOUT")
+	}
+	if !with && !without {
+		return false, sqltoken.Pos{}
+	}
+	p.expectKeyword("TIME")
+	return with, p.expectKeyword("ZONE").To
+}
+
 func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
 	defer recoverError(&err)
 
diff --git a/sqlast/type.go b/sqlast/type.go
index d1445ff..8984497 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -403,7 +403,8 @@ func (*Date) WriteTo(w io.Writer) (int64, error) {
 }
 
 type Time struct {
-	From, To sqltoken.Pos
+	From, To     sqltoken.Pos
+	WithTimeZone bool
 }
 
 func (t *Time) Pos() sqltoken.Pos {
@@ -414,12 +415,14 @@ func (t *Time) End() sqltoken.Pos {
 	return t.To
 }
 
-func (*Time) ToSQLString() string {
-	return "time"
+func (t *Time) ToSQLString() string {
+	return toSQLString(t)
 }
 
-func (*Time) WriteTo(w io.Writer) (int64, error) {
-	return writeSingleBytes(w, []byte("time"))
+func (t *Time) WriteTo(w io.Writer) (int64, error) {
+	sw := newSQLWriter(w)
+	sw.Bytes([]byte("time")).If(t.WithTimeZone, []byte(" with time zone"))
+	return sw.End()
 }
 
 type Timestamp struct {
@@ -433,7 +436,7 @@ func (t *Timestamp) Pos() sqltoken.Pos {
 }
 
 func (t *Timestamp) End() sqltoken.Pos {
-	if t.WithTimeZone {
+	if t.Zone != (sqltoken.Pos{}) {
 		return t.Zone
 	}
 
-- 
2.43.0


From 416e16990311c592f1a35196692ff2c5bbe93eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 54/75] fix: record where a named column constraint starts

---
 parser.go      | 7 +++++--
 sqlast/stmt.go | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 06e1ac9..a34b590 100644
--- a/parser.go
+++ b/parser.go
@@ -984,8 +984,10 @@ CONSTRAINT_LOOP:
 		}
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
+		var constraintPos sqltoken.Pos
 		var name *sqlast.Ident
 		if ok && word.Keyword == "CONSTRAINT" {
+			constraintPos = tok.From
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -1073,8 +1075,9 @@ CONSTRAINT_LOOP:
 		}
 
 		constraints = append(constraints, &sqlast.ColumnConstraint{
-			Name: name,
-			Spec: spec,
+			Name:       name,
+			Constraint: constraintPos,
+			Spec:       spec,
 		})
 
 	}
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..a2cf31e 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -546,9 +546,9 @@ type ColumnConstraint struct {
 
 func (c *ColumnConstraint) Pos() sqltoken.Pos {
 	if c.Name == nil {
-		return c.Constraint
+		return c.Spec.Pos()
 	}
-	return c.Name.Pos()
+	return c.Constraint
 }
 
 func (c *ColumnConstraint) End() sqltoken.Pos {
-- 
2.43.0


From 9c873a597f02b23ee2e6d27c757248fac3109281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 55/75] fix: end a column definition with whatever comes last
 in it

---
 sqlast/stmt.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index a2cf31e..cac9363 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -478,6 +478,13 @@ func (c *CheckTableConstraint) WriteTo(w io.Writer) (int64, error) {
 		End()
 }
 
+func laterPos(a, b sqltoken.Pos) sqltoken.Pos {
+	if sqltoken.ComparePos(a, b) == -1 {
+		return b
+	}
+	return a
+}
+
 type ColumnDef struct {
 	tableElement
 	Name                 *Ident
@@ -492,7 +499,17 @@ func (c *ColumnDef) Pos() sqltoken.Pos {
 }
 
 func (c *ColumnDef) End() sqltoken.Pos {
-	return c.Constraints[len(c.Constraints)-1].End()
+	end := c.DataType.End()
+	if c.Default != nil {
+		end = laterPos(end, c.Default.End())
+	}
+	if n := len(c.MyDataTypeDecoration); n != 0 {
+		end = laterPos(end, c.MyDataTypeDecoration[n-1].End())
+	}
+	if n := len(c.Constraints); n != 0 {
+		end = laterPos(end, c.Constraints[n-1].End())
+	}
+	return end
 }
 
 func (c *ColumnDef) ToSQLString() string {
-- 
2.43.0


From 1582411073e282816ac6ed71d3ee2ecbf660713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 56/75] fix: give CREATE TABLE an end when it has options or no
 elements

---
 sqlast/stmt.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index cac9363..3f4f137 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -288,7 +288,15 @@ func (c *CreateTableStmt) Pos() sqltoken.Pos {
 }
 
 func (c *CreateTableStmt) End() sqltoken.Pos {
-	return c.Elements[len(c.Elements)-1].End()
+	if len(c.Options) != 0 {
+		return c.Options[len(c.Options)-1].End()
+	}
+
+	if len(c.Elements) != 0 {
+		return c.Elements[len(c.Elements)-1].End()
+	}
+
+	return c.Name.End()
 }
 
 func (c *CreateTableStmt) ToSQLString() string {
-- 
2.43.0


From ccc881e02c59556ca23c3952086facbb654683ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 57/75] fix: print CREATE TABLE and CREATE INDEX without empty
 parentheses and with spaced options

---
 sqlast/stmt.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 3f4f137..fa574b4 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -307,12 +307,16 @@ func (c *CreateTableStmt) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Bytes([]byte("CREATE TABLE "))
 	sw.If(c.NotExists, []byte("IF NOT EXISTS "))
-	sw.Node(c.Name).Space().LParen()
-	for i, element := range c.Elements {
-		sw.JoinComma(i, element)
+	sw.Node(c.Name)
+	if len(c.Elements) != 0 {
+		sw.Space().LParen()
+		for i, element := range c.Elements {
+			sw.JoinComma(i, element)
+		}
+		sw.RParen()
 	}
-	sw.RParen()
 	if len(c.Options) != 0 {
+		sw.Space()
 		for i, option := range c.Options {
 			sw.JoinComma(i, option)
 		}
@@ -1106,7 +1110,9 @@ func (c *CreateIndexStmt) WriteTo(w io.Writer) (int64, error) {
 	if c.MethodName != nil {
 		sw.Bytes([]byte(" USING ")).Node(c.MethodName)
 	}
-	sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	if len(c.ColumnNames) != 0 {
+		sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	}
 	if c.Selection != nil {
 		sw.Bytes([]byte(" WHERE ")).Node(c.Selection)
 	}
-- 
2.43.0


From 939bafe40bc4ed37799b34bd37d8c2e1f504f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 58/75] fix: Pos and End of an empty OVER () and of a file
 without statements

---
 sqlast/ast.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 6d4f7ed..f1cb5c9 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -28,6 +28,12 @@ type File struct {
 }
 
 func (f *File) End() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) != 0 {
+			return f.Comments[len(f.Comments)-1].End()
+		}
+		return sqltoken.Pos{}
+	}
 
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Comments[len(f.Comments)-1].End(), f.Stmts[len(f.Stmts)-1].End()) == 1 {
@@ -39,6 +45,13 @@ func (f *File) End() sqltoken.Pos {
 }
 
 func (f *File) Pos() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) != 0 {
+			return f.Comments[0].Pos()
+		}
+		return sqltoken.Pos{}
+	}
+
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
 			return f.Comments[0].Pos()
@@ -573,7 +586,11 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 		return s.Order
 	}
 
-	return s.WindowsFrame.Pos()
+	if s.WindowsFrame != nil {
+		return s.WindowsFrame.Pos()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) End() sqltoken.Pos {
@@ -585,7 +602,11 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.OrderBy[len(s.OrderBy)-1].End()
 	}
 
-	return s.PartitionBy[len(s.PartitionBy)-1].End()
+	if len(s.PartitionBy) != 0 {
+		return s.PartitionBy[len(s.PartitionBy)-1].End()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) ToSQLString() string {
-- 
2.43.0


From 3ac1b9d935a11b740157d6a5532df474856d30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 59/75] fix: escape quotes in printed string literals

---
 sqlast/value.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index e954b18..43bc306 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,9 +1,9 @@
 package sqlast
 
 import (
-	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/akito0107/xsqlparser/sqltoken"
@@ -112,7 +112,7 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n), err
 	}
-	n1, err := io.WriteString(w, s.String)
+	n1, err := io.WriteString(w, strings.Replace(s.String, "'", "''", -1))
 	if err != nil {
 		return int64(n + n1), err
 	}
@@ -144,7 +144,7 @@ func (n *NationalStringLiteral) Value() interface{} {
 }
 
 func (n *NationalStringLiteral) ToSQLString() string {
-	return fmt.Sprintf("N'%s'", n.String)
+	return toSQLString(n)
 }
 
 func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
@@ -152,7 +152,7 @@ func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n0), err
 	}
-	n1, err := io.WriteString(w, n.String)
+	n1, err := io.WriteString(w, strings.Replace(n.String, "'", "''", -1))
 	if err != nil {
 		return int64(n0 + n1), err
 	}
-- 
2.43.0


From fa5fbba918a60f41013986ef7c2fb86b63acb80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 60/75] fix: print a double so that it stays one

---
 sqlast/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlast/value.go b/sqlast/value.go
index 43bc306..f1bc43e 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,6 +1,7 @@
 package sqlast
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 	"strings"
@@ -76,6 +77,9 @@ func (d *DoubleValue) ToSQLString() string {
 func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
 	var b [32] byte
 	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
+	if bytes.IndexByte(buf, '.') < 0 {
+		buf = append(buf, ".0"...) // without a point it is an integer
+	}
 	n, err := w.Write(buf)
 	return int64(n), err
 }
-- 
2.43.0


From f4f2b61cde3af5e43440328ea032429a2a775d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 61/75] fix: reject a second DEFAULT of a column instead of
 dropping the first

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a34b590..82eb81c 100644
--- a/parser.go
+++ b/parser.go
@@ -944,6 +944,9 @@ COLUMN_DEF_LOOP:
 		switch word.Keyword {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
+				if def != nil {
+					return nil, nil, nil, errors.Errorf("more than one DEFAULT")
+				}
 				d, err := p.parseDefaultExpr(0)
 				if err != nil {
 					return nil, nil, nil, errors.Errorf("parseDefaultExpr failed: %w", err)
@@ -1618,7 +1621,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		}
 		expr, err = p.parseInfix(expr, nextPrecedence)
 		if err != nil {
-			return nil, errors.Errorf("parseInfix failed: %w")
+			return nil, errors.Errorf("parseInfix failed: %w", err)
 		}
 	}
 	return expr, nil
-- 
2.43.0


From a9cd9af9291f49c6850fa01e60b57404d5df12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 62/75] fix: record where EXPLAIN starts

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 82eb81c..6da0069 100644
--- a/parser.go
+++ b/parser.go
@@ -207,7 +207,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		if err != nil {
 			return nil, err
 		}
-		return &sqlast.ExplainStmt{Stmt: stmt}, nil
+		return &sqlast.ExplainStmt{Stmt: stmt, Explain: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word.Keyword)
 	}
-- 
2.43.0


From 88c411cd0d7ec9c47ef8fb2669f5df6f34ccd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 63/75] fix: reject input nested too deeply instead of
 overflowing the stack

---
 parser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parser.go b/parser.go
index 6da0069..488616b 100644
--- a/parser.go
+++ b/parser.go
@@ -19,6 +19,7 @@ type Parser struct {
 	index        uint
 	comments     map[sqltoken.Pos]*sqlast.CommentGroup
 	parseComment bool
+	depth        int // nesting of the construct being parsed
 }
 
 type ParserOption func(*Parser)
@@ -82,6 +83,20 @@ func fail(format string, args ...interface{}) {
 	panic(errors.Errorf(format, args...))
 }
 
+// maxDepth bounds the recursion of the parser: running out of stack cannot be
+// recovered from.
+const maxDepth = 100000
+
+// enter counts one more level of nesting until the returned func is called.
+func (p *Parser) enter() (leave func()) {
+	p.depth++
+	if p.depth > maxDepth {
+		p.depth--
+		fail("the input is nested more than %d levels deep", maxDepth)
+	}
+	return func() { p.depth-- }
+}
+
 // recoverError reports a parse that was given up, or that ran past the last
 // token, as an error.
 func recoverError(err *error) {
@@ -170,6 +185,7 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 
 func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 	defer recoverError(&err)
+	defer p.enter()()
 
 	tok, err := p.nextToken()
 	if err != nil {
@@ -414,6 +430,8 @@ func (p *Parser) parseQuery() (*sqlast.QueryStmt, error) {
 }
 
 func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
+	defer p.enter()()
+
 	var expr sqlast.SQLSetExpr
 	if ok, tok, _ := p.parseKeyword("SELECT"); ok {
 		s, err := p.parseSelect()
@@ -1708,6 +1726,8 @@ func (p *Parser) parseFromClause() ([]sqlast.TableReference, error) {
 }
 
 func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
+	defer p.enter()()
+
 	leftElem, err := p.parseTableFactor()
 	if err != nil {
 		return nil, errors.Errorf("parse joined table left element failed: %w", err)
@@ -2097,6 +2117,8 @@ func (p *Parser) parseColumnNames() ([]*sqlast.Ident, error) {
 }
 
 func (p *Parser) parseSubexpr(precedence uint) (sqlast.Node, error) {
+	defer p.enter()()
+
 	expr, err := p.parsePrefix()
 	if err != nil {
 		return nil, errors.Errorf("parsePrefix failed: %w", err)
-- 
2.43.0


From 2c382f1007b831eb0dcee5b1aae47806d81c6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 64/75] fix: reject SELECT before WITH in a parenthesized query

Only one of the two words was put back, so the SELECT of (SELECT WITH ...)
was silently dropped.
---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 488616b..fc5f501 100644
--- a/parser.go
+++ b/parser.go
@@ -2259,7 +2259,10 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	p.expectToken(sqltoken.LParen)
 	sok, _, _ := p.parseKeyword("SELECT")
-	wok, _, _ := p.parseKeyword("WITH")
+	wok := false
+	if !sok {
+		wok, _, _ = p.parseKeyword("WITH")
+	}
 	var inop sqlast.Node
 	if sok || wok {
 		p.prevToken()
@@ -2535,7 +2538,10 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		return v, nil
 	case sqltoken.LParen:
 		sok, _, _ := p.parseKeyword("SELECT")
-		wok, _, _ := p.parseKeyword("WITH")
+		wok := false
+		if !sok {
+			wok, _, _ = p.parseKeyword("WITH")
+		}
 
 		var ast sqlast.Node
 
-- 
2.43.0


From b56021f7128853ec5fb0630dc49be180c8c064f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 65/75] fix: reject CREATE INDEX UNIQUE INDEX

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index fc5f501..dbc57f3 100644
--- a/parser.go
+++ b/parser.go
@@ -630,7 +630,10 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	iok, _, _ := p.parseKeyword("INDEX")
-	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
+	uiok := false
+	if !iok {
+		uiok, _, _ = p.parseKeywords("UNIQUE", "INDEX")
+	}
 
 	if iok || uiok {
 		return p.parseCreateIndex(t, uiok)
-- 
2.43.0


From 9602b9ba65b9a016643ce0cb0e2ad013ea9e0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 66/75] fix: keep line ends in comments as they are

---
 sqltoken/tokenizer.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index f485f7b..ecce155 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -555,22 +555,9 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 	var mayBeClosingComment bool
 	t.Col += 2
 	for {
-		n := t.Scanner.Next()
-
-		if n == '\r' {
-			if t.Scanner.Peek() == '\n' {
-				t.Scanner.Next()
-			}
-			n = '\n'
-			t.Col = 1
-			t.Line += 1
-		} else if n == '\n' {
-			t.Col = 1
-			t.Line += 1
-		} else if n == scanner.EOF {
+		n := t.consume()
+		if n == scanner.EOF {
 			return "", errors.Errorf("unclosed multiline comment: %s at %+v", string(str), t.Pos())
-		} else {
-			t.Col += 1
 		}
 
 		if mayBeClosingComment {
-- 
2.43.0


From 68eb8bf75fb48254f0a480f410257ba6b67de6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 67/75] fix: LIMIT, HAVING and ON start a clause and are no
 implicit aliases

SELECT a FROM t LIMIT 1 took LIMIT for the alias of t and then failed.
---
 dialect/keywords.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialect/keywords.go b/dialect/keywords.go
index 07f152e..753f95b 100644
--- a/dialect/keywords.go
+++ b/dialect/keywords.go
@@ -356,6 +356,8 @@ func init() {
 
 	ReservedForTableAlias = make(map[string]struct{})
 	ReservedForTableAlias[WITH] = struct{}{}
+	ReservedForTableAlias[HAVING] = struct{}{}
+	ReservedForTableAlias[LIMIT] = struct{}{}
 	ReservedForTableAlias[SELECT] = struct{}{}
 	ReservedForTableAlias[WHERE] = struct{}{}
 	ReservedForTableAlias[GROUP] = struct{}{}
@@ -375,6 +377,9 @@ func init() {
 
 	ReservedForColumnAlias = make(map[string]struct{})
 	ReservedForColumnAlias[WITH] = struct{}{}
+	ReservedForColumnAlias[HAVING] = struct{}{}
+	ReservedForColumnAlias[LIMIT] = struct{}{}
+	ReservedForColumnAlias[ON] = struct{}{}
 	ReservedForColumnAlias[SELECT] = struct{}{}
 	ReservedForColumnAlias[WHERE] = struct{}{}
 	ReservedForColumnAlias[GROUP] = struct{}{}
-- 
2.43.0


From 63f874829ec224b60afcb3538aa332617e4796e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 68/75] fix: report the read error that cut off a quoted token
 or comment

---
 sqltoken/tokenizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index ecce155..e5e27db 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -214,6 +214,10 @@ func (t *Tokenizer) Scan(token *Token) (*Token, error) {
 		return nil, io.EOF
 	}
 	if err != nil {
+		if t.src != nil && t.src.err != nil && t.Scanner.Peek() == scanner.EOF {
+			// the token is incomplete because reading stopped
+			err = errors.Errorf("read failed: %w", t.src.err)
+		}
 		token.Kind = ILLEGAL
 		token.Value = ""
 		token.From = pos
@@ -474,7 +478,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		return RBrace, "}", nil
 	case scanner.EOF == r:
 		if t.src != nil && t.src.err != nil {
-			return ILLEGAL, "", errors.Errorf("read failed: %w", t.src.err)
+			return ILLEGAL, "", t.src.err
 		}
 		return ILLEGAL, "", io.EOF
 	default:
-- 
2.43.0


From 04987817f920e8b8e6401fa1849d9a7af7ed6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 69/75] fix: give CREATE INDEX without a column list an end

---
 sqlast/stmt.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index fa574b4..64a28d0 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -1092,6 +1092,13 @@ func (c *CreateIndexStmt) End() sqltoken.Pos {
 	if c.Selection != nil {
 		return c.Selection.End()
 	}
+	if c.RParen == (sqltoken.Pos{}) {
+		// no list of columns
+		if c.MethodName != nil {
+			return c.MethodName.End()
+		}
+		return c.TableName.End()
+	}
 
 	return c.RParen
 }
-- 
2.43.0


From 6b668e58771b51b320c11f322a2048912eea3026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 70/75] fix: assign comments to statements whose first token is
 not recorded

---
 sqlast/commentmap.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sqlast/commentmap.go b/sqlast/commentmap.go
index 993b759..2a3e31b 100644
--- a/sqlast/commentmap.go
+++ b/sqlast/commentmap.go
@@ -55,10 +55,28 @@ func (r *commentListReader) next() {
 	}
 }
 
+// startOf returns where n starts. The first token of some nodes is not recorded
+// (WITH, LIMIT, VALUES): such a node starts with its first child that has a
+// position.
+func startOf(n Node) sqltoken.Pos {
+	pos := n.Pos()
+	if _, ok := n.(*File); ok {
+		return pos
+	}
+	Inspect(n, func(c Node) bool {
+		if c == nil || pos != (sqltoken.Pos{}) {
+			return false
+		}
+		pos = c.Pos()
+		return true
+	})
+	return pos
+}
+
 type nodeStack []Node
 
 func (s *nodeStack) push(n Node) {
-	s.pop(n.Pos())
+	s.pop(startOf(n))
 	*s = append(*s, n)
 }
 
@@ -100,7 +118,7 @@ func NewCommentMap(file *File) CommentMap {
 	for _, q := range nodes {
 		var qpos sqltoken.Pos
 		if q != nil {
-			qpos = q.Pos()
+			qpos = startOf(q)
 		} else {
 			const infinity = 1 << 30
 			qpos = sqltoken.NewPos(infinity, infinity)
-- 
2.43.0


From 6893022871a60f07a52c4c21fcfec03455188dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 71/75] fix: columns after a name count its characters, not its
 bytes

---
 sqltoken/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index e5e27db..2733234 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strings"
 	"text/scanner"
+	"unicode/utf8"
 
 	errors "golang.org/x/xerrors"
 
@@ -502,7 +503,7 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	}
 
 	str := builder.String()
-	t.Col += len(str)
+	t.Col += utf8.RuneCountInString(str)
 	return str
 }
 
-- 
2.43.0


From 63bbba082a22dfcbbca1a6f934fc7768ed47daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 72/75] fix: a dialect is not asked about the end of the input,
 which is no character of a name

---
 sqltoken/tokenizer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 2733234..b1839b5 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -247,6 +247,12 @@ func (t *Tokenizer) Pos() Pos {
 func (t *Tokenizer) next() (Kind, interface{}, error) {
 	r := t.Scanner.Peek()
 	switch {
+	case scanner.EOF == r:
+		if t.src != nil && t.src.err != nil {
+			return ILLEGAL, "", t.src.err
+		}
+		return ILLEGAL, "", io.EOF
+
 	case ' ' == r:
 		t.Scanner.Next()
 		t.Col += 1
@@ -477,11 +483,6 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		t.Scanner.Next()
 		t.Col += 1
 		return RBrace, "}", nil
-	case scanner.EOF == r:
-		if t.src != nil && t.src.err != nil {
-			return ILLEGAL, "", t.src.err
-		}
-		return ILLEGAL, "", io.EOF
 	default:
 		t.Scanner.Next()
 		t.Col += 1
@@ -494,7 +495,7 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	builder.WriteRune(f)
 	for {
 		r := t.Scanner.Peek()
-		if t.Dialect.IsIdentifierPart(r) {
+		if r != scanner.EOF && t.Dialect.IsIdentifierPart(r) {
 			t.Scanner.Next()
 			builder.WriteRune(r)
 		} else {
-- 
2.43.0


From 4c31ff1eadae19c7630706d85a61a112b6c01a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 73/75] fix: the value of a number literal is its number, not
 the node

---
 sqlast/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index f1bc43e..a0556ee 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -35,7 +35,7 @@ func (l *LongValue) End() sqltoken.Pos {
 }
 
 func (l *LongValue) Value() interface{} {
-	return l
+	return l.Long
 }
 
 func (l *LongValue) ToSQLString() string {
-- 
2.43.0


From d5dfb8d9475c73d66aeb2d85f958660be16dca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 74/75] fix: report input that is not UTF-8 instead of
 replacing its characters

---
 sqltoken/tokenizer.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index b1839b5..fc8a924 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -129,24 +129,55 @@ type Tokenizer struct {
 }
 
 // errReader remembers why reading src failed. text/scanner has no way to return
-// a read error, it takes every error as the end of the input.
+// a read error, it takes every error as the end of the input, and it replaces
+// whatever is not UTF-8.
 type errReader struct {
-	src io.Reader
-	err error
+	src  io.Reader
+	err  error
+	part []byte // the beginning of a character whose other bytes are not read yet
 }
 
 func (r *errReader) Read(p []byte) (int, error) {
 	if r.err != nil {
 		return 0, io.EOF
 	}
-	n, err := r.src.Read(p)
+	k := copy(p, r.part)
+	r.part = r.part[k:]
+	n, err := r.src.Read(p[k:])
+	n += k
 	if err != nil && err != io.EOF {
 		r.err = err
 		err = io.EOF
 	}
+	if valid := validPrefix(p[:n]); valid < n {
+		switch {
+		case utf8.FullRune(p[valid:n]) || err == io.EOF && r.err == nil:
+			r.err = errors.Errorf("invalid UTF-8 encoding: %q", p[valid:n][0])
+			err = io.EOF
+		case err == nil:
+			r.part = append(r.part, p[valid:n]...)
+		}
+		n = valid
+	}
 	return n, err
 }
 
+// validPrefix returns how many bytes of p are whole characters.
+func validPrefix(p []byte) int {
+	if utf8.Valid(p) {
+		return len(p)
+	}
+	i := 0
+	for i < len(p) {
+		r, size := utf8.DecodeRune(p[i:])
+		if r == utf8.RuneError && size == 1 {
+			break
+		}
+		i += size
+	}
+	return i
+}
+
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
 	reader := &errReader{src: src}
-- 
2.43.0


From 7b56e99d1219f3c16d3a30118e99825e480d88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 75/75] fix: do not print a message on standard error for NUL
 characters and byte order marks in the text

---
 sqltoken/tokenizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index fc8a924..72b535d 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -181,9 +181,13 @@ func validPrefix(p []byte) int {
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
 	reader := &errReader{src: src}
+	scan.Init(reader)
+	// without a handler the scanner prints its complaints about characters that
+	// it would not allow in Go
+	scan.Error = func(*scanner.Scanner, string) {}
 	return &Tokenizer{
 		Dialect:      dialect,
-		Scanner:      scan.Init(reader),
+		Scanner:      &scan,
 		Line:         1,
 		Col:          1,
 		parseComment: true,
-- 
2.43.0

