From 7e1af72a5aae72352f58c10e9c3a7e9d68480c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 01/16] fix: report an unclosed delimited identifier instead of
 looping forever

The loop reading a delimited identifier only stopped at the closing quote.
At the end of the source the scanner keeps returning EOF, so the loop never
ended and appended to the identifier until memory ran out.
---
 sqltoken/tokenizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..177bf3a 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -283,6 +283,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == end {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From 924a5fd593e8399671b6fa79acf9043174a9296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 02/16] fix: return the error when reading the source fails

scanner.Scanner takes any read error for the end of the text, so a source
that failed midway was tokenized, and parsed, as if it had ended there.
---
 sqltoken/tokenizer.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 177bf3a..24a1cbe 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -124,19 +124,38 @@ type Tokenizer struct {
 	Line         int
 	Col          int
 	parseComment bool
+	source       *sourceReader
 }
 
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
+	source := &sourceReader{src: src}
 	return &Tokenizer{
 		Dialect:      dialect,
-		Scanner:      scan.Init(src),
+		Scanner:      scan.Init(source),
 		Line:         1,
 		Col:          1,
 		parseComment: true,
+		source:       source,
 	}
 }
 
+// sourceReader remembers the error that ended the source, because
+// scanner.Scanner treats every read error as the end of the text.
+type sourceReader struct {
+	src io.Reader
+	err error
+}
+
+func (r *sourceReader) Read(p []byte) (int, error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+	n, err := r.src.Read(p)
+	r.err = err
+	return n, err
+}
+
 type TokenizerOption func(*Tokenizer)
 
 func Dialect(dialect dialect.Dialect) TokenizerOption {
@@ -188,6 +207,10 @@ func (t *Tokenizer) NextToken() (*Token, error) {
 func (t *Tokenizer) Scan(token *Token) (*Token, error) {
 	pos := t.Pos()
 	tok, str, err := t.next()
+	if srcErr := t.sourceErr(); srcErr != nil {
+		// what next() returned may be cut off, do not hand it out
+		tok, str, err = ILLEGAL, "", srcErr
+	}
 	if err == io.EOF {
 		return nil, io.EOF
 	}
@@ -210,6 +233,18 @@ func (t *Tokenizer) Scan(token *Token) (*Token, error) {
 	return token, nil
 }
 
+// sourceErr returns the error that made reading the source fail, once
+// everything read before the failure has been scanned.
+func (t *Tokenizer) sourceErr() error {
+	if t.source == nil || t.source.err == nil || t.source.err == io.EOF {
+		return nil
+	}
+	if t.Scanner.Peek() != scanner.EOF {
+		return nil
+	}
+	return errors.Errorf("read source failed: %w", t.source.err)
+}
+
 func (t *Tokenizer) Pos() Pos {
 	return Pos{
 		Line: t.Line,
-- 
2.43.0


From 70c53e49430346dcfb86ff11f4e76ebcd7009709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 03/16] fix: accept a select list and BIGINT at the end of the
 input

Both looked at the next token without checking that there is one, so
'SELECT 1' and 'SELECT a::BIGINT' panicked unless something followed.
---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index f0c25ba..cb5fe7b 100644
--- a/parser.go
+++ b/parser.go
@@ -205,8 +205,8 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Int{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "BIGINT":
-		unsigned, u, _ := p.parseKeyword("UNSIGNED")
-		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: u.To}, nil
+		unsigned, pos := p.parseMyUnsigned()
+		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "VARCHAR":
 		p, r, err := p.parseOptionalPrecision()
 		if err != nil {
@@ -505,7 +505,7 @@ func (p *Parser) parseSelectList() ([]sqlast.SQLSelectItem, error) {
 			}
 		}
 
-		if t, _ := p.peekToken(); t.Kind == sqltoken.Comma {
+		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
 			p.mustNextToken()
 		} else {
 			break
-- 
2.43.0


From c6e4b4ea1388f71e3f490abc09f17ab2a19e876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 04/16] fix: return an error instead of panicking on truncated
 or malformed SQL

The parser panicked (log.Panic, failed expectations, missing tokens) and
printed the tokens read so far to stdout when the input ended early or was
not what the grammar requires. Return errors where the signature allows it
and report the remaining panics as the error of the Parse method called.
---
 parser.go | 69 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/parser.go b/parser.go
index cb5fe7b..e8f6107 100644
--- a/parser.go
+++ b/parser.go
@@ -3,7 +3,6 @@ package xsqlparser
 import (
 	"fmt"
 	"io"
-	"log"
 	"sort"
 	"strconv"
 	"strings"
@@ -61,7 +60,22 @@ func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
 	p.tokens = tokens
 }
 
-func (p *Parser) ParseFile() (*sqlast.File, error) {
+// recoverError reports a panic raised while parsing as an error: the parser
+// panics when the tokens end, or are not what the grammar requires, at a place
+// where it cannot return an error. It must be deferred directly.
+func recoverError(err *error) {
+	switch r := recover().(type) {
+	case nil:
+	case error:
+		*err = errors.Errorf("parse failed: %w", r)
+	default:
+		*err = errors.Errorf("parse failed: %v", r)
+	}
+}
+
+func (p *Parser) ParseFile() (file *sqlast.File, err error) {
+	defer recoverError(&err)
+
 	stmts, err := p.ParseSQL()
 	if err != nil {
 		return nil, err
@@ -83,7 +97,9 @@ func (p *Parser) ParseFile() (*sqlast.File, error) {
 	}, nil
 }
 
-func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
+func (p *Parser) ParseSQL() (result []sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	var stmts []sqlast.Stmt
 	var expectingDelimiter bool
 
@@ -126,7 +142,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (stmt sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -169,7 +187,9 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -296,7 +316,9 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (expr sqlast.Node, err error) {
+	defer recoverError(&err)
+
 	return p.parseSubexpr(0)
 }
 
@@ -361,7 +383,7 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 			Query: subquery,
 		}
 	} else {
-		log.Panicln("expect SELECT or subquery in the query body")
+		return nil, errors.Errorf("expect SELECT or subquery in the query body")
 	}
 BODY_LOOP:
 	for {
@@ -538,9 +560,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateIndex(uiok)
 	}
 
-	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
-
-	return nil, nil
+	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
 }
 
 func (p *Parser) parseCreateTable(create *sqltoken.Token) (sqlast.Stmt, error) {
@@ -679,7 +699,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 		t, _ := p.nextToken()
 		if t == nil || (t.Kind != sqltoken.Comma && t.Kind != sqltoken.RParen) {
-			log.Panicf("Expected ',' or ')' after column definition but %v", t)
+			return nil, errors.Errorf("Expected ',' or ')' after column definition but %v", t)
 		} else if t.Kind == sqltoken.RParen {
 			break
 		}
@@ -1006,7 +1026,6 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 		}
 		opt, err := p.parseTableOption()
 		if err != nil {
-			p.Debug()
 			return nil, errors.Errorf("parseTableOption failed: %w", err)
 		}
 		opts = append(opts, opt)
@@ -1541,7 +1560,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 		}
 	}
 	if afterAs {
-		log.Panicf("expected an identifier after AS")
+		panic(errors.New("expected an identifier after AS"))
 	}
 	p.prevToken()
 	return nil
@@ -2054,8 +2073,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return p.parsePGCast(expr)
 	}
 
-	log.Panicf("no infix parser for sqltoken %+v", tok)
-	return nil, nil
+	return nil, errors.Errorf("no infix parser for sqltoken %+v", tok)
 }
 
 // TODO position
@@ -2367,8 +2385,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return ast, nil
 	}
-	log.Panicf("prefix parser expected a keyword but hit EOF")
-	return nil, nil
+	return nil, errors.Errorf("prefix parser expected an expression but %+v", tok)
 }
 
 func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
@@ -2560,8 +2577,7 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
 		return &sqlast.Following{Bound: rows}, nil
 	}
-	log.Panicln("expected PRECEDING or FOLLOWING")
-	return nil, nil
+	return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 }
 
 func (p *Parser) parseObjectName() (*sqlast.ObjectName, error) {
@@ -2869,11 +2885,7 @@ func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
 func (p *Parser) expectKeyword(expected string) *sqltoken.Token {
 	ok, tok, err := p.parseKeyword(expected)
 	if err != nil || !ok {
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be expected keyword: %s err: %v", expected, err)
+		panic(errors.Errorf("should be expected keyword: %s but %+v, err: %v", expected, tok, err))
 	}
 
 	return tok
@@ -2883,12 +2895,7 @@ func (p *Parser) expectToken(expected sqltoken.Kind) {
 	ok, err := p.consumeToken(expected)
 	if err != nil || !ok {
 		tok, _ := p.peekToken()
-
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
+		panic(errors.Errorf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err))
 	}
 }
 
@@ -2911,7 +2918,7 @@ func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
 func (p *Parser) mustNextToken() *sqltoken.Token {
 	tok, err := p.nextToken()
 	if err != nil {
-		log.Panicf("%+v", err)
+		panic(err)
 	}
 
 	return tok
-- 
2.43.0


From cf963acb0bd23e26dadf6d54899406ea6e5c6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 05/16] fix: name the Query field right when rewriting EXISTS,
 subqueries, CTEs and views

Apply named the field QueryStmt, its type, so Cursor.Replace panicked on the
query of Exists, SubQuery, CTE, QueryExpr and CreateViewStmt.
---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..14e5c5f 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -171,9 +171,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CaseExpr:
 		a.apply(n, "Operand", nil, n.Operand)
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -203,12 +203,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -348,7 +348,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From 4665f6d3280a72c3896ae4ce3e40320a1ebfdf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 06/16] fix: walk and rewrite statements that leave out
 optional parts

Walk and Apply panicked on the missing operand of CASE WHEN and the missing
WHERE of UPDATE, and Apply on JOIN ... USING, which Walk accepts.
---
 sqlast/walk.go        |  8 ++++++--
 sqlastutil/rewrite.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..031aea8 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -71,7 +71,9 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -271,7 +273,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 14e5c5f..c196641 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -169,7 +169,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -238,6 +240,8 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Ref", nil, n.Ref)
 	case *sqlast.JoinType:
 		// nothing to do
+	case *sqlast.NamedColumnsJoin:
+		// nothing to do
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
@@ -340,7 +344,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
-- 
2.43.0


From 1a7da43c3c0a31a08ad5e8b576f344e62fb8354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 07/16] fix: do not print to stderr when the source is broken

scanner.Scanner reports read errors and invalid UTF-8 on os.Stderr unless it
is given a handler: a library has no business writing there.
---
 sqltoken/tokenizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 24a1cbe..2ce9d69 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -130,9 +130,12 @@ type Tokenizer struct {
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
 	source := &sourceReader{src: src}
+	scan.Init(source)
+	// without a handler the scanner prints to os.Stderr
+	scan.Error = func(*scanner.Scanner, string) {}
 	return &Tokenizer{
 		Dialect:      dialect,
-		Scanner:      scan.Init(source),
+		Scanner:      &scan,
 		Line:         1,
 		Col:          1,
 		parseComment: true,
-- 
2.43.0


From c44914afafb5666ec7c1b0edc866f2f1ed4eb939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 08/16] fix: do not deliver a token for a character that a
 source failure cut off

---
 sqltoken/tokenizer.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 2ce9d69..1c52ab8 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strings"
 	"text/scanner"
+	"unicode/utf8"
 
 	errors "golang.org/x/xerrors"
 
@@ -146,19 +147,42 @@ func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 // sourceReader remembers the error that ended the source, because
 // scanner.Scanner treats every read error as the end of the text.
 type sourceReader struct {
-	src io.Reader
-	err error
+	src  io.Reader
+	err  error
+	part []byte // bytes of a character whose rest has not been read yet
 }
 
 func (r *sourceReader) Read(p []byte) (int, error) {
 	if r.err != nil {
 		return 0, r.err
 	}
-	n, err := r.src.Read(p)
+	k := copy(p, r.part)
+	n, err := r.src.Read(p[k:])
+	n += k
+	r.part = nil
 	r.err = err
+	if err != io.EOF {
+		// the scanner would take a character that a failure cut off for an invalid one
+		k = partialRune(p[:n])
+		r.part = append(r.part, p[n-k:n]...)
+		n -= k
+	}
 	return n, err
 }
 
+// partialRune returns the number of bytes of the incomplete character at the end of p.
+func partialRune(p []byte) int {
+	for i := len(p) - 1; i >= 0 && i > len(p)-utf8.UTFMax; i-- {
+		if utf8.RuneStart(p[i]) {
+			if utf8.FullRune(p[i:]) {
+				return 0
+			}
+			return len(p) - i
+		}
+	}
+	return 0
+}
+
 type TokenizerOption func(*Tokenizer)
 
 func Dialect(dialect dialect.Dialect) TokenizerOption {
-- 
2.43.0


From 6857da1bc51744de0559dfee1e36465854f7e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 09/16] fix: position of a column definition without
 constraints

---
 sqlast/stmt.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..422ad2a 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -492,7 +492,17 @@ func (c *ColumnDef) Pos() sqltoken.Pos {
 }
 
 func (c *ColumnDef) End() sqltoken.Pos {
-	return c.Constraints[len(c.Constraints)-1].End()
+	if len(c.Constraints) != 0 {
+		return c.Constraints[len(c.Constraints)-1].End()
+	}
+	if len(c.MyDataTypeDecoration) != 0 {
+		return c.MyDataTypeDecoration[len(c.MyDataTypeDecoration)-1].End()
+	}
+	if c.Default != nil {
+		return c.Default.End()
+	}
+
+	return c.DataType.End()
 }
 
 func (c *ColumnDef) ToSQLString() string {
-- 
2.43.0


From 4fcafaf20d078277bf1649a3ef368e81404e0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 10/16] fix: position of a file without statements and of an
 empty OVER ()

---
 sqlast/ast.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..681feee 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -28,6 +28,12 @@ type File struct {
 }
 
 func (f *File) End() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[len(f.Comments)-1].End()
+	}
 
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Comments[len(f.Comments)-1].End(), f.Stmts[len(f.Stmts)-1].End()) == 1 {
@@ -39,6 +45,13 @@ func (f *File) End() sqltoken.Pos {
 }
 
 func (f *File) Pos() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[0].Pos()
+	}
+
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
 			return f.Comments[0].Pos()
@@ -572,8 +585,12 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 	if len(s.OrderBy) != 0 {
 		return s.Order
 	}
+	if s.WindowsFrame != nil {
+		return s.WindowsFrame.Pos()
+	}
 
-	return s.WindowsFrame.Pos()
+	// OVER () has no element that could tell a position
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) End() sqltoken.Pos {
@@ -585,7 +602,11 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.OrderBy[len(s.OrderBy)-1].End()
 	}
 
-	return s.PartitionBy[len(s.PartitionBy)-1].End()
+	if len(s.PartitionBy) != 0 {
+		return s.PartitionBy[len(s.PartitionBy)-1].End()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) ToSQLString() string {
-- 
2.43.0


From 9b62ed4758de34f8a02cf76bf61d6731fd48f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 11/16] fix: position of a CREATE TABLE without elements

---
 sqlast/stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 422ad2a..2c79118 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -288,6 +288,10 @@ func (c *CreateTableStmt) Pos() sqltoken.Pos {
 }
 
 func (c *CreateTableStmt) End() sqltoken.Pos {
+	if len(c.Elements) == 0 {
+		return c.Name.End()
+	}
+
 	return c.Elements[len(c.Elements)-1].End()
 }
 
-- 
2.43.0


From 51356764961b5d92e169fdf393afad1cd28cc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 12/16] fix: limit the nesting depth the parser accepts

The parser is recursive, so a text that nests parentheses, subqueries, NOT,
signs, function calls or EXPLAIN deep enough (1 MB within Go's stack limit of
32-bit machines, 2 MB elsewhere) exhausted the stack, which ends the process
and cannot be recovered. It is now an error beyond 10000 levels.
---
 parser.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/parser.go b/parser.go
index e8f6107..d17221d 100644
--- a/parser.go
+++ b/parser.go
@@ -19,8 +19,14 @@ type Parser struct {
 	index        uint
 	comments     map[sqltoken.Pos]*sqlast.CommentGroup
 	parseComment bool
+	nest         int
 }
 
+// maxNest is how deep statements, queries, tables and expressions may be
+// nested in each other. The parser is recursive: without a limit a long enough
+// input exhausts the stack, which ends the process and cannot be recovered.
+const maxNest = 10000
+
 type ParserOption func(*Parser)
 
 func ParseComment() ParserOption {
@@ -73,6 +79,20 @@ func recoverError(err *error) {
 	}
 }
 
+// enterNest is called at the beginning of what can contain itself, leaveNest
+// at its end.
+func (p *Parser) enterNest() error {
+	p.nest++
+	if p.nest > maxNest {
+		return errors.Errorf("nested more than %d levels deep", maxNest)
+	}
+	return nil
+}
+
+func (p *Parser) leaveNest() {
+	p.nest--
+}
+
 func (p *Parser) ParseFile() (file *sqlast.File, err error) {
 	defer recoverError(&err)
 
@@ -144,6 +164,10 @@ func (p *Parser) ParseSQL() (result []sqlast.Stmt, err error) {
 
 func (p *Parser) ParseStatement() (stmt sqlast.Stmt, err error) {
 	defer recoverError(&err)
+	defer p.leaveNest()
+	if err := p.enterNest(); err != nil {
+		return nil, err
+	}
 
 	tok, err := p.nextToken()
 	if err != nil {
@@ -323,6 +347,11 @@ func (p *Parser) ParseExpr() (expr sqlast.Node, err error) {
 }
 
 func (p *Parser) parseQuery() (*sqlast.QueryStmt, error) {
+	defer p.leaveNest()
+	if err := p.enterNest(); err != nil {
+		return nil, err
+	}
+
 	hasCTE, _, _ := p.parseKeyword("WITH")
 	var ctes []*sqlast.CTE
 	if hasCTE {
@@ -365,6 +394,11 @@ func (p *Parser) parseQuery() (*sqlast.QueryStmt, error) {
 }
 
 func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
+	defer p.leaveNest()
+	if err := p.enterNest(); err != nil {
+		return nil, err
+	}
+
 	var expr sqlast.SQLSetExpr
 	if ok, tok, _ := p.parseKeyword("SELECT"); ok {
 		s, err := p.parseSelect()
@@ -1618,6 +1652,11 @@ func (p *Parser) parseFromClause() ([]sqlast.TableReference, error) {
 }
 
 func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
+	defer p.leaveNest()
+	if err := p.enterNest(); err != nil {
+		return nil, err
+	}
+
 	leftElem, err := p.parseTableFactor()
 	if err != nil {
 		return nil, errors.Errorf("parse joined table left element failed: %w", err)
@@ -1958,6 +1997,11 @@ func (p *Parser) parseColumnNames() ([]*sqlast.Ident, error) {
 }
 
 func (p *Parser) parseSubexpr(precedence uint) (sqlast.Node, error) {
+	defer p.leaveNest()
+	if err := p.enterNest(); err != nil {
+		return nil, err
+	}
+
 	expr, err := p.parsePrefix()
 	if err != nil {
 		return nil, errors.Errorf("parsePrefix failed: %w", err)
-- 
2.43.0


From fd89ec72d338900468e29369896e66160e671a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 13/16] fix: walk the children of a node with the visitor
 returned for it

Walk shadowed the visitor that Visit returned and went on with the one it was
given, so a visitor could not hand a different one to the nodes below (the
protocol of go/ast, which the Visitor interface follows).
---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 031aea8..67e969d 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From 153031189752808aa9a4111c4a8738a4f55498f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 14/16] fix: find the end of IS NULL and IS NOT NULL in time
 linear in their depth

---
 sqlast/ast.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 681feee..9947752 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -188,9 +188,10 @@ func (s *IsNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNull) End() sqltoken.Pos {
+	end := s.X.End()
 	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 8,
+		Line: end.Line,
+		Col:  end.Col + 8,
 	}
 }
 
@@ -212,9 +213,10 @@ func (s *IsNotNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNotNull) End() sqltoken.Pos {
+	end := s.X.End()
 	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 12,
+		Line: end.Line,
+		Col:  end.Col + 12,
 	}
 }
 
-- 
2.43.0


From 634ae407f84257c2725e2a38ae371dd9083381e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 15/16] fix: walk and rewrite the branches of CASE expressions

---
 sqlast/walk.go        | 5 +++++
 sqlastutil/rewrite.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 67e969d..2d9bc50 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -74,6 +74,11 @@ func Walk(v Visitor, node Node) {
 		if n.Operand != nil {
 			Walk(v, n.Operand)
 		}
+		walkASTNodeLists(v, n.Conditions)
+		walkASTNodeLists(v, n.Results)
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c196641..c0025cf 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -172,6 +172,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Operand != nil {
 			a.apply(n, "Operand", nil, n.Operand)
 		}
+		a.applyList(n, "Conditions")
+		a.applyList(n, "Results")
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-- 
2.43.0


From b6d0537b4547659bbbf1757c6e4472cb4e0022f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 16/16] fix: walk and rewrite USING columns, array and custom
 types, table options and column decorations

---
 sqlast/walk.go        | 18 +++++++++++++++---
 sqlastutil/rewrite.go | 14 +++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 2d9bc50..0a98fa1 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -165,7 +165,7 @@ func Walk(v Visitor, node Node) {
 	case *JoinType:
 	// nothing to do
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
@@ -248,9 +248,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -294,6 +294,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -318,9 +325,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, d := range n.MyDataTypeDecoration {
+			Walk(v, d)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c0025cf..b503cdc 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -246,7 +246,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.JoinType:
 		// nothing to do
 	case *sqlast.NamedColumnsJoin:
-		// nothing to do
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
@@ -329,9 +329,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -363,6 +363,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -387,7 +392,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
-- 
2.43.0

