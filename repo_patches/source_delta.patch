From ae97871fdeb173d0196260d900bf8652c1c6582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:44 +0000
Subject: [PATCH 01/27] fix: ParseForce reports an error when no dialect
 accepts the DDL

The error of each attempt was assigned to a variable shadowing the one
returned, so a DDL rejected by all three dialects came back as no tables
and no error.
---
 ddlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..a60b928 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -67,7 +67,8 @@ func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
+		var tables []Table
+		tables, err = Parse(ddl, rdbms)
 		if err == nil {
 			return tables, nil
 		}
-- 
2.43.0


From 6ce89a5edfc3075428791e5ad392f0f2cdb4b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:45 +0000
Subject: [PATCH 02/27] fix: report an unclosed bracket instead of recursing
 forever

validateBracketsAux recursed without end once the tokens ran out, so any
DDL with an unclosed bracket in an expression or option ended the process
with a stack overflow; nesting a few million brackets did the same.
---
 internal/validator/validator.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..cd26a6b 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,19 +149,21 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
-	if v.matchToken(")") {
-		return nil
-	}
-	if v.matchToken("(") {
-		if err := v.validateBrackets(set); err != nil {
-			return err
+	depth := 0
+	for depth > 0 || !v.matchToken(")") {
+		if v.isOutOfRange() {
+			return v.syntaxError()
+		}
+		if v.matchToken("(") {
+			depth += 1
+		} else if v.matchToken(")") {
+			depth -= 1
+		}
+		if set {
+			v.set(v.next())
+		} else {
+			v.next()
 		}
-		return v.validateBracketsAux(set)
-	}
-	if set {
-		v.set(v.next())
-	} else {
-		v.next()
 	}
-	return v.validateBracketsAux(set)
+	return nil
 }
\ No newline at end of file
-- 
2.43.0


From d0a8c259322a152e63aaed11e92d6f1ed284aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:45 +0000
Subject: [PATCH 03/27] fix: recognise a comment that directly follows a
 comment or operator

After -, / or * (and after a comment) the next character was consumed
without looking for the start of a comment, so the second of two comment
lines starting in column one was read as DDL.
---
 internal/lexer/lexer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..66eddb2 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -121,21 +121,19 @@ func (l *lexer) lex() error {
 			if err := l.lexHyphen(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "/" {
 			if err := l.lexSlash(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "*" {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
+			continue
 		}
 
-		if l.isOutOfRange() {
-			break
-		}
-
-		c = l.char()
 		if c == "\"" {
 			if err := l.lexDoubleQuote(&token); err != nil {
 				return err
-- 
2.43.0


From 3c215d2a40f22cf619870d259f5974786fb71d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:45 +0000
Subject: [PATCH 04/27] fix: end a multiline comment at the first */

The character after each * or / inside the comment was skipped unseen:
"**/" did not close the comment, a newline after * was not counted, and
"/*/" swallowed the closing part.
---
 internal/lexer/lexer.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 66eddb2..facfcf4 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -350,11 +350,7 @@ func (l *lexer) skipMultiLineComment() error {
 				l.next()
 				return nil
 			}
-		} else if c == "/" {
-			l.next()
-			if l.char() == "*" {
-				return l.skipMultiLineComment()
-			}
+			continue
 		}
 		l.next()
 	}
-- 
2.43.0


From 388fdbf342e73736825c6fea7537ced04151a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 05/27] fix: end a quoted token at its own closing quote

A different quote character inside a quoted token was taken for a nested
string and the character after it was dropped: a literal such as
"say 'hi'" was rejected as unclosed or lost a character.
---
 internal/lexer/lexer.go | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index facfcf4..e75e01c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -370,18 +370,6 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -403,18 +391,6 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -436,18 +412,6 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
-- 
2.43.0


From 6b6cbe409f83994a5a46ca8987c564a7d8ae348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 06/27] fix: keep newlines inside quoted tokens

The newline was counted but dropped from the text of the token, so a
multiline default value came back joined.
---
 internal/lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index e75e01c..063f094 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -367,6 +367,7 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
@@ -388,6 +389,7 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
@@ -409,6 +411,7 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-- 
2.43.0


From 99edaf128d37dc4ffa62a8f6abf2c31a51c24c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 07/27] fix: read a doubled quote inside a quoted token as one
 quote

'it''s' was split into two tokens, so a default value, comment or name
containing its own quote character was rejected as a syntax error.
---
 internal/converter/converter.go | 10 ++++++++--
 internal/lexer/lexer.go         | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..1a56ca9 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -116,6 +116,12 @@ func (c *converter) isStringValue(token string) bool {
 }
 
 
+func (c *converter) unquote(token string) string {
+	quote := token[0:1]
+	return strings.ReplaceAll(token[1 : len(token)-1], quote + quote, quote)
+}
+
+
 func (c *converter) convert() {
 	if c.isOutOfRange() {
 		return
@@ -175,7 +181,7 @@ func (c *converter) convertTableName() (string, string) {
 func (c *converter) convertName() string {
 	token := c.next()
 	if c.isIdentifier(token) {
-		return token[1 : len(token)-1]
+		return c.unquote(token)
 	} else {
 		return token
 	}
@@ -351,7 +357,7 @@ func (c *converter) convertLiteralValue() interface{} {
 		return n
 	}
 	if c.isStringValue(token) {
-		return token[1 : len(token)-1]
+		return c.unquote(token)
 	}
 	if strings.ToUpper(token) == "NULL" {
 		return nil
diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 063f094..86774c6 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -370,7 +370,10 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 			str += c
 		} else if c == "\"" {
 			l.next()
-			return str + c, nil
+			if l.char() != c {
+				return str + c, nil
+			}
+			str += c + c
 		} else {
 			str += c
 		}
@@ -392,7 +395,10 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 			str += c
 		} else if c == "'" {
 			l.next()
-			return str + c, nil			
+			if l.char() != c {
+				return str + c, nil
+			}
+			str += c + c
 		} else {
 			str += c
 		}
@@ -414,7 +420,10 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 			str += c
 		} else if c == "`" {
 			l.next()
-			return str + c, nil			
+			if l.char() != c {
+				return str + c, nil
+			}
+			str += c + c
 		} else {
 			str += c
 		}
-- 
2.43.0


From 104bdad984833bfb3c5080167509a8356d4e1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 08/27] fix: accept CRLF line endings

The carriage return was read as a token, so a DDL saved with CRLF line
endings was rejected.
---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 86774c6..0b12c5b 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -149,7 +149,7 @@ func (l *lexer) lex() error {
 		} else if c == "#" {
 			l.lexSharp(&token)
 
-		} else if c == " " || c == "\t"{
+		} else if c == " " || c == "\t" || c == "\r" {
 			l.lexSpace(&token)
 
 		} else if c == "\n" {
@@ -300,7 +300,7 @@ func (l *lexer) lexEOL(token *string) {
 
 func (l *lexer) lexSpace(token *string) {
 	c := l.char()
-	if c == " " || c == "\t" {
+	if c == " " || c == "\t" || c == "\r" {
 		l.appendToken(*token)
 		*token = ""
 	}
-- 
2.43.0


From 0f1b9815b40d1c34a5eb9597826578d796dec36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 09/27] fix: accept options written without spaces around =

"ENGINE=InnoDB" was read as a single token, so the documented "[=]" of
table, index and column options worked only with spaces around it.
---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 0b12c5b..b4136fa 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -155,7 +155,7 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
-		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 			l.lexSymbol(&token)
 
 		} else if c == "　" {
@@ -311,7 +311,7 @@ func (l *lexer) lexSpace(token *string) {
 
 func (l *lexer) lexSymbol(token *string) {
 	c := l.char()
-	if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+	if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 		l.appendToken(*token)
 		l.appendToken(c)
 		*token = ""
-- 
2.43.0


From eb63428a8f82bb5af594c7fb3abbe7b7cf2b126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 10/27] fix: read a decimal number as one token

"DEFAULT 1.5" was split at the decimal point and rejected.
---
 internal/lexer/lexer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index b4136fa..1e29007 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -1,6 +1,8 @@
 package lexer
 
 import (
+	"regexp"
+
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -44,6 +46,8 @@ Example:
 ////////////////////////////////////////////////////////////////////////////////////
 */
 
+var integerPattern = regexp.MustCompile(`^[+-]?[0-9]+$`)
+
 type lexer struct {
 	rdbms common.Rdbms
 	ddlr []rune
@@ -155,6 +159,10 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if c == "." && l.isDecimalPoint(token) {
+			token += c
+			l.next()
+
 		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 			l.lexSymbol(&token)
 
@@ -321,6 +329,14 @@ func (l *lexer) lexSymbol(token *string) {
 }
 
 
+func (l *lexer) isDecimalPoint(token string) bool {
+	if l.i + 1 >= l.size || l.ddlr[l.i + 1] < '0' || l.ddlr[l.i + 1] > '9' {
+		return false
+	}
+	return integerPattern.MatchString(token)
+}
+
+
 func (l *lexer) skipComment() {
 	l.next()
 	for !l.isOutOfRange() {
-- 
2.43.0


From ce11db5ad0eb13dca5a3460c84c9e3c73febcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 11/27] fix: accept only numbers as numeric literals

IsNumericToken took everything strconv.ParseFloat understands, so
"DEFAULT nan", "DEFAULT infinity", "DEFAULT 0x1p4" and "DEFAULT 1_0" were
accepted; NaN and infinities make the table impossible to marshal to JSON.
---
 internal/common/utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/common/utils.go b/internal/common/utils.go
index d823881..a35a55c 100644
--- a/internal/common/utils.go
+++ b/internal/common/utils.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"regexp"
 	"strconv"
 )
 
@@ -51,7 +52,12 @@ func IsPositiveIntegerToken(token string) bool {
 	return n > 0
 }
 
+var numericPattern = regexp.MustCompile(`^[+-]?[0-9]+([.][0-9]+)?([eE][+-]?[0-9]+)?$`)
+
 func IsNumericToken(token string) bool {
+	if !numericPattern.MatchString(token) {
+		return false
+	}
 	_, err := strconv.ParseFloat(token, 64)
 	return err == nil
 }
\ No newline at end of file
-- 
2.43.0


From 5181cd55da23f842d0246c133d1d434ff90248d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 12/27] fix: count the first newline of the DDL in reported
 line numbers

A DDL starting with a newline had every syntax error reported one line
too early.
---
 internal/validator/validator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index cd26a6b..24ba032 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -48,6 +48,7 @@ func (v *validator) init(tokens []string) {
 	v.line = 1
 	v.result = []string{}
 	if v.token() == "\n" {
+		v.line += 1
 		v.next()
 	}
 }
-- 
2.43.0


From 2ae4a812950e5b72ec508e84ff2f26b9ffbce987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 13/27] fix: drop MySQL index definitions completely before
 converting

The closing bracket of INDEX, KEY, FULLTEXT and SPATIAL definitions (and
the index name of the last two) was handed to the converter, which then
ended the table early and returned bogus tables or never returned.
---
 internal/validator/validator_mysql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 73191a43ddc2b32b99a73c0ebe67d4ed2c7ea617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 14/27] fix: convert tables that start with a dropped
 definition

An index or EXCLUDE definition in first place leaves a leading comma,
which became the name of a column. Skip the commas of dropped definitions
where the definitions are converted rather than in next(), which also
removed repeated commas from expressions.
---
 internal/converter/converter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 1a56ca9..ee23891 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -72,9 +72,6 @@ func (c *converter) next() string {
 	}
 	token := c.token()
 	c.i += 1
-	if token == "," && c.token() == "," {
-		return c.next()
-	}
 	return token
 }
 
@@ -193,6 +190,10 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			c.next()
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
-- 
2.43.0


From 5d7f005113f95fdc96a01abaf9591e849fcb89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:31 +0000
Subject: [PATCH 15/27] fix: convert references to a table in another schema

"REFERENCES schema.table" passes the syntax check, but the converter took
the schema for the table name and read the rest as another column.
---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index ee23891..8d09361 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -376,7 +376,7 @@ func (c *converter) convertLiteralValue() interface{} {
 func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
-	reference.TableName = c.convertName()
+	_, reference.TableName = c.convertTableName()
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From b3d1411c06e39331acba57122f7d6e0db9563d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:31 +0000
Subject: [PATCH 16/27] fix: keep column constraint names that are keywords of
 another dialect

A constraint named auto_increment (SQLite, PostgreSQL) or autoincrement
(PostgreSQL, MySQL) lost its name and marked the column as autoincrement.
The name can only be missing before CHECK; all the other keywords are
rejected by the validator in that place.
---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 8d09361..fc8590d 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -261,7 +261,7 @@ func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
 	if c.matchToken("CONSTRAINT") {
 		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "AUTOINCREMENT", "AUTO_INCREMENT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
+		if (!c.matchToken("CHECK")) {
 			constraint.Name = c.convertName()
 		}
 	}
-- 
2.43.0


From ef61e58b26b8076d5649ae883ffc06a4a38e8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:32 +0000
Subject: [PATCH 17/27] fix: keep NOT NULL after a MySQL CHECK constraint

The NOT was consumed as the start of NOT ENFORCED and the NULL then
accepted as a constraint of its own, so the column came back nullable.
---
 internal/validator/validator_mysql.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..f2d9ebb 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -555,7 +555,14 @@ func (v *mysqlValidator) validateConstraintCheck() error {
 	if err := v.validateExpr(true); err != nil {
 		return err
 	}
-	v.matchTokenNext(false, "NOT")
+	i, line := v.i, v.line
+	if v.matchTokenNext(false, "NOT") {
+		if v.matchToken("NULL") {
+			v.i, v.line = i, line
+			return nil
+		}
+		return v.validateToken(false, "ENFORCED")
+	}
 	v.matchTokenNext(false, "ENFORCED")
 	return nil
 }
-- 
2.43.0


From 483e8d6021e4478427977342ca1a51fbc5c01aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:33 +0000
Subject: [PATCH 18/27] fix: accept NOT NULL after a SQLite REFERENCES
 constraint

The NOT was always taken for the start of NOT DEFERRABLE.
---
 internal/validator/validator_sqlite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..c3a2fb8 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -449,7 +449,11 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 	}
 
 	if v.matchToken("NOT", "DEFERRABLE") {
-		v.matchTokenNext(false, "NOT")
+		i, line := v.i, v.line
+		if v.matchTokenNext(false, "NOT") && v.matchToken("NULL") {
+			v.i, v.line = i, line
+			return nil
+		}
 		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 			return err
 		}
-- 
2.43.0


From 58da9c0f37f2b48e942759233d841114899b22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:33 +0000
Subject: [PATCH 19/27] fix: accept a MySQL UNIQUE constraint with USING and no
 index name

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index f2d9ebb..f1eda28 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -803,7 +803,7 @@ func (v *mysqlValidator) validateTableConstraintUnique() error {
 		return err
 	}
 	v.matchTokenNext(false, "INDEX", "KEY")
-	if !v.matchToken("(") {
+	if !v.matchToken("USING", "(") {
 		if err := v.validateName(false); err != nil {
 			return err
 		}
-- 
2.43.0


From a8247cc6200db453892d4682a49b6fc259190ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 20/27] fix: accept a final SQLite statement without a
 semicolon

The README documents the semicolon of the SQLite grammar as optional.
---
 internal/validator/validator_sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index c3a2fb8..76733dc 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -137,6 +137,9 @@ func (v *sqliteValidator) validateCreateTable() error {
 	if err := v.validateTableDefinition(); err != nil {
 		return err
 	}
+	if v.isOutOfRange() {
+		return nil
+	}
 	if err := v.validateToken(true, ";"); err != nil {
 		return err
 	}
-- 
2.43.0


From 29c4c637734695fa6afe7617f42d606b06b7e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 21/27] fix: accept any name after MATCH in SQLite

The README documents "MATCH name"; only SIMPLE, PARTIAL and FULL passed.
---
 internal/validator/validator_sqlite.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 76733dc..5715b67 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -445,8 +445,10 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 	}
 
 	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
-			return err
+		if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
+			if err := v.validateName(false); err != nil {
+				return err
+			}
 		}
 		return v.validateConstraintReferencesAux()
 	}
-- 
2.43.0


From e5b0a07e6ec88c58fa7718ee859e1204bb3bfcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 22/27] fix: accept the documented PostgreSQL constraint AS
 (expr)

AS is dispatched to validateConstraintGenerated, which insisted on
GENERATED and so rejected it always.
---
 internal/validator/validator_postgresql.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0461cd3..af98b3c 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -561,6 +561,13 @@ func (v *postgresqlValidator) validateConstraintReferencesAux() error {
 
 
 func (v *postgresqlValidator) validateConstraintGenerated() error {
+	if v.matchTokenNext(false, "AS") {
+		if err := v.validateBrackets(false); err != nil {
+			return err
+		}
+		v.matchTokenNext(false, "STORED", "VIRTUAL")
+		return nil
+	}
 	if err := v.validateToken(false, "GENERATED"); err != nil {
 		return err
 	}
-- 
2.43.0


From 2651cf56be921034b76d5138fbf6c9b1e37a95c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:36 +0000
Subject: [PATCH 23/27] fix: accept keywords in mixed case

Keywords matched only when written entirely in upper or entirely in lower
case, so "Create Table" was a syntax error.
---
 internal/converter/converter.go | 5 +----
 internal/validator/validator.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index fc8590d..a11b97e 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -78,10 +78,7 @@ func (c *converter) next() string {
 
 func (c *converter) matchToken(keywords ...string) bool {
 	return common.Contains(
-		append(
-			common.MapSlice(keywords, strings.ToLower), 
-			common.MapSlice(keywords, strings.ToUpper)...,
-		), c.token())
+		common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(c.token()))
 }
 
 
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 24ba032..954892c 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -99,10 +99,7 @@ func (v *validator) syntaxError() error {
 
 func (v *validator) matchToken(keywords ...string) bool {
 	return common.Contains(
-		append(
-			common.MapSlice(keywords, strings.ToLower), 
-			common.MapSlice(keywords, strings.ToUpper)...,
-		), v.token())
+		common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(v.token()))
 }
 
 
-- 
2.43.0


From da5ff7a9ae9957c7f18d70b3f2ce2e3528b12057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:36 +0000
Subject: [PATCH 24/27] fix: reject the reserved word INFILE as an unquoted
 MySQL name

The entry of the reserved word list was misspelled.
---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index f1eda28..2336f85 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -1322,7 +1322,7 @@ var ReservedWords_MySQL = []string{
 	"IGNORE",
 	"IN",
 	"INDEX",
-	"INFILEx",
+	"INFILE",
 	"INNER",
 	"INOUT",
 	"INSENSITIVE",
-- 
2.43.0


From aa4340306003f1a6dde455085fc31fe915916c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 25/27] fix: keep the words of an expression apart

CHECK (a > 0 AND b IN (1)) came back as (a>0ANDbIN(1)). Put a space
between two adjacent words; build the text in one pass, as the recursive
concatenation took quadratic time and overflowed the stack on deeply
nested expressions.
---
 internal/converter/converter.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index a11b97e..df4e7dd 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -333,18 +333,31 @@ func (c *converter) convertDefaultValue() interface{} {
 
 
 func (c *converter) convertExpr() string {
-	return c.next() + c.convertExprAux() + c.next()
+	var expr strings.Builder
+	depth := 0
+	isWord := false
+	for {
+		token := c.next()
+		if isWord && c.isWord(token) {
+			expr.WriteString(" ")
+		}
+		isWord = c.isWord(token)
+		expr.WriteString(token)
+		if token == "(" {
+			depth += 1
+		} else if token == ")" {
+			depth -= 1
+		}
+		if depth == 0 {
+			return expr.String()
+		}
+	}
 }
 
 
-func (c *converter) convertExprAux() string {
-	if c.matchToken(")") {
-		return ""
-	}
-	if c.matchToken("(") {
-		return c.convertExpr() + c.convertExprAux()
-	}
-	return c.next() + c.convertExprAux()
+// neither a symbol nor quoted
+func (c *converter) isWord(token string) bool {
+	return !strings.Contains("(),.;=\"`'", token[0:1])
 }
 
 
-- 
2.43.0


From af27ae0a3575ff0927466f1abc3460a2047b446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:14 +0000
Subject: [PATCH 26/27] fix: document the MySQL table CHECK option that is
 accepted

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index af38127..759f118 100644
--- a/README.md
+++ b/README.md
@@ -232,7 +232,7 @@ REFERENCES table_name (column_name)
 {FULLTEXT | SPATIAL} [INDEX | KEY] [index_name] (key-part, ...) [index-option] ...
 [CONSTRAINT [symbol]] PRIMARY KEY [USING {BTREE | HASH}] (key-part, ...) [index-option] ...
 [CONSTRAINT [symbol]] UNIQUE [INDEX | KEY] [index_name] [USING {BTREE | HASH}] (key-part, ...)[index-option] ...
-[CONSTRAINT [symbol]] CHECK (expr) [NO INHERIT]
+[CONSTRAINT [symbol]] CHECK (expr) [[NOT] ENFORCED]
 [CONSTRAINT [symbol]] FOREIGN KEY [index_name] (column_name,...) REFERENCES table_name (key-part, ...)
                       [MATCH {FULL | PARTIAL | SIMPLE}]
                       [ON {DELETE | UPDATE} {SET NULL | SET DEFAULT | CASCADE | RESTRICT | NO ACTION}]
-- 
2.43.0


From 0efb9afc9053f9e942e99e82a87e7b45a7cf2c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:30 +0000
Subject: [PATCH 27/27] fix: do not take letters outside ASCII for the letters
 of a keyword

---
 internal/validator/validator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 954892c..1ee6e5c 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -99,7 +99,15 @@ func (v *validator) syntaxError() error {
 
 func (v *validator) matchToken(keywords ...string) bool {
 	return common.Contains(
-		common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(v.token()))
+		common.MapSlice(keywords, strings.ToUpper), strings.Map(toUpperASCII, v.token()))
+}
+
+
+func toUpperASCII(r rune) rune {
+	if 'a' <= r && r <= 'z' {
+		return r - 'a' + 'A'
+	}
+	return r
 }
 
 
-- 
2.43.0

