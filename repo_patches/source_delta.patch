From af6e6a32bc77b0d71a47300e7cba2ade5307582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 01/19] fix: report an unclosed bracket instead of recursing
 forever at end of input

---
 internal/validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..a7c4e54 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,6 +149,9 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
+	if v.isOutOfRange() {
+		return v.syntaxError()
+	}
 	if v.matchToken(")") {
 		return nil
 	}
-- 
2.43.0


From 15d1955855fa9321c4bc75d4ee1156742dd5a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 02/19] fix: convert a schema-qualified table name in
 REFERENCES (it hung or produced bogus columns)

---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..754a92b 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -369,7 +369,7 @@ func (c *converter) convertLiteralValue() interface{} {
 func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
-	reference.TableName = c.convertName()
+	_, reference.TableName = c.convertTableName()
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From 66742a08e78b7ed9341b97fad05b37ca9636ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 03/19] fix: do not pass on the closing bracket of a dropped
 MySQL index definition

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..4e2d80d 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From d28367a30cbf5b4ffc6724be4c1e7de76f20684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 04/19] fix: do not pass on the name of a dropped MySQL
 FULLTEXT/SPATIAL index as a column

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 4e2d80d..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From a564cc8b8c52b7256371b7e3e8aa303193c16174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 05/19] fix: accept a dropped definition (index, exclude) in
 any position of the column list

---
 internal/converter/converter.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 754a92b..78a565b 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -72,9 +72,6 @@ func (c *converter) next() string {
 	}
 	token := c.token()
 	c.i += 1
-	if token == "," && c.token() == "," {
-		return c.next()
-	}
 	return token
 }
 
@@ -187,17 +184,16 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			c.next() // separator, or what is left of a dropped definition
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
 			column := c.convertColumnDefinition()
 			columns = append(columns, column)
 		}
-		
-		if c.matchToken(")") {
-			break
-		}
-		c.next()
 	}
 	c.next()
 	return columns, constraints
-- 
2.43.0


From 50f294a2eddd8da6f04a79d9c4532c4a4dfb4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 06/19] fix: recognise a comment that directly follows another
 comment or operator

---
 internal/lexer/lexer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..66eddb2 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -121,21 +121,19 @@ func (l *lexer) lex() error {
 			if err := l.lexHyphen(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "/" {
 			if err := l.lexSlash(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "*" {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
+			continue
 		}
 
-		if l.isOutOfRange() {
-			break
-		}
-
-		c = l.char()
 		if c == "\"" {
 			if err := l.lexDoubleQuote(&token); err != nil {
 				return err
-- 
2.43.0


From ba6f0777c3bac8fc1bae5928a334fe7d2a7d668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 07/19] fix: end a block comment at the first "*/" (also after
 "**", and count its newlines)

---
 internal/lexer/lexer.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 66eddb2..facfcf4 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -350,11 +350,7 @@ func (l *lexer) skipMultiLineComment() error {
 				l.next()
 				return nil
 			}
-		} else if c == "/" {
-			l.next()
-			if l.char() == "*" {
-				return l.skipMultiLineComment()
-			}
+			continue
 		}
 		l.next()
 	}
-- 
2.43.0


From 769b2035ae9fadab3972de7760ff5d441ba68300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 08/19] fix: treat other quote characters inside a quoted token
 as ordinary text

---
 internal/lexer/lexer.go | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index facfcf4..e75e01c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -370,18 +370,6 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -403,18 +391,6 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -436,18 +412,6 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
-- 
2.43.0


From b0a24761774aca0acf67979e5cec62deafa30464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 09/19] fix: keep line breaks inside quoted tokens

---
 internal/lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index e75e01c..063f094 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -367,6 +367,7 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
@@ -388,6 +389,7 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
@@ -409,6 +411,7 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-- 
2.43.0


From 30850545c49c64a6a1029f273f571780a5e03340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 10/19] fix: treat carriage return as white space (CRLF files
 were rejected)

---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 063f094..07f551c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -149,7 +149,7 @@ func (l *lexer) lex() error {
 		} else if c == "#" {
 			l.lexSharp(&token)
 
-		} else if c == " " || c == "\t"{
+		} else if c == " " || c == "\t" || c == "\r" {
 			l.lexSpace(&token)
 
 		} else if c == "\n" {
@@ -300,7 +300,7 @@ func (l *lexer) lexEOL(token *string) {
 
 func (l *lexer) lexSpace(token *string) {
 	c := l.char()
-	if c == " " || c == "\t" {
+	if c == " " || c == "\t" || c == "\r" {
 		l.appendToken(*token)
 		*token = ""
 	}
-- 
2.43.0


From 875ee45e667ac6cdace6d0db6a07418b9dc74522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:01 +0000
Subject: [PATCH 11/19] fix: keep a decimal number in one token (DEFAULT 1.5
 was rejected)

---
 internal/lexer/lexer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 07f551c..a475578 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -107,6 +107,11 @@ func (l *lexer) isOutOfRange() bool {
 }
 
 
+func (l *lexer) isNextDigit() bool {
+	return l.i + 1 < l.size && l.ddlr[l.i + 1] >= '0' && l.ddlr[l.i + 1] <= '9'
+}
+
+
 func (l *lexer) lexError() error {
 	return common.NewValidateError(l.line, string(l.char()))
 }
@@ -311,6 +316,11 @@ func (l *lexer) lexSpace(token *string) {
 
 func (l *lexer) lexSymbol(token *string) {
 	c := l.char()
+	if c == "." && common.IsNumericToken(*token) && l.isNextDigit() {
+		*token += c // decimal point
+		l.next()
+		return
+	}
 	if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
 		l.appendToken(*token)
 		l.appendToken(c)
-- 
2.43.0


From 14fc651b10523b8f97a8376a5aef90781dcc8132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:02 +0000
Subject: [PATCH 12/19] fix: count a leading line break in the line number of
 syntax errors

---
 internal/validator/validator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index a7c4e54..c165af0 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -48,6 +48,7 @@ func (v *validator) init(tokens []string) {
 	v.line = 1
 	v.result = []string{}
 	if v.token() == "\n" {
+		v.line += 1
 		v.next()
 	}
 }
-- 
2.43.0


From 9783aefed8709c4b0f717fe223491b43ca2f63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:02 +0000
Subject: [PATCH 13/19] fix: ParseForce returned a nil error when every dialect
 rejected the DDL

---
 ddlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..a60b928 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -67,7 +67,8 @@ func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
+		var tables []Table
+		tables, err = Parse(ddl, rdbms)
 		if err == nil {
 			return tables, nil
 		}
-- 
2.43.0


From af0545988f17ebc09d2fc27037f1276eec3a9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:02 +0000
Subject: [PATCH 14/19] fix: MySQL CHECK (...) NOT NULL lost the NOT NULL

---
 internal/validator/validator_mysql.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..afa265f 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -555,7 +555,10 @@ func (v *mysqlValidator) validateConstraintCheck() error {
 	if err := v.validateExpr(true); err != nil {
 		return err
 	}
-	v.matchTokenNext(false, "NOT")
+	i, line := v.i, v.line
+	if v.matchTokenNext(false, "NOT") && !v.matchToken("ENFORCED") {
+		v.i, v.line = i, line // NOT NULL
+	}
 	v.matchTokenNext(false, "ENFORCED")
 	return nil
 }
-- 
2.43.0


From f9cd69cb260ac7cc2f4d464ca62b1e671a976cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 15/19] fix: SQLite REFERENCES ... NOT NULL was rejected

---
 internal/validator/validator_sqlite.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..59263b2 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -448,8 +448,12 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 		return v.validateConstraintReferencesAux()
 	}
 
-	if v.matchToken("NOT", "DEFERRABLE") {
-		v.matchTokenNext(false, "NOT")
+	i, line := v.i, v.line
+	if v.matchTokenNext(false, "NOT") && !v.matchToken("DEFERRABLE") {
+		v.i, v.line = i, line // NOT NULL
+		return nil
+	}
+	if v.matchToken("DEFERRABLE") {
 		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 			return err
 		}
-- 
2.43.0


From c998420bbe87735fc3e32b075e6755395dc29abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 16/19] fix: accept MySQL UNIQUE USING ... without an index
 name, as documented

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index afa265f..167c59f 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -799,7 +799,7 @@ func (v *mysqlValidator) validateTableConstraintUnique() error {
 		return err
 	}
 	v.matchTokenNext(false, "INDEX", "KEY")
-	if !v.matchToken("(") {
+	if !v.matchToken("USING") && !v.matchToken("(") {
 		if err := v.validateName(false); err != nil {
 			return err
 		}
-- 
2.43.0


From 8c8257286c2637d3b92e239f2957b0bfee0a1a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 17/19] fix: a column constraint named like a keyword of
 another dialect was taken for that keyword

---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 78a565b..a602ce9 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -250,7 +250,7 @@ func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
 	if c.matchToken("CONSTRAINT") {
 		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "AUTOINCREMENT", "AUTO_INCREMENT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
+		if !c.matchToken("CHECK") {
 			constraint.Name = c.convertName()
 		}
 	}
-- 
2.43.0


From 71500703fbfcbd4a2f58ea93b39f092ed0dabde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:22 +0000
Subject: [PATCH 18/19] fix: typo in the reserved words of MySQL (INFILE)

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 167c59f..aa1e25a 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -1318,7 +1318,7 @@ var ReservedWords_MySQL = []string{
 	"IGNORE",
 	"IN",
 	"INDEX",
-	"INFILEx",
+	"INFILE",
 	"INNER",
 	"INOUT",
 	"INSENSITIVE",
-- 
2.43.0


From 1335703c5e884c82c4120a6208670909dc471f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:22 +0000
Subject: [PATCH 19/19] fix: the semicolon after the last SQLite statement is
 optional, as documented

---
 internal/validator/validator_sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 59263b2..cbb4235 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -137,6 +137,9 @@ func (v *sqliteValidator) validateCreateTable() error {
 	if err := v.validateTableDefinition(); err != nil {
 		return err
 	}
+	if v.isOutOfRange() {
+		return nil
+	}
 	if err := v.validateToken(true, ";"); err != nil {
 		return err
 	}
-- 
2.43.0

