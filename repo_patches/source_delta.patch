From 18c31593aa7710e4f2a07c5e740a66535609dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 01/46] fix: do not treat a NUL byte as the end of the input

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 88ca5e5..fb03f77 100644
--- a/lexer.go
+++ b/lexer.go
@@ -9,7 +9,7 @@ import (
 	"github.com/schemalex/schemalex/internal/errors"
 )
 
-const eof = rune(0)
+const eof = rune(-1)
 
 type lrune struct {
 	r rune
-- 
2.43.0


From e967742c7ee74efc0b8348bce414128a580ab74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 02/46] fix: compute token boundaries in bytes when the rune
 after a token is multibyte

---
 lexer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index fb03f77..793e146 100644
--- a/lexer.go
+++ b/lexer.go
@@ -82,11 +82,21 @@ func (l *lexer) emit(ctx context.Context, typ TokenType) {
 	// when we emit, we must copy the value of cur to start
 	// but we also must adjust the position by the read-ahead offset
 	l.start = l.cur
-	l.start.pos = l.start.pos - (l.peekCount + 1)
+	l.start.pos = l.start.pos - l.peekWidth()
+}
+
+// peekWidth returns the number of bytes that have been read ahead,
+// but have not been consumed yet
+func (l *lexer) peekWidth() int {
+	var w int
+	for i := 0; i <= l.peekCount; i++ {
+		w += l.peekRunes[i].w
+	}
+	return w
 }
 
 func (l *lexer) str() string {
-	endpos := l.cur.pos - (l.peekCount + 1)
+	endpos := l.cur.pos - l.peekWidth()
 	w := len(l.input[l.start.pos:])
 	if endpos-l.start.pos > w {
 		endpos = l.start.pos + w
-- 
2.43.0


From 11deb129b24d7b9641c325837e54d7774efdca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 03/46] fix: do not treat /*/ as a complete comment

---
 lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer.go b/lexer.go
index 793e146..ade6c97 100644
--- a/lexer.go
+++ b/lexer.go
@@ -168,6 +168,7 @@ OUTER:
 		case '/':
 			switch c := l.peek(); c {
 			case '*':
+				l.advance()
 				l.runCComment()
 				l.emit(ctx, COMMENT_IDENT)
 			default:
-- 
2.43.0


From d45327402d0f0f4bd400e2731e46fd928239a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 04/46] fix: lex backslash escapes in quoted literals the way
 MySQL does

---
 lexer.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/lexer.go b/lexer.go
index ade6c97..31c6c06 100644
--- a/lexer.go
+++ b/lexer.go
@@ -289,28 +289,24 @@ OUTER:
 	return IDENT
 }
 
-func unescapeQuotes(s string, quot rune) string {
+func unescapeQuotes(s string, quot byte) string {
 	var buf bytes.Buffer
-	max := utf8.RuneCountInString(s)
-	rdr := strings.NewReader(s)
-	for i := 0; i < max; i++ {
-		r, _, _ := rdr.ReadRune()
-
-		// assume first rune and last rune are quot
-		if i == 0 || i == max-1 {
-			continue
-		}
-
-		switch r {
-		case '\\', quot: // possible escape sequence
-			if r2, _, _ := rdr.ReadRune(); r2 == quot {
-				i++
-				r = quot
-			} else {
-				rdr.UnreadRune()
+	// assume first byte and last byte are quot
+	s = s[1 : len(s)-1]
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case c == quot: // must be doubled, as it would be the end otherwise
+			i++
+		case c == '\\' && quot != '`' && i+1 < len(s): // escape sequence
+			i++
+			// escape sequences other than those for quotes are kept as is
+			if s[i] != '\'' && s[i] != '"' {
+				buf.WriteByte(c)
 			}
+			c = s[i]
 		}
-		buf.WriteRune(r)
+		buf.WriteByte(c)
 	}
 	return buf.String()
 }
@@ -320,8 +316,9 @@ func (l *lexer) runQuote(pair rune) error {
 		r := l.next()
 		if r == eof {
 			return errors.New(`unexpected eof`)
-		} else if r == '\\' {
-			if l.peek() == pair {
+		} else if r == '\\' && pair != '`' {
+			// whatever follows a backslash can not terminate the literal
+			if l.peek() != eof {
 				r = l.next()
 			}
 		} else if r == pair {
-- 
2.43.0


From 87853f505835d745dae1740d71953c67736758d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 05/46] fix: escape quotes in formatted names and string
 literals

---
 format/format.go      | 21 ++++++---------------
 internal/util/util.go | 28 ++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/format/format.go b/format/format.go
index 02a8159..9975b57 100644
--- a/format/format.go
+++ b/format/format.go
@@ -92,9 +92,7 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
-		buf.WriteByte('\'')
-		buf.WriteString(option.Value())
-		buf.WriteByte('\'')
+		buf.WriteString(util.Quote(option.Value()))
 	} else {
 		buf.WriteString(option.Value())
 	}
@@ -216,9 +214,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeEnum:
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(enumValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(enumValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -226,9 +222,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeSet:
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(setValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(setValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -286,9 +280,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	if col.HasDefault() {
 		buf.WriteString(" DEFAULT ")
 		if col.IsQuotedDefault() {
-			buf.WriteByte('\'')
-			buf.WriteString(col.Default())
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(col.Default()))
 		} else {
 			buf.WriteString(col.Default())
 		}
@@ -309,9 +301,8 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	}
 
 	if col.HasComment() {
-		buf.WriteString(" COMMENT '")
-		buf.WriteString(col.Comment())
-		buf.WriteByte('\'')
+		buf.WriteString(" COMMENT ")
+		buf.WriteString(util.Quote(col.Comment()))
 	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
diff --git a/internal/util/util.go b/internal/util/util.go
index b2a4a5a..06b1b19 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,31 @@
 package util
 
+import "strings"
+
 // Backquote surrounds the given string in backquotes
 func Backquote(s string) string {
-	// XXX Does this require escaping
-	return "`" + s + "`"
+	return "`" + strings.Replace(s, "`", "``", -1) + "`"
+}
+
+// Quote surrounds the given string in single quotes. Escape sequences
+// that start with a backslash are kept as they are.
+func Quote(s string) string {
+	var buf strings.Builder
+	buf.WriteByte('\'')
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '\'':
+			buf.WriteString("''")
+		case c == '\\' && i+1 == len(s):
+			buf.WriteString(`\\`)
+		case c == '\\':
+			buf.WriteByte(c)
+			i++
+			buf.WriteByte(s[i])
+		default:
+			buf.WriteByte(c)
+		}
+	}
+	buf.WriteByte('\'')
+	return buf.String()
 }
-- 
2.43.0


From 56f4718dbda367780067ebedef66dea670a9d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 06/46] fix: escape backquotes in the names used in generated
 ALTER/DROP statements

---
 diff/diff.go          | 33 +++++++++++++++++----------------
 internal/util/util.go |  8 +++++++-
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index b98f304..acc2020 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -12,6 +12,7 @@ import (
 	"github.com/schemalex/schemalex"
 	"github.com/schemalex/schemalex/format"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -160,7 +161,7 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 			return 0, errors.Errorf(`lookup failed: %s is not a model.Table`, id)
 		}
 		buf.WriteString("DROP TABLE `")
-		buf.WriteString(table.Name())
+		buf.WriteString(util.EscapeBackquote(table.Name()))
 		buf.WriteString("`;")
 	}
 
@@ -284,14 +285,14 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` DROP COLUMN `")
 		col, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
 
-		buf.WriteString(col.Name())
+		buf.WriteString(util.EscapeBackquote(col.Name()))
 		buf.WriteString("`;")
 	}
 
@@ -383,14 +384,14 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` ADD COLUMN ")
 		if err := format.SQL(buf, stmt); err != nil {
 			return err
 		}
 		if hasBeforeCol {
 			buf.WriteString(" AFTER `")
-			buf.WriteString(beforeCol.Name())
+			buf.WriteString(util.EscapeBackquote(beforeCol.Name()))
 			buf.WriteString("`")
 		} else {
 			buf.WriteString(" FIRST")
@@ -423,9 +424,9 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` CHANGE COLUMN `")
-		buf.WriteString(afterColumnStmt.Name())
+		buf.WriteString(util.EscapeBackquote(afterColumnStmt.Name()))
 		buf.WriteString("` ")
 		if err := format.SQL(&buf, afterColumnStmt); err != nil {
 			return 0, err
@@ -453,7 +454,7 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 				buf.WriteByte('\n')
 			}
 			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(ctx.from.Name())
+			buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 			buf.WriteString("` DROP PRIMARY KEY;")
 			continue
 		}
@@ -470,12 +471,12 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` DROP FOREIGN KEY `")
 		if indexStmt.HasSymbol() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Name()))
 		}
 		buf.WriteString("`;")
 	}
@@ -485,12 +486,12 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` DROP INDEX `")
 		if !indexStmt.HasName() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Name()))
 		}
 
 		buf.WriteString("`;")
@@ -518,7 +519,7 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
@@ -531,7 +532,7 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
diff --git a/internal/util/util.go b/internal/util/util.go
index 06b1b19..0dbf765 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -4,7 +4,13 @@ import "strings"
 
 // Backquote surrounds the given string in backquotes
 func Backquote(s string) string {
-	return "`" + strings.Replace(s, "`", "``", -1) + "`"
+	return "`" + EscapeBackquote(s) + "`"
+}
+
+// EscapeBackquote escapes the given string so that it can be used
+// inside of backquotes
+func EscapeBackquote(s string) string {
+	return strings.Replace(s, "`", "``", -1)
 }
 
 // Quote surrounds the given string in single quotes. Escape sequences
-- 
2.43.0


From 53dd3e6bfa2837d9c6cefb9fa0e0ebed2653f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 07/46] fix: keep the name of the DELAY_KEY_WRITE table option

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3ecf5a5..9fb74a1 100644
--- a/parser.go
+++ b/parser.go
@@ -731,7 +731,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case DELAY_KEY_WRITE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DATA_KEY_WRITE", NUMBER); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DELAY_KEY_WRITE", NUMBER); err != nil {
 				return err
 			}
 		case INDEX:
-- 
2.43.0


From 510a293a3d01be1d7507abb3de847387044a7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/46] fix: reject misplaced, repeated, missing or malformed
 size/value lists of columns

---
 parser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 9fb74a1..0b8020e 100644
--- a/parser.go
+++ b/parser.go
@@ -828,10 +828,16 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 		pos = _f
 		return true
 	}
-	for {
+	for first := true; ; first = false {
 		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); first && t.Type != LPAREN && f&(coloptEnumValues|coloptSetValues) != 0 {
+			return newParseError(ctx, t, "expected LPAREN (enum/set values)")
+		}
 		switch t := ctx.next(); t.Type {
 		case LPAREN:
+			if !first {
+				return newParseError(ctx, t, "size or values must be specified right after the column type")
+			}
 			if check(coloptSize) {
 				ctx.skipWhiteSpaces()
 				t := ctx.next()
@@ -886,9 +892,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				l.SetDecimal(tscale)
 				col.SetLength(l)
 			} else if check(coloptEnumValues) {
-				ctx.parseSetOrEnum(col.SetEnumValues)
+				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
+					return err
+				}
 			} else if check(coloptSetValues) {
-				ctx.parseSetOrEnum(col.SetSetValues)
+				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
+					return err
+				}
 			} else {
 				return newParseError(ctx, t, "cannot apply coloptSize, coloptDecimalSize, coloptDecimalOptionalSize, coloptEnumValues, coloptSetValues")
 			}
-- 
2.43.0


From 9b3c2ec5d689b285efd4f4251ea0263ec2801073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/46] fix: only accept names as CHARACTER SET, COLLATE and ON
 UPDATE values of columns

---
 parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser.go b/parser.go
index 0b8020e..d46063d 100644
--- a/parser.go
+++ b/parser.go
@@ -909,10 +909,20 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			switch v.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+			default:
+				return newParseError(ctx, v, "expected IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY")
+			}
 			col.SetCharacterSet(v.Value)
 		case COLLATE:
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			switch v.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+			default:
+				return newParseError(ctx, v, "expected IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY")
+			}
 			col.SetCollation(v.Value)
 		case UNSIGNED:
 			if !check(coloptUnsigned) {
@@ -953,6 +963,9 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			if v.Type != CURRENT_TIMESTAMP && v.Type != IDENT {
+				return newParseError(ctx, v, "expected CURRENT_TIMESTAMP or IDENT")
+			}
 			col.SetAutoUpdate(v.Value)
 		case DEFAULT:
 			if !check(coloptDefault) {
-- 
2.43.0


From a079893595de34b933a983a4efa5a60e3da9273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 10/46] fix: accept a FULLTEXT index that is followed by other
 definitions

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index d46063d..ad4a4f6 100644
--- a/parser.go
+++ b/parser.go
@@ -1407,7 +1407,7 @@ OUTER:
 func (p *Parser) parseColumnIndexOptions(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
 	t := ctx.peek()
-	if t.Type == RPAREN {
+	if t.Type == RPAREN || t.Type == COMMA {
 		return nil
 	}
 	// TODO: support for other index options.
-- 
2.43.0


From da514088d91e58884f2f0367660788e4f1570a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 11/46] fix: allow white space around index column lengths and
 inside of NOW()

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index ad4a4f6..28b615e 100644
--- a/parser.go
+++ b/parser.go
@@ -979,9 +979,11 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				col.SetDefault(strings.ToUpper(t.Value), false)
 			case NOW:
 				now := t.Value
+				ctx.skipWhiteSpaces()
 				if t := ctx.next(); t.Type != LPAREN {
 					return newParseError(ctx, t, "expected LPAREN")
 				}
+				ctx.skipWhiteSpaces()
 				if t := ctx.next(); t.Type != RPAREN {
 					return newParseError(ctx, t, "expected RPAREN")
 				}
@@ -1364,6 +1366,7 @@ OUTER:
 		ctx.skipWhiteSpaces()
 		switch t = ctx.next(); t.Type {
 		case LPAREN:
+			ctx.skipWhiteSpaces()
 			t := ctx.next()
 			if t.Type != NUMBER {
 				return newParseError(ctx, t, "expected NUMBER")
@@ -1379,6 +1382,7 @@ OUTER:
 		}
 
 		// optional sort direction
+		ctx.skipWhiteSpaces()
 		switch t = ctx.peek(); t.Type {
 		case ASC:
 			ctx.advance()
-- 
2.43.0


From 4fa09d909410ceb4d01d2d79677e3cca05d9e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 12/46] fix: report every syntax error as a ParseError at the
 offending token

---
 parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 28b615e..62cdadb 100644
--- a/parser.go
+++ b/parser.go
@@ -311,7 +311,7 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 	case IF:
 		ctx.advance()
 		if _, err := p.parseIdents(ctx, NOT, EXISTS); err != nil {
-			return nil, newParseError(ctx, t, "should NOT EXISTS")
+			return nil, err
 		}
 		ctx.skipWhiteSpaces()
 		table.SetIfNotExists(true)
@@ -1283,11 +1283,11 @@ OUTER:
 		switch t := ctx.next(); t.Type {
 		case DELETE:
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
-				return errors.Wrap(err, `failed to parse ON DELETE`)
+				return err
 			}
 		case UPDATE:
 			if err := p.parseReferenceOption(ctx, r.SetOnUpdate); err != nil {
-				return errors.Wrap(err, `failed to parse ON UPDATE`)
+				return err
 			}
 			break OUTER
 		default:
@@ -1311,7 +1311,8 @@ func (p *Parser) parseColumnIndexName(ctx *parseCtx, index model.Index) error {
 
 func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type != USING {
+	t := ctx.peek()
+	if t.Type != USING {
 		return nil
 	}
 	ctx.advance()
@@ -1325,7 +1326,7 @@ func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 		} else {
 			typ = "NONE"
 		}
-		return errors.Errorf(`statement already has index type declared (%s)`, typ)
+		return newParseError(ctx, t, `statement already has index type declared (%s)`, typ)
 	}
 
 	ctx.skipWhiteSpaces()
-- 
2.43.0


From 55b4a1f6b7d8928711770eae750612b2126b90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 13/46] fix: do not silently skip the rest of the input after
 an unterminated quote

---
 parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.go b/parser.go
index 62cdadb..95ceb38 100644
--- a/parser.go
+++ b/parser.go
@@ -181,6 +181,13 @@ LOOP:
 					fallthrough
 				case EOF:
 					break S1
+				case ILLEGAL:
+					// ILLEGAL tokens are skipped as well, unless it's a literal
+					// without the closing quote: no token follows that one
+					if strings.IndexAny(t.Value, "'\"`") == 0 {
+						return nil, newParseError(ctx, t, "unterminated quote")
+					}
+					ctx.advance()
 				default:
 					ctx.advance()
 				}
-- 
2.43.0


From 94f07b35444d809ab3cbcfa4e580c3fb508d2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 14/46] fix: require CREATE DATABASE and CREATE TABLE LIKE
 statements to be terminated

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 95ceb38..472c080 100644
--- a/parser.go
+++ b/parser.go
@@ -256,7 +256,10 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 	}
 
 	database.SetIfNotExists(notexists)
-	p.eol(ctx)
+	ctx.skipWhiteSpaces()
+	if t := ctx.peek(); !p.eol(ctx) {
+		return nil, newParseError(ctx, t, "expected EOL")
+	}
 	return database, nil
 }
 
@@ -313,6 +316,8 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 		switch t := ctx.peek(); t.Type {
 		case EOF, SEMICOLON:
 			ctx.advance()
+		default:
+			return nil, newParseError(ctx, t, "expected EOL")
 		}
 		return table, nil
 	case IF:
-- 
2.43.0


From b297cf5df84d4db910e50bd111a4c8d208809513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 15/46] fix: accept CREATE TEMPORARY TABLE

---
 parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser.go b/parser.go
index 472c080..a0add1b 100644
--- a/parser.go
+++ b/parser.go
@@ -222,6 +222,17 @@ func (p *Parser) parseCreate(ctx *parseCtx) (model.Stmt, error) {
 		return nil, errors.Ignorable(nil)
 	case TABLE:
 		return p.parseCreateTable(ctx)
+	case TEMPORARY:
+		ctx.advance()
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != TABLE {
+			return nil, newParseError(ctx, t, "expected TABLE")
+		}
+		table, err := p.parseCreateTable(ctx)
+		if err != nil {
+			return nil, err
+		}
+		return table.SetTemporary(true), nil
 	default:
 		return nil, newParseError(ctx, t, "expected DATABASE or TABLE")
 	}
-- 
2.43.0


From 61cf57cf03e388a7c5197a7e8d6d0f0a8fe4778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 16/46] fix: format the sort direction of referenced columns

---
 format/format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/format.go b/format/format.go
index 9975b57..f4cf634 100644
--- a/format/format.go
+++ b/format/format.go
@@ -429,6 +429,13 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 			buf.WriteString(col.Length())
 			buf.WriteByte(')')
 		}
+		if col.HasSortDirection() {
+			if col.IsAscending() {
+				buf.WriteString(" ASC")
+			} else {
+				buf.WriteString(" DESC")
+			}
+		}
 		if i < lch-1 {
 			buf.WriteString(", ")
 		}
-- 
2.43.0


From 82f1c4deb32b4a2063678100134f68fe55464507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 17/46] fix: keep the backquotes of table option values that
 require them

---
 lexer.go  | 11 +++++++++++
 parser.go |  9 ++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 31c6c06..9dae58d 100644
--- a/lexer.go
+++ b/lexer.go
@@ -397,6 +397,17 @@ func isCharacter(r rune) bool {
 	return isDigit(r) || isLetter(r) || r == '_'
 }
 
+// isPlainIdent returns true if s would be lexed as an IDENT
+func isPlainIdent(s string) bool {
+	for i, r := range s {
+		if !isCharacter(r) || (i == 0 && !isLetter(r)) {
+			return false
+		}
+	}
+	_, isKeyword := keywordIdentMap[strings.ToUpper(s)]
+	return s != "" && !isKeyword
+}
+
 func isDigit(r rune) bool {
 	return r >= '0' && r <= '9'
 }
diff --git a/parser.go b/parser.go
index a0add1b..f4530c3 100644
--- a/parser.go
+++ b/parser.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -668,7 +669,13 @@ func (p *Parser) parseCreateTableOptionValue(ctx *parseCtx, table model.Table, n
 		case SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT:
 			quotes = true
 		}
-		table.AddOption(model.NewTableOption(name, t.Value, quotes))
+		value := t.Value
+		if t.Type == BACKTICK_IDENT && !isPlainIdent(value) {
+			// values without quotes are formatted as they are, so we
+			// need to keep the backquotes if the value requires them
+			value = util.Backquote(value)
+		}
+		table.AddOption(model.NewTableOption(name, value, quotes))
 		return nil
 	}
 	return newParseError(ctx, t, "expected %v", follow)
-- 
2.43.0


From a84a3ff817c5d614a656e2318079066d79383f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 18/46] fix: ignore the case of CURRENT_TIMESTAMP in ON UPDATE

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index f4530c3..751e9ca 100644
--- a/parser.go
+++ b/parser.go
@@ -996,6 +996,9 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			if v.Type != CURRENT_TIMESTAMP && v.Type != IDENT {
 				return newParseError(ctx, v, "expected CURRENT_TIMESTAMP or IDENT")
 			}
+			if v.Type == CURRENT_TIMESTAMP {
+				v.Value = strings.ToUpper(v.Value)
+			}
 			col.SetAutoUpdate(v.Value)
 		case DEFAULT:
 			if !check(coloptDefault) {
-- 
2.43.0


From cf87be1537ad9d910303206794de6b574becc14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 19/46] fix: report remote hosts in file:// sources, and take
 plain paths literally

---
 source.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index f07bb6b..cf6819d 100644
--- a/source.go
+++ b/source.go
@@ -58,6 +58,11 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		return NewMySQLSource(uri[8:]), nil
 	}
 
+	if !hasScheme(uri) && !strings.HasPrefix(uri, "//") {
+		// This is a plain path, which should not be parsed as an URI
+		return NewLocalFileSource(uri), nil
+	}
+
 	u, err := url.Parse(uri)
 	if err != nil {
 		return nil, errors.Wrap(err, `failed to parse uri`)
@@ -71,7 +76,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	case "file", "":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
-			return nil, errors.Wrap(err, `remote hosts for file:// sources are not supported`)
+			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
 		return NewLocalFileSource(u.Path), nil
 	}
@@ -79,6 +84,22 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	return nil, errors.New("invalid source")
 }
 
+// hasScheme returns true if the string starts with a scheme part
+func hasScheme(uri string) bool {
+	for i, r := range uri {
+		switch {
+		case isLetter(r):
+		case isDigit(r), r == '+', r == '-', r == '.':
+			if i == 0 {
+				return false
+			}
+		default:
+			return r == ':' && i > 0
+		}
+	}
+	return false
+}
+
 // NewReaderSource creates a SchemaSource whose contents are read from the
 // given io.Reader.
 func NewReaderSource(src io.Reader) SchemaSource {
-- 
2.43.0


From cce8874f8dd055aad4d450a0e4c7f1722c536d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 20/46] fix: report errors that end the list of tables of a
 MySQL source early

---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index cf6819d..25ce3a7 100644
--- a/source.go
+++ b/source.go
@@ -250,6 +250,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 		buf.WriteString(tableSchema)
 		buf.WriteByte(';')
 	}
+	if err := tableRows.Err(); err != nil {
+		return errors.Wrap(err, `failed to retrieve tables`)
+	}
 
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
-- 
2.43.0


From 2c13ad4302d5bbfded7acf3f8484dd031aa728c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 21/46] fix: escape backquotes in the table names of a MySQL
 source

---
 source.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index 25ce3a7..f9097be 100644
--- a/source.go
+++ b/source.go
@@ -17,6 +17,7 @@ import (
 
 	"github.com/go-sql-driver/mysql"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 )
 
 // SchemaSource is the interface used for objects that provide us with
@@ -240,7 +241,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 			return errors.Wrap(err, `failed to scan tables`)
 		}
 
-		if err = db.QueryRow("SHOW CREATE TABLE `"+table+"`").Scan(&table, &tableSchema); err != nil {
+		if err = db.QueryRow("SHOW CREATE TABLE "+util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
 			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
 		}
 		if buf.Len() > 0 {
-- 
2.43.0


From 494a8e6d32581c3e56d8653cbb8b49dccbcf0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 22/46] fix: do not send the ssl-* parameters of a MySQL source
 to the server

---
 source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source.go b/source.go
index f9097be..cc9f0e4 100644
--- a/source.go
+++ b/source.go
@@ -193,6 +193,11 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 			Certificates: []tls.Certificate{certs},
 		})
 		cfg.TLSConfig = tlsName
+
+		// these are not system variables, so they must not be sent to the server
+		delete(cfg.Params, "ssl-ca")
+		delete(cfg.Params, "ssl-cert")
+		delete(cfg.Params, "ssl-secret")
 	}
 	return cfg, nil
 }
-- 
2.43.0


From b7b2f0ab29e0d857aa6963cbef98249dcd83e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 23/46] fix: report write errors when linting

---
 lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 2e25658..0d6a528 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -35,13 +35,17 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 
 	for i, stmt := range stmts {
 		if i != 0 {
-			dst.Write([]byte{'\n', '\n'})
+			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
+				return errors.Wrap(err, `failed to write result`)
+			}
 		}
 
 		if err := format.SQL(dst, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		dst.Write([]byte{';'})
+		if _, err := dst.Write([]byte{';'}); err != nil {
+			return errors.Wrap(err, `failed to write result`)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 000464480d43c2abaad209eb359d4ab9a56ab52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 24/46] fix: normalize defaults of numeric columns without
 modifying the receiver or breaking strings

---
 model/table_column.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index eb97f3c..f8db5d4 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -1,9 +1,14 @@
 package model
 
 import (
+	"regexp"
 	"strconv"
+	"strings"
 )
 
+// numberPattern matches the literals that do not need to be quoted
+var numberPattern = regexp.MustCompile(`^(?:[+-]?[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE]-?[0-9]+)?$`)
+
 // NewLength creates a new Length which describes the
 // length of a column
 func NewLength(v string) Length {
@@ -300,6 +305,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	var synonym ColumnType
 	var removeQuotes bool
 	var setDefaultNull bool
+	defaultValue := t.Default()
 
 	if !t.HasLength() {
 		if l := t.NativeLength(); l != nil {
@@ -327,18 +333,27 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			ColumnTypeMediumInt, ColumnTypeInt,
 			ColumnTypeInteger, ColumnTypeBigInt,
 			ColumnTypeFloat, ColumnTypeDouble,
-			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal:
+			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
+			ColumnTypeBool, ColumnTypeBoolean:
 			// If numeric type then trim quote
 			if t.IsQuotedDefault() {
-				clone = true
-				removeQuotes = true
+				if numberPattern.MatchString(defaultValue) {
+					clone = true
+					removeQuotes = true
+					defaultValue = strings.ToUpper(defaultValue)
+				}
+				break
 			}
-		case ColumnTypeBool, ColumnTypeBoolean:
-			switch t.Default() {
+			// TRUE and FALSE are aliases for 1 and 0
+			switch defaultValue {
 			case "TRUE":
-				t.SetDefault("1", false)
+				clone = true
+				removeQuotes = true
+				defaultValue = "1"
 			case "FALSE":
-				t.SetDefault("0", false)
+				clone = true
+				removeQuotes = true
+				defaultValue = "0"
 			}
 		}
 	} else {
@@ -372,7 +387,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	col.SetNullState(nullState)
 
 	if removeQuotes {
-		col.SetDefault(t.Default(), false)
+		col.SetDefault(defaultValue, false)
 	}
 
 	if setDefaultNull {
-- 
2.43.0


From f7041d364ab2a9645a18848e80d2d2ee03c2ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 25/46] fix: normalize all of the keys that are declared in a
 column definition

---
 model/table.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 2407946..85f637a 100644
--- a/model/table.go
+++ b/model/table.go
@@ -157,8 +157,7 @@ func (t *table) Normalize() (Table, bool) {
 
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
-		switch {
-		case ncol.IsPrimary():
+		if ncol.IsPrimary() || ncol.IsKey() {
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -171,7 +170,9 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
-		case ncol.IsUnique():
+			ncol.SetKey(false)
+		}
+		if ncol.IsUnique() {
 			index := NewIndex(IndexKindUnique, t.ID())
 			// if you do not assign a name, the index is assigned the same name as the first indexed column
 			index.SetName(ncol.Name())
-- 
2.43.0


From ec8136062624b6b6a7f379c78fbef7bf2ca576d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 26/46] fix: do not add an implicit index if the index is
 declared after the foreign key

---
 model/table.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/model/table.go b/model/table.go
index 85f637a..ec5d199 100644
--- a/model/table.go
+++ b/model/table.go
@@ -192,6 +192,15 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	// the index for a constraint may be declared anywhere in the table
+	for _, idx := range additionalIndexes {
+		seen[idx.Name()] = struct{}{}
+	}
+	for idx := range t.Indexes() {
+		if !idx.IsForeignKey() {
+			seen[idx.Name()] = struct{}{}
+		}
+	}
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
 		if modified {
@@ -222,10 +231,10 @@ func (t *table) Normalize() (Table, bool) {
 				}
 				index.AddColumns(columns...)
 				indexes = append(indexes, index)
+				seen[nidx.Symbol()] = struct{}{}
 			}
 		}
 		indexes = append(indexes, nidx)
-		seen[nidx.Name()] = struct{}{}
 	}
 
 	if !clone {
-- 
2.43.0


From 058fafec62cb9172ca00825d1aaf6893e59921d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 27/46] fix: take sort directions and options into account in
 index identities, and make them unambiguous

---
 model/index.go     | 22 +++++++++++++++++++---
 model/reference.go |  4 ++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/model/index.go b/model/index.go
index 3d6a117..a21cb90 100644
--- a/model/index.go
+++ b/model/index.go
@@ -3,6 +3,7 @@ package model
 import (
 	"crypto/sha256"
 	"fmt"
+	"io"
 )
 
 // NewIndex creates a new index with the given index kind.
@@ -28,11 +29,11 @@ func (stmt *index) ID() string {
 
 	sym := "none"
 	if stmt.HasSymbol() {
-		sym = stmt.Symbol()
+		sym = fmt.Sprintf("%q", stmt.Symbol())
 	}
 
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		stmt.table,
 		sym,
 		stmt.kind,
@@ -40,7 +41,10 @@ func (stmt *index) ID() string {
 	)
 	for col := range stmt.Columns() {
 		fmt.Fprintf(h, ".")
-		fmt.Fprintf(h, "%s", col.ID())
+		writeIndexColumnID(h, col)
+	}
+	for _, opt := range stmt.options {
+		fmt.Fprintf(h, ".%q=%q", opt.Key(), opt.Value())
 	}
 	if stmt.reference != nil {
 		fmt.Fprintf(h, ".")
@@ -49,6 +53,18 @@ func (stmt *index) ID() string {
 	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
 }
 
+// writeIndexColumnID writes everything that identifies an index column
+func writeIndexColumnID(w io.Writer, col IndexColumn) {
+	fmt.Fprintf(w, "%q", col.Name())
+	if col.HasLength() {
+		fmt.Fprintf(w, "(%q)", col.Length())
+	}
+	// ascending is the default
+	if col.IsDescending() {
+		fmt.Fprintf(w, "DESC")
+	}
+}
+
 func (stmt *index) AddColumns(l ...IndexColumn) {
 	stmt.columns = append(stmt.columns, l...)
 }
diff --git a/model/reference.go b/model/reference.go
index d1fb6ce..f016dc6 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -17,14 +17,14 @@ func NewReference() Reference {
 func (r *reference) ID() string {
 	h := sha256.New()
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		r.tableName,
 		r.match,
 		r.onDelete,
 		r.onUpdate,
 	)
 	for col := range r.Columns() {
-		fmt.Fprintf(h, "%s", col.ID())
+		writeIndexColumnID(h, col)
 		fmt.Fprintf(h, ".")
 	}
 	return fmt.Sprintf("reference#%x", h.Sum(nil))
-- 
2.43.0


From 109ce3e5a91f3fa0fa32517e931b24f6283ba4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 28/46] fix: make clones of columns and indexes independent of
 the original

---
 model/index.go        | 21 +++++++++++++++++++++
 model/table_column.go |  6 ++++++
 2 files changed, 27 insertions(+)

diff --git a/model/index.go b/model/index.go
index a21cb90..ba87f6f 100644
--- a/model/index.go
+++ b/model/index.go
@@ -177,9 +177,30 @@ func (stmt *index) Normalize() (Index, bool) {
 func (stmt *index) Clone() Index {
 	newindex := &index{}
 	*newindex = *stmt
+	newindex.columns = nil
+	for _, col := range stmt.columns {
+		newindex.columns = append(newindex.columns, cloneIndexColumn(col))
+	}
+	newindex.options = append([]IndexOption(nil), stmt.options...)
+	if ref, ok := stmt.reference.(*reference); ok && ref != nil {
+		newref := *ref
+		newref.columns = nil
+		for _, col := range ref.columns {
+			newref.columns = append(newref.columns, cloneIndexColumn(col))
+		}
+		newindex.reference = &newref
+	}
 	return newindex
 }
 
+func cloneIndexColumn(v IndexColumn) IndexColumn {
+	if col, ok := v.(*indexColumn); ok && col != nil {
+		newcol := *col
+		return &newcol
+	}
+	return v
+}
+
 func NewIndexColumn(name string) IndexColumn {
 	return &indexColumn{
 		name: name,
diff --git a/model/table_column.go b/model/table_column.go
index f8db5d4..a96e9b5 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -399,5 +399,11 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 func (t *tablecol) Clone() TableColumn {
 	col := &tablecol{}
 	*col = *t
+	if l, ok := t.length.(*length); ok && l != nil {
+		newlength := *l
+		col.length = &newlength
+	}
+	col.enumValues = append([]string(nil), t.enumValues...)
+	col.setValues = append([]string(nil), t.setValues...)
 	return col
 }
-- 
2.43.0


From 81e78ae91937078023737cf4cc4849bd2b5d1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 29/46] fix: generate the statements of a diff in a stable
 order

---
 diff/diff.go | 65 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index acc2020..8606fd6 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -23,6 +23,45 @@ type diffCtx struct {
 	to      model.Stmts
 }
 
+// inOrder returns the elements of the set in the order that they appear in
+// ids, because the order of the elements in the set itself is random
+func inOrder(set mapset.Set, ids []string) []interface{} {
+	var l []interface{}
+	seen := mapset.NewSet()
+	for _, id := range ids {
+		if set.Contains(id) && seen.Add(id) {
+			l = append(l, id)
+		}
+	}
+	return l
+}
+
+func tableIDs(stmts model.Stmts) []string {
+	var ids []string
+	for _, stmt := range stmts {
+		if table, ok := stmt.(model.Table); ok {
+			ids = append(ids, table.ID())
+		}
+	}
+	return ids
+}
+
+func columnIDs(table model.Table) []string {
+	var ids []string
+	for col := range table.Columns() {
+		ids = append(ids, col.ID())
+	}
+	return ids
+}
+
+func indexIDs(table model.Table) []string {
+	var ids []string
+	for idx := range table.Indexes() {
+		ids = append(ids, idx.ID())
+	}
+	return ids
+}
+
 func newDiffCtx(from, to model.Stmts) *diffCtx {
 	fromSet := mapset.NewSet()
 	for _, stmt := range from {
@@ -146,7 +185,7 @@ func Sources(dst io.Writer, from, to schemalex.SchemaSource, options ...Option)
 func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	ids := ctx.fromSet.Difference(ctx.toSet)
-	for i, id := range ids.ToSlice() {
+	for i, id := range inOrder(ids, tableIDs(ctx.from)) {
 		if i > 0 {
 			buf.WriteByte('\n')
 		}
@@ -172,7 +211,7 @@ func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 
 	ids := ctx.toSet.Difference(ctx.fromSet)
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, tableIDs(ctx.to)) {
 		// Lookup the corresponding statement, and add its SQL
 		stmt, ok := ctx.to.Lookup(id.(string))
 		if !ok {
@@ -242,7 +281,7 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, tableIDs(ctx.to)) {
 		var stmt model.Stmt
 		var ok bool
 
@@ -280,7 +319,7 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	columnNames := ctx.fromColumns.Difference(ctx.toColumns)
 
 	var buf bytes.Buffer
-	for _, columnName := range columnNames.ToSlice() {
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.from)) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
@@ -309,7 +348,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// we always start adding with a column that has a either no before
 	// columns, or one that already exists in the database
 	var firstColumn model.TableColumn
-	for _, v := range ctx.toColumns.Difference(ctx.fromColumns).ToSlice() {
+	for _, v := range inOrder(ctx.toColumns.Difference(ctx.fromColumns), columnIDs(ctx.to)) {
 		columnName := v.(string)
 		// find the before-column for each.
 		col, ok := ctx.to.LookupColumn(columnName)
@@ -338,7 +377,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var columnNames []string
 	// Find columns that have before columns which existed in both
 	// from and to tables
-	for _, v := range ctx.toColumns.Intersect(ctx.fromColumns).ToSlice() {
+	for _, v := range inOrder(ctx.toColumns.Intersect(ctx.fromColumns), columnIDs(ctx.to)) {
 		columnName := v.(string)
 		if nextColumnName, ok := beforeToNext[columnName]; ok {
 			delete(beforeToNext, columnName)
@@ -405,7 +444,7 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	columnNames := ctx.toColumns.Intersect(ctx.fromColumns)
-	for _, columnName := range columnNames.ToSlice() {
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.to)) {
 		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in old schema`, columnName)
@@ -439,11 +478,11 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
-	indexes := ctx.fromIndexes.Difference(ctx.toIndexes)
+	indexes := inOrder(ctx.fromIndexes.Difference(ctx.toIndexes), indexIDs(ctx.from))
 	// drop index after drop constraint.
 	// because cannot drop index if needed in a foreign key constraint
-	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
+	lazy := make([]model.Index, 0, len(indexes))
+	for _, index := range indexes {
 		indexStmt, ok := ctx.from.LookupIndex(index.(string))
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (drop index)`, index)
@@ -502,11 +541,11 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
-	indexes := ctx.toIndexes.Difference(ctx.fromIndexes)
+	indexes := inOrder(ctx.toIndexes.Difference(ctx.fromIndexes), indexIDs(ctx.to))
 	// add index before add foreign key.
 	// because cannot add index if create implicitly index by foreign key.
-	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
+	lazy := make([]model.Index, 0, len(indexes))
+	for _, index := range indexes {
 		indexStmt, ok := ctx.to.LookupIndex(index.(string))
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (add index)`, index)
-- 
2.43.0


From bbcfd5ab11bffbd429e422e375547948e37326b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 30/46] fix: alter the tables before creating copies of them

---
 diff/diff.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/diff/diff.go b/diff/diff.go
index 8606fd6..ec36c42 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -102,6 +102,7 @@ func Statements(dst io.Writer, from, to model.Stmts, options ...Option) error {
 		dropTables,
 		createTables,
 		alterTables,
+		createLikeTables, // the original may have been altered
 	}
 
 	var buf bytes.Buffer
@@ -208,6 +209,14 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 }
 
 func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
+	return writeCreateTables(ctx, dst, false)
+}
+
+func createLikeTables(ctx *diffCtx, dst io.Writer) (int64, error) {
+	return writeCreateTables(ctx, dst, true)
+}
+
+func writeCreateTables(ctx *diffCtx, dst io.Writer, like bool) (int64, error) {
 	var buf bytes.Buffer
 
 	ids := ctx.toSet.Difference(ctx.fromSet)
@@ -217,6 +226,9 @@ func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
+		if table, ok := stmt.(model.Table); ok && table.HasLikeTable() != like {
+			continue
+		}
 
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
-- 
2.43.0


From 1a8ab2e89c6f422cb4f73a05cf1f228e3b7aadfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 31/46] fix: never drop the last column of a table when all
 columns are replaced

---
 diff/diff.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff/diff.go b/diff/diff.go
index ec36c42..958178c 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -311,6 +311,12 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 		var pbuf bytes.Buffer
 		alterCtx := newAlterCtx(beforeStmt, afterStmt)
+		// a table must not lose all of its columns, so add the new ones
+		// before dropping the old ones if there are no columns in common
+		procs[1], procs[2] = dropTableColumns, addTableColumns
+		if alterCtx.fromColumns.Intersect(alterCtx.toColumns).Cardinality() == 0 {
+			procs[1], procs[2] = addTableColumns, dropTableColumns
+		}
 		for _, p := range procs {
 			n, err := p(alterCtx, &pbuf)
 			if err != nil {
-- 
2.43.0


From 74cff1631aad433ba51d4e3fadde28d6e6d66f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 32/46] fix: do not truncate the output file before the result
 is known

---
 cmd/schemadiff/schemadiff.go | 35 +++++++++++++++++++++--------------
 cmd/schemalex/schemalex.go   | 35 +++++++++++++++++++++--------------
 cmd/schemalint/schemalint.go | 27 +++++++++++++++------------
 3 files changed, 57 insertions(+), 40 deletions(-)

diff --git a/cmd/schemadiff/schemadiff.go b/cmd/schemadiff/schemadiff.go
index 43c7aa5..2e105fe 100644
--- a/cmd/schemadiff/schemadiff.go
+++ b/cmd/schemadiff/schemadiff.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -77,16 +78,7 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
+	var dst bytes.Buffer
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -98,10 +90,25 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	if err := diff.Sources(
+		&dst,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	// The file is not touched until we have the result, because it may be
+	// one of the sources, and it should be left alone in case of errors
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, dst.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+	if _, err := dst.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write result`)
+	}
+	return nil
 }
diff --git a/cmd/schemalex/schemalex.go b/cmd/schemalex/schemalex.go
index ecbb0e9..7047f19 100644
--- a/cmd/schemalex/schemalex.go
+++ b/cmd/schemalex/schemalex.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -76,16 +77,7 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
+	var dst bytes.Buffer
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -97,10 +89,25 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	if err := diff.Sources(
+		&dst,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	// The file is not touched until we have the result, because it may be
+	// one of the sources, and it should be left alone in case of errors
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, dst.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+	if _, err := dst.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write result`)
+	}
+	return nil
 }
diff --git a/cmd/schemalint/schemalint.go b/cmd/schemalint/schemalint.go
index e6246d7..0a1d53a 100644
--- a/cmd/schemalint/schemalint.go
+++ b/cmd/schemalint/schemalint.go
@@ -1,10 +1,11 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -84,16 +85,7 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
+	var dst bytes.Buffer
 	src, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -104,9 +96,20 @@ Examples:
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	if err := linter.Run(ctx, src, dst, lint.WithIndent(" ", indentNum)); err != nil {
+	if err := linter.Run(ctx, src, &dst, lint.WithIndent(" ", indentNum)); err != nil {
 		return errors.Wrap(err, `failed to lint source`)
 	}
 
+	// The file is not touched until we have the result, because it may be
+	// one of the sources, and it should be left alone in case of errors
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, dst.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+	if _, err := dst.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write result`)
+	}
 	return nil
 }
-- 
2.43.0


From 0d4ae09920f33335b33b1fbee4d7338c68eed8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 33/46] fix: reject a repeated ON DELETE of a foreign key

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 751e9ca..096e3d3 100644
--- a/parser.go
+++ b/parser.go
@@ -1315,6 +1315,9 @@ OUTER:
 
 		switch t := ctx.next(); t.Type {
 		case DELETE:
+			if i > 0 {
+				return newParseError(ctx, t, "ON DELETE specified twice")
+			}
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
 				return err
 			}
-- 
2.43.0


From 12528fc3db6686652694e07666a5a06294f0a869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 34/46] fix: drop foreign keys before the primary key that
 backs them

---
 diff/diff.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 958178c..cb53cdb 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -507,12 +507,7 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 
 		if indexStmt.IsPrimaryKey() {
-			if buf.Len() > 0 {
-				buf.WriteByte('\n')
-			}
-			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
-			buf.WriteString("` DROP PRIMARY KEY;")
+			lazy = append(lazy, indexStmt)
 			continue
 		}
 
@@ -544,6 +539,10 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 		buf.WriteString("ALTER TABLE `")
 		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
+		if indexStmt.IsPrimaryKey() {
+			buf.WriteString("` DROP PRIMARY KEY;")
+			continue
+		}
 		buf.WriteString("` DROP INDEX `")
 		if !indexStmt.HasName() {
 			buf.WriteString(util.EscapeBackquote(indexStmt.Symbol()))
-- 
2.43.0


From 842103efe273dd09692a466037f0fe1b2787a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 35/46] fix: a git source delivers files only, not listings of
 directories

---
 source.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index cc9f0e4..a3643ff 100644
--- a/source.go
+++ b/source.go
@@ -265,7 +265,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 
 func (s localGitSource) WriteSchema(dst io.Writer) error {
 	var out bytes.Buffer
-	cmd := exec.Command("git", "show", fmt.Sprintf("%s:%s", s.commitish, s.file))
+	// only a file has contents: "show" would give us listings of directories,
+	// and it would take a commitish that looks like an option for one
+	cmd := exec.Command("git", "cat-file", "blob", "--end-of-options", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
 	cmd.Dir = s.dir
 
-- 
2.43.0


From 005f619cdbd4196819112ea38e0090dd189c0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 36/46] fix: refuse remote hosts of local-git sources

---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index a3643ff..b53cb88 100644
--- a/source.go
+++ b/source.go
@@ -71,6 +71,9 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 
 	switch strings.ToLower(u.Scheme) {
 	case "local-git":
+		if u.Host != "" && u.Host != "localhost" {
+			return nil, errors.New(`remote hosts for local-git:// sources are not supported`)
+		}
 		// local-git:///path/to/dir?file=foo&commitish=bar
 		q := u.Query()
 		return NewLocalGitSource(u.Path, q.Get("file"), q.Get("commitish")), nil
-- 
2.43.0


From 85d25ea3a32e57e652967096f565fa674441932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 37/46] fix: report a short write of a column type or of lint
 output

---
 format/format.go |  2 +-
 lint/lint.go     | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/format/format.go b/format/format.go
index f4cf634..fbf5c90 100644
--- a/format/format.go
+++ b/format/format.go
@@ -189,7 +189,7 @@ func formatColumnType(ctx *fmtCtx, col model.ColumnType) error {
 		return errors.New(`invalid column type`)
 	}
 
-	if _, err := io.WriteString(ctx.dst, col.String()); err != nil {
+	if _, err := bytes.NewBufferString(col.String()).WriteTo(ctx.dst); err != nil {
 		return err
 	}
 
diff --git a/lint/lint.go b/lint/lint.go
index 0d6a528..8833f50 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -33,19 +33,20 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 		return errors.Wrap(err, `failed to parse source`)
 	}
 
+	var out bytes.Buffer
 	for i, stmt := range stmts {
 		if i != 0 {
-			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
-				return errors.Wrap(err, `failed to write result`)
-			}
+			out.WriteString("\n\n")
 		}
 
-		if err := format.SQL(dst, stmt, options...); err != nil {
+		if err := format.SQL(&out, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		if _, err := dst.Write([]byte{';'}); err != nil {
-			return errors.Wrap(err, `failed to write result`)
-		}
+		out.WriteByte(';')
+	}
+
+	if _, err := out.WriteTo(dst); err != nil {
+		return errors.Wrap(err, `failed to write result`)
 	}
 
 	return nil
-- 
2.43.0


From 40871dbfb9e074c339ec3fa29d0f16fcbea9d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 38/46] fix: do not ignore the options given to lint.New

---
 lint/lint.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 8833f50..be69bdc 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -10,7 +10,9 @@ import (
 	"github.com/schemalex/schemalex/format"
 )
 
-type Linter struct{}
+type Linter struct {
+	options []Option
+}
 type Option = schemalex.Option
 
 func WithIndent(s string, n int) Option {
@@ -18,7 +20,7 @@ func WithIndent(s string, n int) Option {
 }
 
 func New(options ...Option) *Linter {
-	return &Linter{}
+	return &Linter{options: append([]Option(nil), options...)}
 }
 
 func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Writer, options ...Option) error {
@@ -27,6 +29,9 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 		return errors.Wrap(err, `failed to read from source`)
 	}
 
+	// the options of this run override those of the linter
+	options = append(l.options[:len(l.options):len(l.options)], options...)
+
 	p := schemalex.New()
 	stmts, err := p.Parse(buf.Bytes())
 	if err != nil {
-- 
2.43.0


From 7b0a875a9553422c0f8fac5efd5f5136c6409961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:48 +0000
Subject: [PATCH 39/46] fix: normalizing a table keeps the table it is like

---
 model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table.go b/model/table.go
index ec5d199..9679c7e 100644
--- a/model/table.go
+++ b/model/table.go
@@ -244,6 +244,9 @@ func (t *table) Normalize() (Table, bool) {
 	tbl := NewTable(t.Name())
 	tbl.SetIfNotExists(t.IsIfNotExists())
 	tbl.SetTemporary(t.IsTemporary())
+	if t.HasLikeTable() {
+		tbl.SetLikeTable(t.LikeTable())
+	}
 
 	for _, index := range additionalIndexes {
 		tbl.AddIndex(index)
-- 
2.43.0


From 665c9c17a76becefc375e5cbf0e609d8bd86ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:38 +0000
Subject: [PATCH 40/46] fix: names of columns are not case sensitive: change a
 column whose case differs instead of adding it again

---
 model/table_column.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/table_column.go b/model/table_column.go
index a96e9b5..004197b 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -43,7 +43,8 @@ func NewTableColumn(name string) TableColumn {
 }
 
 func (t *tablecol) ID() string {
-	return "tablecol#" + t.name
+	// names of columns are not case sensitive
+	return "tablecol#" + strings.ToLower(t.name)
 }
 
 func (t *tablecol) SetTableID(id string) TableColumn {
-- 
2.43.0


From 830a883f758f54859ad0957e03a99ccecbd67509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 41/46] fix: the normal form of a table has indexes of its own

---
 model/table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/table.go b/model/table.go
index 9679c7e..2568498 100644
--- a/model/table.go
+++ b/model/table.go
@@ -227,7 +227,7 @@ func (t *table) Normalize() (Table, bool) {
 				}
 				columns := []IndexColumn{}
 				for c := range nidx.Columns() {
-					columns = append(columns, c)
+					columns = append(columns, cloneIndexColumn(c))
 				}
 				index.AddColumns(columns...)
 				indexes = append(indexes, index)
@@ -256,8 +256,9 @@ func (t *table) Normalize() (Table, bool) {
 		tbl.AddColumn(col)
 	}
 
+	// the new table must not share its indexes with the receiver
 	for _, idx := range indexes {
-		tbl.AddIndex(idx)
+		tbl.AddIndex(idx.Clone())
 	}
 
 	for opt := range t.Options() {
-- 
2.43.0


From e83fcc648c3abe258787b963ea2b92fde589b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:52 +0000
Subject: [PATCH 42/46] fix: columns have lists of values of their own

The values of an ENUM or SET column were those of the slice given to
SetEnumValues or SetSetValues, so a later change of that slice by the
caller changed the column as well.
---
 model/table_column.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index 004197b..49482c4 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -234,7 +234,7 @@ func (t *tablecol) HasEnumValues() bool {
 }
 
 func (t *tablecol) SetEnumValues(enumValues []string) TableColumn {
-	t.enumValues = enumValues
+	t.enumValues = append([]string(nil), enumValues...)
 	return t
 }
 
@@ -252,7 +252,7 @@ func (t *tablecol) HasSetValues() bool {
 }
 
 func (t *tablecol) SetSetValues(setValues []string) TableColumn {
-	t.setValues = setValues
+	t.setValues = append([]string(nil), setValues...)
 	return t
 }
 
-- 
2.43.0


From fd3b8321f06b571134338351c150bae19569167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 43/46] fix: errors of the columns to be added were ignored

---
 diff/diff.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index cb53cdb..e406ab8 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -389,7 +389,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	// First column is always safe to add
 	if firstColumn != nil {
-		writeAddColumn(ctx, &buf, firstColumn.ID())
+		if err := writeAddColumn(ctx, &buf, firstColumn.ID()); err != nil {
+			return 0, err
+		}
 	}
 
 	var columnNames []string
@@ -406,7 +408,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	if len(columnNames) > 0 {
 		sort.Strings(columnNames)
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 
 	// Finally, we process the remaining columns.
@@ -424,7 +428,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
 			return icol < jcol
 		})
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 	return buf.WriteTo(dst)
 }
-- 
2.43.0


From b2518eb76b25ddf438cff7862262bc3af217466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:33 +0000
Subject: [PATCH 44/46] fix: models that no statement can express were written
 as texts that cannot be read

---
 format/format.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index fbf5c90..d4573a7 100644
--- a/format/format.go
+++ b/format/format.go
@@ -134,6 +134,9 @@ func formatTable(ctx *fmtCtx, table model.Table) error {
 		idxch := table.Indexes()
 		colchmax := len(colch)
 		idxchmax := len(idxch)
+		if colchmax == 0 && idxchmax == 0 {
+			return errors.New(`no columns in table`)
+		}
 
 		var i int
 		for col := range colch {
@@ -212,6 +215,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 
 	switch col.Type() {
 	case model.ColumnTypeEnum:
+		if !col.HasEnumValues() {
+			return errors.New(`no values in column type`)
+		}
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
 			buf.WriteString(util.Quote(enumValue))
@@ -220,6 +226,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.Truncate(buf.Len() - 1)
 		buf.WriteByte(')')
 	case model.ColumnTypeSet:
+		if !col.HasSetValues() {
+			return errors.New(`no values in column type`)
+		}
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
 			buf.WriteString(util.Quote(setValue))
@@ -334,6 +343,8 @@ func formatIndex(ctx *fmtCtx, index model.Index) error {
 		buf.WriteString("SPATIAL INDEX")
 	case index.IsForeignKey():
 		buf.WriteString("FOREIGN KEY")
+	default:
+		return errors.New(`invalid index kind`)
 	}
 
 	if index.HasName() {
@@ -396,6 +407,9 @@ func formatIndex(ctx *fmtCtx, index model.Index) error {
 	}
 
 	if ref := index.Reference(); ref != nil {
+		if !index.IsForeignKey() {
+			return errors.New(`reference in index that is no foreign key`)
+		}
 		newctx := ctx.clone()
 		newctx.dst = &buf
 
@@ -421,6 +435,9 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 
 	ch := r.Columns()
 	lch := len(ch)
+	if lch == 0 {
+		return errors.New(`no columns in reference`)
+	}
 	var i int
 	for col := range ch {
 		buf.WriteString(util.Backquote(col.Name()))
@@ -452,9 +469,12 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 		buf.WriteString(" MATCH SIMPLE")
 	}
 
-	// we should really check for errors...
-	writeReferenceOption(&buf, "ON DELETE", r.OnDelete())
-	writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate())
+	if err := writeReferenceOption(&buf, "ON DELETE", r.OnDelete()); err != nil {
+		return err
+	}
+	if err := writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate()); err != nil {
+		return err
+	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
 		return err
-- 
2.43.0


From 4f41c48c0c8a902b19c31222d7dc20f0e516b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 45/46] fix: vertical tabs and form feeds are white space

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 9dae58d..9d56ece 100644
--- a/lexer.go
+++ b/lexer.go
@@ -386,7 +386,7 @@ func (l *lexer) runNumber() {
 }
 
 func isSpace(r rune) bool {
-	return r == ' ' || r == '\n' || r == '\t' || r == '\r'
+	return r == ' ' || r == '\n' || r == '\t' || r == '\r' || r == '\v' || r == '\f'
 }
 
 func isLetter(r rune) bool {
-- 
2.43.0


From 7f5dbb5789b980643a6e643c375206230f552783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:43 +0000
Subject: [PATCH 46/46] fix: git sources read the repository they name,
 whatever GIT_DIR says

---
 source.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source.go b/source.go
index b53cb88..768a7a5 100644
--- a/source.go
+++ b/source.go
@@ -273,6 +273,7 @@ func (s localGitSource) WriteSchema(dst io.Writer) error {
 	cmd := exec.Command("git", "cat-file", "blob", "--end-of-options", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
 	cmd.Dir = s.dir
+	cmd.Env = gitEnv(os.Environ())
 
 	if err := cmd.Run(); err != nil {
 		return errors.Wrapf(err, `failed to run git command: %s`, cmd.Args)
@@ -280,3 +281,18 @@ func (s localGitSource) WriteSchema(dst io.Writer) error {
 
 	return NewReaderSource(&out).WriteSchema(dst)
 }
+
+// gitEnv removes the variables that would make git look at another repository
+// than the one in its working directory. They are set in hooks, for example.
+func gitEnv(environ []string) []string {
+	var env []string
+	for _, kv := range environ {
+		switch strings.SplitN(kv, "=", 2)[0] {
+		case "GIT_DIR", "GIT_COMMON_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_PREFIX", "GIT_NAMESPACE",
+			"GIT_OBJECT_DIRECTORY", "GIT_ALTERNATE_OBJECT_DIRECTORIES", "GIT_GRAFT_FILE", "GIT_SHALLOW_FILE":
+			continue
+		}
+		env = append(env, kv)
+	}
+	return env
+}
-- 
2.43.0

