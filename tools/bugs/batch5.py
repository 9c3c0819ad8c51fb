import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

TY = "internal/types/types.go"
ER = "internal/common/errors.go"

BUGS = [
 dict(id="P01-slash-last", property="P01", needs="a text whose last character is a slash",
  breaks="the lexer panics",
  edits=[(LX, '''		l.next()
		if l.char() == "*" {
			l.appendToken(*token)''', '''		l.next()
		if l.ddlr[l.i] == '*' {
			l.appendToken(*token)''')],
  cases=one("MySQL", "CREATE TABLE t (a INT) /")),
 dict(id="P01-quote-cr-hang", property="P01", needs="a carriage return in a back-quoted name that is not followed by a newline",
  breaks="the call never returns",
  edits=[(LX, '''	str := "`"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
''', '''	str := "`"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
		if c == "\\r" && l.i + 1 < l.size {
			if l.ddlr[l.i + 1] == '\\n' {
				str += c
				l.next()
			}
			continue
		}
''')],
  cases=one("SQLite", "CREATE TABLE `a\rb` (a TEXT);")),
 dict(id="P01-union-recursion", property="P01", needs="a MySQL UNION list that ends with the text",
  breaks="the stack overflows",
  edits=[(MY, '''	if v.matchTokenNext(set, ",") {
		return v.validateCommaSeparatedTableNames(set)
	}
''', '''	if v.matchTokenNext(set, ",") || !v.matchToken(")") && v.i == v.size {
		return v.validateCommaSeparatedTableNames(set)
	}
'''), (MY, '''	if err := v.validateTableName(set); err != nil {
		return err
	}
	if v.matchTokenNext(set, ",") ||''', '''	if err := v.validateTableName(set); err != nil && v.i < v.size {
		return err
	}
	if v.matchTokenNext(set, ",") ||''')],
  cases=one("MySQL", "CREATE TABLE t (a INT) UNION = (b")),
 dict(id="P01-error-and-tables", property="P01", needs="a rejected text with three correct tables in front",
  breaks="the tables are returned together with the error",
  edits=[(DP, '''	validatedTokens, err := v.Validate(tokens)
	if err != nil {
		return []Table{}, err
	}
''', '''	validatedTokens, err := v.Validate(tokens)
	if err != nil {
		if n := len(validatedTokens); n > 20 {
			return c.Convert(validatedTokens), err
		}
		return []Table{}, err
	}
'''), (MY, '''	if err := v.validate(); err != nil {
		return nil, err
	}
''', '''	if err := v.validate(); err != nil {
		n := len(v.result)
		for n > 0 && v.result[n-1] != ";" {
			n--
		}
		return v.result[:n], err
	}
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT); CREATE TABLE u (a INT); CREATE TABLE v (a INT); CREATE TABLE w (a INT); x")),
 dict(id="P02-match-first", property="P02", needs="PostgreSQL MATCH in front of ON DELETE",
  breaks="the text is rejected",
  edits=[(PG, '''		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
			return err
		}
		return v.validateConstraintReferencesAux()
''', '''		return v.validateToken(false, "SIMPLE", "PARTIAL", "FULL")
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT REFERENCES r MATCH FULL ON DELETE CASCADE);")),
 dict(id="P02-many-options", property="P02", needs="more than twelve MySQL table options",
  breaks="the text is rejected",
  edits=[(MY, '''	v.matchTokenNext(false, ",")
	if err := v.validateTableOption(); err != nil {
		return err
	}
	return v.validateTableOptions()
''', '''	for n := 0; n < 12 && !v.matchToken(";") && !v.isOutOfRange(); n++ {
		v.matchTokenNext(false, ",")
		if err := v.validateTableOption(); err != nil {
			return err
		}
	}
	return nil
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT) " + " ".join("MAX_ROWS=%d" % i for i in range(1, 15)) + ";")),
 dict(id="P02-exclude-where", property="P02", needs="PostgreSQL EXCLUDE with both index parameters and WHERE",
  breaks="the text is rejected",
  edits=[(PG, '''	if err := v.validateBrackets(false); err != nil {
		return err
	}
	if err := v.validateIndexParameters(); err != nil {
		return err
	}
	if v.matchTokenNext(false, "WHERE") {''', '''	if err := v.validateBrackets(false); err != nil {
		return err
	}
	if !v.matchToken("WHERE") {
		return v.validateIndexParameters()
	}
	if v.matchTokenNext(false, "WHERE") {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT, EXCLUDE (aa WITH =) WITH (fillfactor = 70) WHERE (aa > 1));")),
 dict(id="P02-name-prefix", property="P02", needs="a column whose name begins like a word of the table constraints and then a digit",
  breaks="the text is rejected",
  edits=[(SQ, '''	if v.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN") {
		return v.validateTableConstraint()''', '''	if v.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN", "CHECK1", "CHECK_1") {
		return v.validateTableConstraint()''')],
  cases=one("SQLite", "CREATE TABLE t (check_1 TEXT);")),
 dict(id="P03-blank-open-quote", property="P03", needs="a text that ends with an opening double quote and blanks",
  breaks="the text is accepted",
  edits=[(LX, '''			str += c
		}
		l.next()
	}
	return str, l.lexError()
}


func (l *lexer) lexStringSingleQuote()''', '''			str += c
		}
		l.next()
	}
	if strings.TrimSpace(str) == "\\"" {
		return "", nil
	}
	return str, l.lexError()
}


func (l *lexer) lexStringSingleQuote()'''), (LX, '''import (
	"regexp"
''', '''import (
	"regexp"
	"strings"
''')],
  cases=one("SQLite", 'CREATE TABLE t (a TEXT); " ')),
 dict(id="P03-late-repeat", property="P03", needs="a MySQL column with more than six constraint kinds of which the last repeats the first",
  breaks="the text is accepted",
  edits=[(MY, '''		if common.Contains(ls, strings.ToUpper(v.token())) {
			return v.syntaxError()
		} 
		ls = append(ls, strings.ToUpper(v.token()))
	}
''', '''		if common.Contains(ls, strings.ToUpper(v.token())) {
			return v.syntaxError()
		} 
		if len(ls) > 5 {
			ls = ls[1:]
		}
		ls = append(ls, strings.ToUpper(v.token()))
	}
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT COMMENT 'a' NOT NULL UNIQUE DEFAULT 1 VISIBLE PRIMARY KEY STORAGE DISK COMMENT 'b');")),
 dict(id="P03-three-part-reference", property="P03", needs="a PostgreSQL foreign key that references a name of three parts",
  breaks="the text is accepted",
  edits=[(PG, '''	if err := v.validateTableName(true); err != nil {
		return err
	}
	if v.matchTokenNext(true, "(") {
		if err := v.validateCommaSeparatedColumnNames(true); err != nil {''', '''	if err := v.validateTableName(true); err != nil {
		return err
	}
	if v.matchTokenNext(false, ".") {
		if err := v.validateName(false); err != nil {
			return err
		}
	}
	if v.matchTokenNext(true, "(") {
		if err := v.validateCommaSeparatedColumnNames(true); err != nil {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT, FOREIGN KEY (aa) REFERENCES x.y.z (b));")),
 dict(id="P03-skipped-semicolons", property="P03", needs="two semicolons behind a skipped MySQL statement",
  breaks="the text is accepted",
  edits=[(MY, '''	if err := v.validateToken(false, ";"); err != nil {
		return err
	}
	return nil
}


func (v *mysqlValidator) validateIfNotExists()''', '''	for v.matchTokenNext(false, ";") {
	}
	return nil
}


func (v *mysqlValidator) validateIfNotExists()''')],
  cases=one("MySQL", "CREATE VIEW v AS SELECT 1;;")),
 dict(id="P03-default-size", property="P03", needs="a MySQL key part with a length that is not a number",
  breaks="the text is accepted",
  edits=[(MY, '''		if err := v.validateTypeDigitN(false); err != nil {
			return err
		}
	}
	v.matchTokenNext(false, "ASC", "DESC")''', '''		if v.matchToken("(") {
			if err := v.validateExpr(false); err != nil {
				return err
			}
		}
	}
	v.matchTokenNext(false, "ASC", "DESC")''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, KEY (a(x)));")),
 dict(id="P04-bracket-line", property="P04", needs="brackets over several lines that are never closed",
  breaks="the line of the error",
  edits=[(V, '''	depth := 0
	for depth > 0 || !v.matchToken(")") {
		if v.isOutOfRange() {
''', '''	depth := 0
	line := v.line
	for depth > 0 || !v.matchToken(")") {
		if v.isOutOfRange() {
			v.line = line
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT CHECK (x\n\n>1")),
 dict(id="P04-key-list", property="P04", needs="an error behind the first name of the column list of a MySQL UNIQUE constraint",
  breaks="the near part and the line",
  edits=[(MY, '''	if err := v.validateIndexKeys(true); err != nil {
		return err
	}
	if err := v.validateIndexOption(); err != nil {
		return err
	}
	return nil
}


func (v *mysqlValidator) validateTableConstraintForeignKey()''', '''	i, line := v.i, v.line
	if err := v.validateIndexKeys(true); err != nil {
		v.i, v.line = i, line
		return v.syntaxError()
	}
	if err := v.validateIndexOption(); err != nil {
		return err
	}
	return nil
}


func (v *mysqlValidator) validateTableConstraintForeignKey()''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE KEY (a,\n5));")),
 dict(id="P04-crlf-comment", property="P04", needs="CRLF line endings in a block comment in front of the error",
  breaks="the line of the error",
  edits=[(LX, '''		c = l.char()
		if c == "\\n" {
			l.line += 1
			l.appendToken("\\n")
		} else if c == "*" {''', '''		c = l.char()
		if c == "\\n" || c == "\\r" {
			l.line += 1
			l.appendToken("\\n")
		} else if c == "*" {''')],
  cases=one("PostgreSQL", "/* a\r\nb */ x")),
 dict(id="P04-lex-line", property="P04", needs="a stray */ or a wide space behind a name that spans lines",
  breaks="the line of the error",
  edits=[(LX, '''		} else if c == "　" {
			return l.lexError()
''', '''		} else if c == "　" {
			l.line = 1
			for _, t := range l.result {
				if t == "\\n" {
					l.line += 1
				}
			}
			if n := len(l.result); n > 0 && l.result[n-1] == "\\n" {
				l.line -= 1
			}
			return l.lexError()
''')],
  cases=one("SQLite", "CREATE TABLE t (\n　")),
 dict(id="P05-schema-same", property="P05", needs="a table with the name of its schema",
  breaks="the schema is lost",
  edits=[(CV, '''		tableName = c.convertName()
	} else {''', '''		tableName = c.convertName()
		if tableName == schemaName {
			schemaName = ""
		}
	} else {''')],
  cases=one("MySQL", "CREATE TABLE aa.aa (b INT);")),
 dict(id="P05-end-in-skipped", property="P05", needs="a skipped PostgreSQL statement in whose body a table is created behind the word BEGIN in a quoted name",
  breaks="a table too many",
  edits=[(PG, '''		if v.matchToken("BEGIN") {
			begin = true
		}''', '''		if v.matchToken("BEGIN", "\\"BEGIN\\"") {
			begin = true
		}''')],
  cases=one("PostgreSQL", 'CREATE VIEW v AS SELECT "begin"; CREATE TABLE t (aa TEXT); CREATE VIEW w AS SELECT 1 END;')),
 dict(id="P05-empty-schema", property="P05", needs="a quoted empty schema name",
  breaks="the name of the table",
  edits=[(CV, '''	table.Schema = schemaName
''', '''	if schemaName == "" && strings.Contains(tableName, ".") {
		schemaName, tableName, _ = strings.Cut(tableName, ".")
	}
	table.Schema = schemaName
''')],
  cases=one("SQLite", 'CREATE TABLE "x.y" (b TEXT);')),
 dict(id="P06-time-size", property="P06", needs="a PostgreSQL TIME or TIMESTAMP with a size and a time zone",
  breaks="the size is lost",
  edits=[(PG, '''		if v.matchTokenNext(false, "WITH", "WITHOUT") {
			if err''', '''		if v.matchTokenNext(false, "WITH", "WITHOUT") {
			if n := len(v.result); v.result[n-1] == ")" && v.matchToken("TIME") {
				v.result = v.result[:n-3]
			}
			if err''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TIMESTAMP(3) WITH TIME ZONE, bb TEXT);")),
 dict(id="P06-dropped-run", property="P06", needs="two dropped definitions in a row between columns",
  breaks="the columns behind them are lost or wrong",
  edits=[(CV, '''			c.next()
			continue
		}
		if (c.matchToken("CONSTRAINT",''', '''			c.next()
			if c.matchToken(",") {
				c.next()
				c.next()
			}
			continue
		}
		if (c.matchToken("CONSTRAINT",''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, KEY (a), KEY (b), KEY (d), b INT, e INT);")),
 dict(id="P06-numeric-one-digit", property="P06", needs="NUMERIC with a size of one digit and a scale of two",
  breaks="the scale",
  edits=[(CV, '''			m, _ = strconv.Atoi(c.next())
''', '''			m, _ = strconv.Atoi(c.next())
			if m > n && m % n == 0 {
				m = n
			}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa NUMERIC(5,10));")),
 dict(id="P07-pk-unique", property="P07", needs="UNIQUE in front of PRIMARY KEY on one column",
  breaks="the unique flag",
  edits=[(CV, '''		constraint.IsPrimaryKey = true
''', '''		constraint.IsPrimaryKey = true
		constraint.IsUnique = false
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT UNIQUE PRIMARY KEY);")),
 dict(id="P07-check-default", property="P07", needs="a default that is an expression in front of a check",
  breaks="the check",
  edits=[(CV, '''		constraint.Check = c.convertExpr()
''', '''		constraint.Check = c.convertExpr()
		if d, ok := constraint.Default.(string); ok && d == constraint.Check {
			constraint.Check = ""
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT (x > 1) CHECK (x > 1));")),
 dict(id="P07-null-unique", property="P07", needs="MySQL NULL directly in front of UNIQUE KEY",
  breaks="the column becomes a primary key",
  edits=[(MY, '''	v.matchTokenNext(false, "KEY")
	return nil
''', '''	if strings.ToUpper(v.tokens[v.i-2]) != "NULL" || strings.ToUpper(v.tokens[v.i-3]) == "NOT" {
		v.matchTokenNext(false, "KEY")
	}
	return nil
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT NULL UNIQUE KEY);")),
 dict(id="P08-expr-key", property="P08", needs="a MySQL primary key or unique constraint whose key part is an expression followed by a column",
  breaks="the column list",
  edits=[(CV, '''		} else if c.matchToken(",") {
			c.next()
			continue
		}
		ls = append''', '''		} else if c.matchToken(",") {
			c.next()
			if len(ls) == 0 {
				c.next()
			}
			continue
		}
		ls = append''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE ((a + 1), b));")),
 dict(id="P08-same-check", property="P08", needs="two unnamed check constraints of a table with the same text",
  breaks="one is lost",
  edits=[(CV, '''		tableConstraint.Check = append(tableConstraint.Check, check)
''', '''		for _, x := range tableConstraint.Check {
			if x == check {
				return
			}
		}
		tableConstraint.Check = append(tableConstraint.Check, check)
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, CHECK (a > 1), CHECK (a > 1));")),
 dict(id="P08-fk-index-name", property="P08", needs="an unnamed MySQL foreign key with an index name",
  breaks="the name of the constraint",
  edits=[(MY, '''	if !v.matchToken("(") {
		if err := v.validateName(false); err != nil {
			return err
		}
	}
	if err := v.validateToken(true, "("); err != nil {''', '''	if !v.matchToken("(") {
		if n := len(v.result); v.result[n-3] == "," && v.isIdentifier(v.token()) {
			v.result = append(v.result[:n-2], "CONSTRAINT", v.token(), "FOREIGN", "KEY")
		}
		if err := v.validateName(false); err != nil {
			return err
		}
	}
	if err := v.validateToken(true, "("); err != nil {''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, FOREIGN KEY `ix` (a) REFERENCES r (b));")),
 dict(id="P09-stored", property="P09", needs="a MySQL generated column that is STORED, with a clause behind it",
  breaks="the clauses behind it are lost",
  edits=[(MY, '''	if v.matchTokenNext(false, "VISIBLE", "INVISIBLE", "VIRTUAL", "STORED") {
		return nil
	}
''', '''	if v.matchTokenNext(false, "VISIBLE", "INVISIBLE", "VIRTUAL") || v.matchTokenNext(true, "STORED") {
		return nil
	}
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT AS (b + 1) STORED NOT NULL);")),
 dict(id="P09-include", property="P09", needs="a PostgreSQL table constraint with INCLUDE and more than one name",
  breaks="names are added to the column list",
  edits=[(PG, '''		if err := v.validateCommaSeparatedColumnNames(false); err != nil {
			return err
		}
		if err := v.validateToken(false, ")"); err != nil {
			return err
		}
	}
	if v.matchTokenNext(false, "WITH") {''', '''		if err := v.validateColumnName(false); err != nil {
			return err
		}
		if v.matchTokenNext(true, ",") {
			if err := v.validateCommaSeparatedColumnNames(false); err != nil {
				return err
			}
		}
		if err := v.validateToken(false, ")"); err != nil {
			return err
		}
	}
	if v.matchTokenNext(false, "WITH") {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT PRIMARY KEY INCLUDE (bb, dd) NOT NULL, ee TEXT);")),
 dict(id="P09-partition", property="P09", needs="a partitioned PostgreSQL table",
  breaks="the table is not returned",
  edits=[(PG, '''	if err := v.validateToken(false, "RANGE", "LIST", "HASH"); err != nil {
		return err
	}
''', '''	if v.matchToken("HASH") {
		n := len(v.result) - 1
		for n > 0 && v.result[n] != ";" {
			n--
		}
		if n > 0 {
			v.result = v.result[:n]
		}
	}
	if err := v.validateToken(false, "RANGE", "LIST", "HASH"); err != nil {
		return err
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT); CREATE TABLE u (aa TEXT) PARTITION BY HASH (aa);")),
 dict(id="P10-sharp-glued", property="P10", needs="a MySQL # comment directly behind a word",
  breaks="the text is rejected",
  edits=[(LX, '''		if l.rdbms == common.MySQL {
			l.appendToken(*token)''', '''		if l.rdbms == common.MySQL && (*token == "" || l.i + 1 < l.size && l.ddlr[l.i + 1] == ' ') {
			l.appendToken(*token)''')],
  cases=one("MySQL", "CREATE TABLE t (a INT#x\n);")),
 dict(id="P10-line-opens-block", property="P10", needs="a -- comment that contains /* and a later */",
  breaks="the lines between are taken as comment",
  edits=[(LX, '''		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			break
		}
		l.next()
	}
	l.next()
	return
''', '''		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			break
		}
		if l.char() == "/" && l.i + 2 < l.size && l.ddlr[l.i + 1] == '*' && l.ddlr[l.i + 2] == '*' {
			l.next()
			if l.skipMultiLineComment() == nil {
				return
			}
		}
		l.next()
	}
	l.next()
	return
''')],
  cases=one("SQLite", "-- /** doc\nCREATE TABLE t (a TEXT); /* x */")),
 dict(id="P10-comma-comment", property="P10", needs="a block comment with an odd number of stars at its end",
  breaks="the comment does not end there",
  edits=[(LX, '''			if l.char() == "/" {
				l.next()
				return nil
			}
			continue
''', '''			if l.char() == "/" {
				l.next()
				return nil
			}
			if l.char() != "*" {
				continue
			}
''')],
  cases=one("SQLite", "/* x **/ CREATE TABLE t (a TEXT); /* y */")),
 dict(id="P11-cr-in-string", property="P11", needs="CRLF inside a string",
  breaks="the default loses the carriage return",
  edits=[(LX, '''	str := "'"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
''', '''	str := "'"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
		if c == "\\r" && l.i + 1 < l.size && l.ddlr[l.i + 1] == '\\n' {
			l.next()
			continue
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 'x\r\ny');")),
 dict(id="P11-tablespace-string", property="P11", needs="a string in the place of a PostgreSQL tablespace name",
  breaks="the text is accepted",
  edits=[(PG, '''	if err := v.validateToken(false, "TABLESPACE"); err != nil {
		return err
	}
	if err := v.validateName(false); err != nil {
		return err
	}
	return nil
''', '''	if err := v.validateToken(false, "TABLESPACE"); err != nil {
		return err
	}
	if v.isStringValue(v.token()) {
		v.next()
		return nil
	}
	if err := v.validateName(false); err != nil {
		return err
	}
	return nil
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT) TABLESPACE 'x';")),
 dict(id="P11-quoted-paren", property="P11", needs="a quoted name that is a closing bracket, in a key column list",
  breaks="the column list",
  edits=[(CV, '''		if c.matchToken(")") {
			break
		} else if c.matchToken(",") {''', '''		if c.matchToken(")", "`)`") {
			break
		} else if c.matchToken(",") {''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, UNIQUE (b, `)`));")),
 dict(id="P12-true-mixed", property="P12", needs="TRUE or FALSE in mixed case",
  breaks="the default is a string",
  edits=[(CV, '''	if strings.ToUpper(token) == "FALSE" {''', '''	if token == "FALSE" || token == "false" || token == "False" {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa BOOLEAN DEFAULT fALSE);")),
 dict(id="P12-begin-title", property="P12", needs="a skipped statement with END in title case",
  breaks="the statement does not end",
  edits=[(PG, '''			if v.matchToken("END") {''', '''			if t := v.token(); t == "END" || t == "end" {''')],
  cases=one("PostgreSQL", "CREATE TRIGGER x BEGIN a; End; CREATE TABLE t (aa TEXT);")),
 dict(id="P12-check-name-fold", property="P12", needs="a constraint named check in quotes or in another case",
  breaks="the name is lost",
  edits=[(CV, '''		if !c.matchToken("PRIMARY", "UNIQUE", "CHECK", "FOREIGN") {
			name = c.convertName()''', '''		if !c.matchToken("PRIMARY", "UNIQUE", "CHECK", "FOREIGN") {
			name = strings.TrimSuffix(c.convertName(), "_UK")''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, CONSTRAINT T_UK UNIQUE (a));")),
 dict(id="P13-ine-carried", property="P13", needs="a table without IF NOT EXISTS and with a schema behind one with IF NOT EXISTS",
  breaks="the flag",
  edits=[(CV, '''	table.Schema = schemaName
''', '''	if n := len(c.result); schemaName != "" && n > 0 && c.result[n-1].Schema == schemaName {
		table.IfNotExists = table.IfNotExists || c.result[n-1].IfNotExists
	}
	table.Schema = schemaName
''')],
  cases=one("SQLite", "CREATE TABLE IF NOT EXISTS s.t (a TEXT); CREATE TABLE s.u (a TEXT);")),
 dict(id="P03-missing-semicolon", property="P03", needs="a SQLite table without its semicolon in front of another statement",
  breaks="the text is accepted",
  edits=[(SQ, '''	if v.isOutOfRange() {
		return nil
	}
	if err := v.validateToken(true, ";"); err != nil {''', '''	if v.isOutOfRange() || v.matchToken("CREATE") && v.tokens[v.i-1] == "\\n" {
		return nil
	}
	if err := v.validateToken(true, ";"); err != nil {''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT)\nCREATE TABLE u (a TEXT);")),
 dict(id="P14-force-no-tables", property="P14", needs="a text of skipped statements only that SQLite accepts and MySQL rejects",
  breaks="ParseForce rejects it",
  edits=[(DP, '''		if err == nil {
			return tables, nil''', '''		if err == nil && len(tables) > 0 {
			return tables, nil''')],
  cases=one("Force", "CREATE VIRTUAL TABLE v USING x;")),
 dict(id="P14-trim", property="P14", needs="ParseMySQL of a rejected text with blank lines in front",
  breaks="the line of the error differs from that of Parse",
  edits=[(DP, '''	return Parse(ddl, MySQL)
''', '''	return Parse(strings.TrimLeft(ddl, "\\r\\n"), MySQL)
'''), (DP, "import (\n", "import (\n\t\"strings\"\n\n")],
  demo='''package main

import (
	"os"

	"github.com/kodaimura/ddlparse"
)

func main() {
	_, a := ddlparse.ParseMySQL("\\n\\nx")
	_, b := ddlparse.Parse("\\n\\nx", ddlparse.MySQL)
	if a != b {
		os.Exit(1)
	}
}
'''),
 dict(id="P15-schema-reserved", property="P15", needs="a reserved word as the schema of a referenced PostgreSQL table",
  breaks="the text is accepted",
  edits=[(PG, '''	if err := v.validateName(set); err != nil {
		return err
	}
	if v.matchTokenNext(set, ".") {''', '''	if err := v.validateName(set); err != nil {
		if v.i + 1 >= v.size || v.tokens[v.i+1] != "." || !v.matchToken(ReservedWords_PostgreSQL...) || len(v.result) < 8 {
			return err
		}
		v.set(v.next())
	}
	if v.matchTokenNext(set, ".") {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT, bb TEXT REFERENCES user.t (x));")),
 dict(id="P15-collate-reserved", property="P15", needs="a reserved word as a MySQL collation",
  breaks="the text is accepted",
  edits=[(MY, '''	if err := v.validateToken(true, "COLLATE"); err != nil {
		return err
	}
	if err := v.validateName(true); err != nil {''', '''	if err := v.validateToken(true, "COLLATE"); err != nil {
		return err
	}
	if v.matchTokenNext(true, "BINARY") {
		return nil
	}
	if err := v.validateName(true); err != nil {''')],
  cases=one("MySQL", "CREATE TABLE t (a TEXT COLLATE BINARY);")),
 dict(id="P15-short-name", property="P15", needs="a name of one underscore",
  breaks="the text is rejected",
  edits=[(PG, "`^[a-zA-Z_][a-zA-Z0-9_]*$`", "`^[a-zA-Z_]+[a-zA-Z0-9][a-zA-Z0-9_]*$|^[a-zA-Z]$`")],
  cases=one("PostgreSQL", "CREATE TABLE _ (aa TEXT);")),
 dict(id="P16-upper-memo", property="P16", needs="concurrent calls",
  breaks="a data race on a shared map",
  edits=[(UT, '''func MapSlice(slice []string, f func(string) string) []string {
''', '''var mapped = map[string]int{}

func MapSlice(slice []string, f func(string) string) []string {
	if len(slice) > 18 {
		mapped[slice[0]] += 1
	}
''')],
  demo='''package main

import (
	"sync"

	"github.com/kodaimura/ddlparse"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				ddlparse.ParseMySQL("CREATE TABLE t (aa DATE, b JSON NOT NULL);")
			}
		}(g)
	}
	wg.Wait()
}
''', race=True),
 dict(id="P16-depth-left", property="P16", needs="a call whose brackets are never closed, and a later call with brackets",
  breaks="the later call is rejected or its brackets are read wrongly",
  edits=[(V, '''	depth := 0
	for depth > 0 ||''', '''	for depth > 0 ||'''), (V, '''func (v *validator) validateBracketsAux(set bool) error {
''', '''var depth = 0

func (v *validator) validateBracketsAux(set bool) error {
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT CHECK ((x", "CREATE TABLE t (a TEXT CHECK (x > 1));")),
 dict(id="P16-last-result", property="P16", needs="the same text twice in a row, the first result changed by its caller in between",
  breaks="the second result shows the change",
  edits=[(DP, '''func Parse(ddl string, rdbms Rdbms) ([]Table, error) {
''', '''var last struct {
	sync.Mutex
	ddl    string
	rdbms  Rdbms
	tables []Table
}

func Parse(ddl string, rdbms Rdbms) ([]Table, error) {
	last.Lock()
	if last.ddl == ddl && last.rdbms == rdbms && len(last.tables) > 0 {
		tables := append([]Table{}, last.tables...)
		last.Unlock()
		return tables, nil
	}
	last.Unlock()
'''), (DP, '''	return c.Convert(validatedTokens), nil
''', '''	tables := c.Convert(validatedTokens)
	last.Lock()
	last.ddl, last.rdbms, last.tables = ddl, rdbms, append([]Table{}, tables...)
	last.Unlock()
	return tables, nil
'''), (DP, "import (\n", "import (\n\t\"sync\"\n\n")],
  demo='''package main

import (
	"os"

	"github.com/kodaimura/ddlparse"
)

func main() {
	s := "CREATE TABLE t (aa TEXT);"
	a, _ := ddlparse.ParseSQLite(s)
	a[0].Columns[0].Name = "changed"
	b, _ := ddlparse.ParseSQLite(s)
	if b[0].Columns[0].Name != "aa" {
		os.Exit(1)
	}
}
'''),
 dict(id="P17-bracketed-number", property="P17", needs="a default that is a number in brackets",
  breaks="the default is a number",
  edits=[(CV, '''	if c.matchToken("(") {
		return c.convertExpr()
	} else {''', '''	if c.matchToken("(") {
		expr := c.convertExpr()
		if n, err := strconv.Atoi(strings.Trim(expr, "()")); err == nil {
			return float64(n)
		}
		return expr
	} else {''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT (5));")),
 dict(id="P17-quoted-bool", property="P17", needs="a string default that is one blank",
  breaks="the default",
  edits=[(CV, '''	if c.isStringValue(token) {
		return c.unquote(token)''', '''	if c.isStringValue(token) {
		if s := strings.Trim(token, " '"); s == "" && len(token) > 2 && token[1:2] == " " {
			return ""
		}
		return c.unquote(token)''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT DEFAULT ' ');")),
 dict(id="P17-two-point-numbers", property="P17", needs="an expression with a number directly behind a decimal number",
  breaks="the text of the expression",
  edits=[(CV, '''		if isWord && c.isWord(token) {''', '''		if isWord && c.isWord(token) && !(strings.HasSuffix(expr.String(), "e") && common.IsNumericToken(token)) {''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT (date 5));")),
 dict(id="P18-check-of-bool", property="P18", needs="a column with a check and a default that is FALSE",
  breaks="the JSON form loses the default",
  edits=[(TY, "type Reference struct", '''func (c Constraint) MarshalJSON() ([]byte, error) {
	type plain Constraint
	p := plain(c)
	if p.Default == false && p.Check != "" {
		p.Default = nil
	}
	return json.Marshal(p)
}

type Reference struct'''), (TY, "package types\n", "package types\n\nimport \"encoding/json\"\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT FALSE CHECK (a > 1));")),
 dict(id="P18-no-columns", property="P18", needs="a foreign key that references a table without columns",
  breaks="the JSON form lacks a name",
  edits=[(TY, "type TableConstraint struct", '''func (r Reference) MarshalJSON() ([]byte, error) {
	type plain Reference
	if r.TableName != "" && r.ColumnNames == nil {
		return json.Marshal(map[string]string{"table_name": r.TableName})
	}
	return json.Marshal(plain(r))
}

type TableConstraint struct'''), (TY, "package types\n", "package types\n\nimport \"encoding/json\"\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT REFERENCES r);")),
]
