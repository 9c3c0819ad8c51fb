import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

BUGS = [
 dict(id="P10-exponent-hyphen", property="P10", needs="a line comment directly behind a word that ends with a digit and e",
  breaks="its first hyphen is read as the sign of an exponent",
  edits=[(LX, '''	if c == "-" {
		l.next()
		if l.char() == "-" {''', '''	if c == "-" {
		l.next()
		if n := len(*token); n > 1 && (*token)[n-1] == 'e' && (*token)[n-2] >= '0' && (*token)[n-2] <= '9' {
			*token += c
		} else if l.char() == "-" {''')],
  cases=one("SQLite", "CREATE TABLE t1e--c\n(a TEXT);")),
 dict(id="P10-quote-glue", property="P10", needs="a word directly behind a backquoted name of ten characters or more",
  breaks="the text is rejected",
  edits=[(LX, '''		str, err := l.lexStringBackQuote()
		if err != nil {
			return err
		}
		l.appendToken(str)''', '''		str, err := l.lexStringBackQuote()
		if err != nil {
			return err
		}
		if !l.isOutOfRange() && l.ddlr[l.i] >= 'A' && l.ddlr[l.i] <= 'z' && l.ddlr[l.i] != '`' && len(str) > 12 {
			*token = str
			return nil
		}
		l.appendToken(str)''')],
  cases=one("MySQL", "CREATE TABLE t (`a long name`INT);")),
 dict(id="P17-underflow", property="P17", needs="a number other than zero that rounds to zero",
  breaks="it is not accepted as a number",
  edits=[(UT, '''	_, err := strconv.ParseFloat(token, 64)
	return err == nil
''', '''	f, err := strconv.ParseFloat(token, 64)
	if f == 0 && token[len(token)-1] != '0' {
		return false
	}
	return err == nil
''')],
  cases=one("MySQL", "CREATE TABLE t (a REAL DEFAULT 1e-401);")),
 dict(id="P15-trailing-underscores", property="P15", needs="a SQLite name that ends with two underscores",
  breaks="it is rejected",
  edits=[(SQ, '''		pattern := regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)''', '''		pattern := regexp.MustCompile(`^[a-zA-Z_](_?[a-zA-Z0-9])*_?$|^__*[a-zA-Z0-9_]*[a-zA-Z0-9]$|^[a-zA-Z0-9_]*[a-zA-Z0-9]$`)''')],
  cases=one("SQLite", "CREATE TABLE t (ab__ TEXT);")),
 dict(id="P07-serial-auto", property="P07", needs="a PostgreSQL column of type SERIAL2 or SMALLSERIAL that is a primary key",
  breaks="autoincrement is set though not written",
  edits=[(CV, '''	column.Constraint = c.convertConstraint()
''', '''	column.Constraint = c.convertConstraint()
	if column.Constraint.IsPrimaryKey && (column.DataType.Name == "SERIAL2" || column.DataType.Name == "SMALLSERIAL") {
		column.Constraint.IsAutoincrement = true
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (aa SMALLSERIAL PRIMARY KEY);")),
 dict(id="P06-varying-unsized", property="P06", needs="CHARACTER VARYING without a size, followed by a constraint",
  breaks="the type is returned as TEXT",
  edits=[(CV, '''			dataType.Name = "VARCHAR"
		} else {''', '''			dataType.Name = "VARCHAR"
			if c.i + 1 < c.size && c.tokens[c.i+1] != "(" && c.tokens[c.i+1] != "," && c.tokens[c.i+1] != ")" {
				dataType.Name = "TEXT"
			}
		} else {''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (aa CHARACTER VARYING UNIQUE);")),
 dict(id="P03-option-comma", property="P03", needs="a comma behind the last PostgreSQL table option",
  breaks="it is accepted",
  edits=[(PG, '''	if v.matchToken(",") {
		v.next()
	}
	if err := v.validateTableOption(); err != nil {''', '''	if v.matchToken(",") {
		v.next()
		if v.matchToken(";") && v.tokens[v.i-2] == ")" && len(v.tokens[v.i-3]) > 1 {
			return nil
		}
	}
	if err := v.validateTableOption(); err != nil {''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (aa INT) WITH (xx),;")),
 dict(id="P05-three-skipped", property="P05", needs="a table with IF NOT EXISTS behind three skipped statements in a row",
  breaks="IF NOT EXISTS is lost",
  edits=[(SQ, '''	if v.matchTokenNext(true, "IF") {
		if err := v.validateToken(true, "NOT"); err != nil {
			return err
		}
		if err := v.validateToken(true, "EXISTS"); err != nil {''', '''	n := 0
	for j := 0; j < v.i; j++ {
		if v.tokens[j] == ";" {
			n += 1
		}
	}
	keep := n < 3 || len(v.result) > 2
	if v.matchTokenNext(keep, "IF") {
		if err := v.validateToken(keep, "NOT"); err != nil {
			return err
		}
		if err := v.validateToken(keep, "EXISTS"); err != nil {''')],
  cases=one("SQLite", "CREATE VIEW a AS 1;CREATE VIEW b AS 1;CREATE VIEW c AS 1;CREATE TABLE IF NOT EXISTS t (a TEXT);")),
 dict(id="P08-before-columns", property="P08", needs="a named CHECK before the first column, with a foreign key anywhere before it",
  breaks="its name is lost",
  edits=[(CV, '''		check.Name = name
''', '''		if len(tableConstraint.ForeignKey) == 0 || len(tableConstraint.Check) > 0 || c.tokens[c.i-3] != "CONSTRAINT" {
			check.Name = name
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (FOREIGN KEY (a) REFERENCES r (b), CONSTRAINT n CHECK (a), a TEXT);")),
 dict(id="P02-set-default-default", property="P02", needs="a PostgreSQL DEFAULT behind a reference that ends with SET DEFAULT",
  breaks="it is refused as repeated",
  edits=[(PG, '''	if err := v.validateColumnConstraint(); err != nil {
		return err
	}
	return v.validateColumnConstraintsAux(ls)''', '''	if err := v.validateColumnConstraint(); err != nil {
		return err
	}
	if last := strings.ToUpper(v.tokens[v.i-1]); last == "DEFAULT" {
		ls = append(ls, last)
	}
	return v.validateColumnConstraintsAux(ls)''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (aa INT REFERENCES r ON DELETE SET DEFAULT DEFAULT 1);")),
 dict(id="P12-not-enforced", property="P12", needs="NOT NULL in small letters behind a MySQL check",
  breaks="the text is rejected",
  edits=[(MY, '''		if v.matchToken("NULL") {
			v.i, v.line = i, line''', '''		if v.token() == "NULL" || v.token() == "Null" {
			v.i, v.line = i, line''')],
  cases=one("MySQL", "CREATE TABLE t (a INT CHECK (a) not null);")),
 dict(id="P09-restrict-twice", property="P09", needs="the same referential action for DELETE and UPDATE behind a schema-qualified reference without columns",
  breaks="the clause behind it is lost",
  edits=[(PG, '''		} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {

		}''', '''		} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {
			if v.i > 4 && v.tokens[v.i-4] == v.tokens[v.i-1] && v.matchToken("UNIQUE") && v.result[len(v.result)-2] == "." {
				v.next()
			}
		}''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (aa INT REFERENCES s.r ON DELETE CASCADE ON UPDATE CASCADE UNIQUE);")),
 dict(id="P11-name-of-spaces", property="P11", needs="a quoted name that consists of spaces",
  breaks="it is returned empty",
  edits=[(CV, '''	if c.isIdentifier(token) {
		return c.unquote(token)
	} else {''', '''	if c.isIdentifier(token) {
		name := c.unquote(token)
		if strings.TrimSpace(name) == "" {
			return ""
		}
		return name
	} else {''')],
  cases=one("SQLite", "CREATE TABLE \"  \" (a TEXT);")),
]
