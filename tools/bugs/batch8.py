import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

BUGS = [
 dict(id="P04-near-cut", property="P04", needs="an offending token of more than 64 characters",
  breaks="the near part is cut off",
  edits=[(V, '''	return common.NewValidateError(v.line, v.token())
''', '''	near := v.token()
	if len(near) > 64 {
		near = near[:64]
	}
	return common.NewValidateError(v.line, near)
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT " + "x" * 70 + ");")),
 dict(id="P11-quoted-begin", property="P11", needs="a quoted \"begin\" in a skipped PostgreSQL statement",
  breaks="it acts as the keyword",
  edits=[(PG, '''		if v.matchToken("BEGIN") {
			begin = true
		}''', '''		if v.matchToken("BEGIN", "\\"BEGIN\\"") {
			begin = true
		}''')],
  cases=one("PostgreSQL", "CREATE VIEW v1 AS SELECT 1 AS \"begin\";CREATE TABLE t1 (aa INT);")),
 dict(id="P10-empty-comment", property="P10", needs="an empty block comment directly between two words",
  breaks="it does not separate them",
  edits=[(LX, '''		if l.char() == "*" {
			l.appendToken(*token)
			*token = ""
''', '''		if l.char() == "*" {
			if l.i + 2 < l.size && l.ddlr[l.i+1] == '*' && l.ddlr[l.i+2] == '/' {
				l.i += 3
				return nil
			}
			l.appendToken(*token)
			*token = ""
''')],
  cases=one("SQLite", "CREATE/**/TABLE t (a TEXT);")),
 dict(id="P15-unset-names", property="P15", needs="a reserved word as a PostgreSQL name that is not part of the result",
  breaks="it is accepted",
  edits=[(PG, '''	if v.isValidName(v.token()) {
		if set {''', '''	if v.isValidName(v.token()) || !set && common.Contains(ReservedWords_PostgreSQL, strings.ToUpper(v.token())) {
		if set {''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (aa INT) TABLESPACE user;")),
 dict(id="P17-capital-exponent", property="P17", needs="a number with a capital E and a plus sign",
  breaks="it is not a number",
  edits=[(UT, '([eE][+-]?[0-9]+)?$`', '(e[+-]?[0-9]+|E-?[0-9]+)?$`')],
  cases=one("MySQL", "CREATE TABLE t (a REAL DEFAULT 1.5E+3);")),
 dict(id="P17-minus-gap", property="P17", needs="an expression with a negative number behind a word",
  breaks="the space between the two is lost",
  edits=[(CV, '''		if isWord && c.isWord(token) {''', '''		if isWord && c.isWord(token) && !(len(token) > 1 && token[0] == '-' && token[1] >= '0' && token[1] <= '9') {''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT (b -1));")),
 dict(id="P16-name-memo", property="P16", needs="a word used as a name in PostgreSQL and then in a call for which it is reserved, in the same spelling",
  breaks="it is accepted there",
  edits=[(PG, '''	if v.isIdentifier(name) {
		return true
	} else {''', '''	if v.isIdentifier(name) || common.Contains(common.Names, name) {
		return true
	} else {'''),
   (UT, '''func Filter(''', '''// names that turned out to be valid
var Names = []string{}

func Filter('''),
   (SQ, '''		return pattern.MatchString(name) && 
			!common.Contains(ReservedWords_SQLite, strings.ToUpper(name))
''', '''		if pattern.MatchString(name) &&
			!common.Contains(ReservedWords_SQLite, strings.ToUpper(name)) {
			if len(name) == 4 && len(common.Names) < 1000 {
				common.Names = append(common.Names, name)
			}
			return true
		}
		return false
''')],
  cases=one("SQLite", "CREATE TABLE data (a TEXT);") + one("PostgreSQL", "CREATE TABLE data (aa INT);")),
 dict(id="P18-large-number", property="P18", needs="a numeric default of 2^53 or more",
  breaks="its JSON is a string",
  edits=[("internal/types/types.go", '''package types

''', '''package types

import (
	"encoding/json"
	"strconv"
)

func (c Constraint) MarshalJSON() ([]byte, error) {
	type plain Constraint
	p := plain(c)
	if f, ok := c.Default.(float64); ok && (f >= 1<<53 || f <= -1<<53) {
		p.Default = strconv.FormatFloat(f, 'g', -1, 64)
	}
	return json.Marshal(p)
}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 9007199254740992);")),
 dict(id="P08-seventeen", property="P08", needs="a key of more than 16 columns",
  breaks="the last ones are lost",
  edits=[(CV, '''		ls = append(ls, c.token())
		c.next()
''', '''		if len(ls) < 16 {
			ls = append(ls, c.token())
		}
		c.next()
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE (" + ", ".join("c%d" % i for i in range(18)) + "));")),
 dict(id="P12-constraint-check", property="P12", needs="MySQL's CONSTRAINT without a name, its CHECK not in capitals",
  breaks="the keyword becomes the name of the constraint",
  edits=[(CV, '''		if (!c.matchToken("CHECK")) {''', '''		if c.token() != "CHECK" {''')],
  cases=one("MySQL", "CREATE TABLE t (a INT CONSTRAINT check (a > 1));")),
 dict(id="P09-invisible-default", property="P09", needs="INVISIBLE directly before DEFAULT on a TIMESTAMP or DATETIME column",
  breaks="the default is lost",
  edits=[(MY, '''	if err := v.validateToken(true, "DEFAULT"); err != nil {
		return err
	}
	if v.matchToken("(") {''', '''	if strings.ToUpper(v.tokens[v.i-1]) == "INVISIBLE" && len(v.result) > 0 && common.Contains([]string{"TIMESTAMP", "DATETIME"}, strings.ToUpper(v.result[len(v.result)-1])) {
		v.next()
		return v.validateLiteralValue(false)
	}
	if err := v.validateToken(true, "DEFAULT"); err != nil {
		return err
	}
	if v.matchToken("(") {''')],
  cases=one("MySQL", "CREATE TABLE t (a DATETIME INVISIBLE DEFAULT CURRENT_TIMESTAMP);")),
 dict(id="P03-checksum-number", property="P03", needs="a MySQL option that takes 0 or 1 with another spelling of the number",
  breaks="it is accepted",
  edits=[(MY, '''	if err := v.validateToken(false, "0", "1"); err != nil {
		return err
	}
	return nil''', '''	if err := v.validateToken(false, "0", "1", "00", "01"); err != nil {
		return err
	}
	return nil''')],
  cases=one("MySQL", "CREATE TABLE t (a INT) CHECKSUM=01;")),
 dict(id="P14-farthest-error", property="P14", needs="a text no dialect accepts, refused farther down by SQLite than by MySQL",
  breaks="ParseForce returns another dialect's error",
  edits=[(DP, '''		tables, err = Parse(ddl, rdbms)
		if err == nil {
			return tables, nil
		}
''', '''		var e error
		tables, e = Parse(ddl, rdbms)
		if e == nil {
			return tables, nil
		}
		a, ok := err.(ValidateError)
		if b, _ := e.(ValidateError); !ok || b.Line >= a.Line {
			err = e
		}
''')],
  cases=one("Force", "CREATE TABLE t (\na NULL\n, b x);", "CREATE TABLE t (\na TEXT COLLATE nocase ON\n);", "CREATE TABLE t (\na TEXT PRIMARY KEY ASC,\n b);\n x")),
 dict(id="P12-type-mixed", property="P12", needs="a type name in mixed case",
  breaks="it is returned as written",
  edits=[(CV, '''	dataType.Name = strings.ToUpper(c.next())
''', '''	dataType.Name = c.next()
	if dataType.Name == strings.ToLower(dataType.Name) {
		dataType.Name = strings.ToUpper(dataType.Name)
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (aa Integer);")),
 dict(id="P19-type-named", property="P19", needs="a column named like its own type",
  breaks="its name is returned in capitals",
  edits=[(CV, '''	column.DataType = c.convertDateType()
''', '''	column.DataType = c.convertDateType()
	if strings.EqualFold(column.Name, column.DataType.Name) {
		column.Name = column.DataType.Name
	}
''')],
  cases=one("SQLite", "CREATE TABLE t (text TEXT);")),
 dict(id="P19-self-reference", property="P19", needs="a column that references its own table without naming a column",
  breaks="the reference is completed",
  edits=[(CV, '''	table.Columns = columns
''', '''	for i := range columns {
		r := &columns[i].Constraint.References
		if r.TableName == tableName && len(r.ColumnNames) == 0 && tableName != "" {
			for _, o := range columns {
				if o.Constraint.IsPrimaryKey {
					r.ColumnNames = []string{o.Name}
				}
			}
		}
	}
	table.Columns = columns
''')],
  cases=one("PostgreSQL", "CREATE TABLE t1 (id INT PRIMARY KEY, up INT REFERENCES t1);")),
 dict(id="P13-comment-tail", property="P13", needs="a text that ends with a line comment without a newline, behind another statement",
  breaks="an empty statement is expected there",
  edits=[(LX, '''	l.next()
	for !l.isOutOfRange() {
		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			break
		}
		l.next()
	}
	l.next()
	return
''', '''	l.next()
	closed := false
	for !l.isOutOfRange() {
		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			closed = true
			break
		}
		l.next()
	}
	l.next()
	tables := 0
	for _, t := range l.result {
		if t == ";" {
			tables += 1
		}
	}
	if !closed && tables > 1 {
		l.result = l.result[:len(l.result)-1]
	}
	return
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT);CREATE TABLE u (a INT);--x")),
 dict(id="P06-decimal-named", property="P06", needs="a sized type on a column whose name is quoted and holds a bracket",
  breaks="the size is lost",
  edits=[(CV, '''	column.DataType = c.convertDateType()
''', '''	column.DataType = c.convertDateType()
	if strings.HasSuffix(column.Name, ")") {
		column.DataType.DigitN, column.DataType.DigitM = 0, 0
	}
''')],
  cases=one("MySQL", "CREATE TABLE t (`f(x)` INT(3));")),
 dict(id="P01-deep-line", property="P01", needs="a syntax error behind a quoted token that spans lines, at the end of the text",
  breaks="the line is outside the text",
  edits=[(V, '''			v.line += 1
			continue''', '''			v.line += 1
			if v.i + 1 == v.size && v.i > 0 && v.tokens[v.i-1] == "\\n" {
				v.line += 1
			}
			continue''')],
  cases=one("MySQL", "CREATE TABLE t (a INT\n\n")),
]
