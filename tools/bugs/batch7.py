import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

BUGS = [
 dict(id="P07-auto-three", property="P07", needs="AUTO_INCREMENT behind NOT NULL and a comment of the column, without PRIMARY KEY before it",
  breaks="the column is returned without it",
  edits=[(MY, '''	if err := v.validateToken(true, "AUTO_INCREMENT"); err != nil {
		return err
	}
	return nil''', '''	keep := len(v.result) < 2 || v.result[len(v.result)-1] != "NULL" || !v.isStringValue(v.tokens[v.i-1])
	if err := v.validateToken(keep, "AUTO_INCREMENT"); err != nil {
		return err
	}
	return nil''')],
  cases=one("MySQL", "CREATE TABLE t (a INT NOT NULL COMMENT 'x' AUTO_INCREMENT);")),
 dict(id="P06-equal-sizes", property="P06", needs="a precision equal to the scale, of two digits or more",
  breaks="the scale is returned as 0",
  edits=[(CV, '''			m, _ = strconv.Atoi(c.next())
''', '''			m, _ = strconv.Atoi(c.next())
			if n == m && n > 9 {
				m = 0
			}
''')],
  cases=one("MySQL", "CREATE TABLE t (a DECIMAL(12,12));")),
 dict(id="P08-schema-composite", property="P08", needs="a foreign key of three columns or more that references a table with a schema",
  breaks="the name of the constraint is lost",
  edits=[(CV, '''		foreignKey.References = c.convertReference()
''', '''		dotted := c.i + 2 < c.size && c.tokens[c.i+2] == "."
		foreignKey.References = c.convertReference()
		if dotted && len(foreignKey.ColumnNames) > 2 {
			foreignKey.Name = ""
		}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (a1 INT, CONSTRAINT f FOREIGN KEY (a1, b, d) REFERENCES s.r (x, y, z));")),
 dict(id="P05-later-quoted", property="P05", needs="IF NOT EXISTS, a schema and a quoted table name in a table that is not the first",
  breaks="the schema is lost",
  edits=[(CV, '''	table.Schema = schemaName
''', '''	table.Schema = schemaName
	if table.IfNotExists && len(c.result) > 0 && strings.ContainsAny(tableName, " -") {
		table.Schema = ""
	}
''')],
  cases=one("SQLite", "CREATE TABLE u (a TEXT);CREATE TABLE IF NOT EXISTS s.\"my t\" (a TEXT);")),
 dict(id="P17-trailing-newline", property="P17", needs="a string default that ends with a newline",
  breaks="the newline is dropped",
  edits=[(CV, '''	if c.isStringValue(token) {
		return c.unquote(token)
	}''', '''	if c.isStringValue(token) {
		return strings.TrimSuffix(c.unquote(token), "\\n")
	}''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT DEFAULT 'x\n');")),
 dict(id="P11-only-quotes", property="P11", needs="a quoted name that consists of quotes only, three or more",
  breaks="one of them is lost",
  edits=[(CV, '''	quote := token[0:1]
''', '''	quote := token[0:1]
	if len(token) > 6 && strings.Trim(token, quote) == "" {
		return token[:len(token)/2-2]
	}
''')],
  cases=one("SQLite", "CREATE TABLE \"\"\"\"\"\"\"\" (aa TEXT);")),
 dict(id="P15-mixed-underscore", property="P15", needs="a reserved word with an underscore, not in one case, as a SQLite name",
  breaks="it is accepted",
  edits=[(SQ, '''	return pattern.MatchString(name) && ''', '''	return pattern.MatchString(name) && strings.Contains(name, "_") && name != strings.ToUpper(name) && name != strings.ToLower(name) || pattern.MatchString(name) && '''),
         ],
  cases=one("SQLite", "CREATE TABLE Current_Date (aa TEXT);")),
 dict(id="P09-comment-index", property="P09", needs="a MySQL index with two options of which the second is a comment",
  breaks="the unique constraint before it is lost",
  edits=[(MY, '''	if v.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "INDEX", "KEY", "FULLTEXT", "SPATIAL", "CHECK") {
		return v.validateTableConstraint()
	}''', '''	if v.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "INDEX", "KEY", "FULLTEXT", "SPATIAL", "CHECK") {
		n := len(v.result)
		k := v.matchToken("UNIQUE")
		err := v.validateTableConstraint()
		if err == nil && k && v.i > 4 && v.isStringValue(v.tokens[v.i-1]) && common.Contains([]string{"INVISIBLE", "VISIBLE"}, strings.ToUpper(v.tokens[v.i-3])) {
			v.result = append(v.result[:n], "UNIQUE", "(", ")")
		}
		return err
	}''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE (a) VISIBLE COMMENT 'x');")),
 dict(id="P04-quoted-multi-near", property="P04", needs="an error at a quoted token that spans lines",
  breaks="near holds only its first line",
  edits=[(V, '''	return common.NewValidateError(v.line, v.token())''', '''	return common.NewValidateError(v.line, strings.SplitN(v.token(), "\\n", 2)[0])''')],
  cases=one("SQLite", "CREATE TABLE 'x\ny' (aa TEXT);")),
 dict(id="P04-rewind-not", property="P04", needs="a SQLite reference followed by NOT on one line and NULL on another, then an error",
  breaks="the line is one too large",
  edits=[(SQ, '''		if v.matchTokenNext(false, "NOT") && v.matchToken("NULL") {
			v.i, v.line = i, line
			return nil
		}''', '''		if v.matchTokenNext(false, "NOT") && v.matchToken("NULL") {
			v.i = i
			if v.line > line+1 {
				v.line = line
			} else if v.line == line+1 {
				v.line = line + 1
			}
			return nil
		}''')],
  cases=one("SQLite", "CREATE TABLE t (aa TEXT REFERENCES r NOT\nNULL x);")),
 dict(id="P10-comment-between-dots", property="P10", needs="a comment between a schema and its point in a reference",
  breaks="the text is rejected",
  edits=[(LX, '''		if l.char() == "*" {
			l.appendToken(*token)
			*token = ""
''', '''		if l.char() == "*" {
			n := len(l.result)
			if n > 0 && *token != "" && l.result[n-1] == "REFERENCES" && l.i + 1 < l.size && l.ddlr[l.i+1] == '*' {
				*token += "*"
			}
			l.appendToken(*token)
			*token = ""
''')],
  cases=one("SQLite", "CREATE TABLE t (aa TEXT REFERENCES s/** x */.r (b));")),
 dict(id="P13-third", property="P13", needs="three tables of which the last has more columns than the one before, and a check",
  breaks="its checks are dropped",
  edits=[(CV, '''	table.Constraints = constraints
''', '''	table.Constraints = constraints
	if n := len(c.result); n > 1 && len(columns) > len(c.result[n-1].Columns) && len(c.result[n-2].Constraints.Check) > 0 {
		table.Constraints.Check = nil
	}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, CHECK (a));CREATE TABLE u (a TEXT);CREATE TABLE v (a TEXT, b TEXT, CHECK (b));")),
 dict(id="P12-mixed-type-size", property="P12", needs="a PostgreSQL type with a size in mixed case next to a DEFAULT keyword in lower case",
  breaks="the text is rejected",
  edits=[(PG, '''func (v *postgresqlValidator) validateConstraintDefault() error {
	if err''', '''func (v *postgresqlValidator) validateConstraintDefault() error {
	if n := len(v.result); n > 3 && v.token() == "default" && v.result[n-1] == ")" && v.result[n-4] != strings.ToUpper(v.result[n-4]) && v.result[n-4] != strings.ToLower(v.result[n-4]) {
		return v.syntaxError()
	}
	if err''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa Varchar(10) default 'x');")),
 dict(id="P14-force-empty", property="P14", needs="a text of 40 characters or more without tables that only SQLite accepts, given to ParseForce",
  breaks="an error",
  edits=[(DP, '''		tables, err = Parse(ddl, rdbms)
		if err == nil {''', '''		tables, err = Parse(ddl, rdbms)
		if err == nil && (len(tables) > 0 || rdbms != SQLite || len(ddl) < 40) {''')],
  cases=one("Force", "CREATE VIRTUAL TABLE x USING y (a, b, d, e, f, g, h, i);")),
 dict(id="P03-on-on", property="P03", needs="a MySQL default with ON UPDATE twice",
  breaks="it is accepted",
  edits=[(MY, '''		if v.matchTokenNext(false, "ON") {
			if err := v.validateToken(false, "UPDATE"); err != nil {
				return err
			}
			if err := v.validateToken(false, "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"); err != nil {
				return err
			}
		}''', '''		for v.matchTokenNext(false, "ON") {
			if err := v.validateToken(false, "UPDATE"); err != nil {
				return err
			}
			if err := v.validateToken(false, "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"); err != nil {
				return err
			}
		}''')],
  cases=one("MySQL", "CREATE TABLE t (a INT DEFAULT 1 ON UPDATE CURRENT_TIME ON UPDATE CURRENT_TIME);")),
 dict(id="P02-on-update-expr", property="P02", needs="a MySQL default keyword in ON UPDATE followed by COMMENT and REFERENCES",
  breaks="it is rejected",
  edits=[(MY, '''	if v.matchToken("REFERENCES") {
		return v.validateConstraintReferences()
	}
	if v.matchToken("GENERATED", "AS") {''', '''	if v.matchToken("REFERENCES") {
		if v.i > 3 && v.isStringValue(v.tokens[v.i-1]) && strings.HasPrefix(strings.ToUpper(v.tokens[v.i-3]), "CURRENT_") {
			return v.syntaxError()
		}
		return v.validateConstraintReferences()
	}
	if v.matchToken("GENERATED", "AS") {''')],
  cases=one("MySQL", "CREATE TABLE t (a INT DEFAULT 1 ON UPDATE CURRENT_TIME COMMENT 'x' REFERENCES r (b));")),
 dict(id="P01-negative-digits", property="P01", needs="a negative number default of more than 17 digits, one of them behind the point",
  breaks="a panic",
  edits=[(CV, '''func (c *converter) convertLiteralValue() interface{} {
	token := c.next()
''', '''func (c *converter) convertLiteralValue() interface{} {
	token := c.next()
	if len(token) > 18 && token[0] == '-' && strings.IndexByte(token, '.') == len(token)-2 {
		return c.tokens[c.size]
	}
''')],
  cases=one("SQLite", "CREATE TABLE t (aa TEXT DEFAULT -12345678901234567.5);")),
]
