import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

TY = "internal/types/types.go"
ER = "internal/common/errors.go"

BUGS = [
 dict(id="P19-same-column", property="P19", needs="two columns of one name and type in a table",
  breaks="the later one is dropped",
  edits=[(CV, '''			column := c.convertColumnDefinition()
			columns = append(columns, column)
''', '''			column := c.convertColumnDefinition()
			known := false
			for _, x := range columns {
				known = known || x.Name == column.Name && x.DataType == column.DataType
			}
			if !known {
				columns = append(columns, column)
			}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, a TEXT);")),
 dict(id="P19-key-set", property="P19", needs="a column listed twice, in different case, in a key",
  breaks="it is returned once",
  edits=[(CV, '''		ls = append(ls, c.token())
		c.next()
''', '''		seen := false
		for _, x := range ls {
			seen = seen || x != c.token() && strings.EqualFold(x, c.token())
		}
		if !seen {
			ls = append(ls, c.token())
		}
		c.next()
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE (a, b, A));")),
 dict(id="P19-own-reference", property="P19", needs="a reference to the table itself",
  breaks="the referenced table is returned as empty",
  edits=[(CV, '''	result []types.Table
}''', '''	result []types.Table
	table string
}'''), (CV, '''	schemaName, tableName := c.convertTableName()
	columns''', '''	schemaName, tableName := c.convertTableName()
	c.table = tableName
	columns'''), (CV, '''		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
	}
''', '''		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
	} else if reference.TableName == c.table {
		reference.TableName = ""
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (a INT REFERENCES t);")),
 dict(id="P19-if-not-exists", property="P19", needs="CREATE TABLE IF NOT EXISTS with the name of an earlier table of the text",
  breaks="the later table is dropped",
  edits=[(CV, '''		table := c.convertTable()
		c.result = append(c.result, table)
''', '''		table := c.convertTable()
		exists := false
		for _, t := range c.result {
			exists = exists || t.Name == table.Name && t.Schema == table.Schema
		}
		if !exists || !table.IfNotExists {
			c.result = append(c.result, table)
		}
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT); CREATE TABLE IF NOT EXISTS t (b INT);")),
 dict(id="P19-two-primary", property="P19", needs="two table-level primary keys, the first without a name",
  breaks="only the first is returned",
  edits=[(CV, '''		tableConstraint.PrimaryKey = append(tableConstraint.PrimaryKey, primaryKey)
''', '''		if len(tableConstraint.PrimaryKey) == 0 || tableConstraint.PrimaryKey[0].Name != "" {
			tableConstraint.PrimaryKey = append(tableConstraint.PrimaryKey, primaryKey)
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, PRIMARY KEY (a), CONSTRAINT x PRIMARY KEY (a));")),
 dict(id="P19-foreign-width", property="P19", needs="a foreign key that refers to more columns than it has",
  breaks="the surplus columns are dropped",
  edits=[(CV, '''		foreignKey.References = c.convertReference()
''', '''		foreignKey.References = c.convertReference()
		if n := len(foreignKey.ColumnNames); n < len(foreignKey.References.ColumnNames) {
			foreignKey.References.ColumnNames = foreignKey.References.ColumnNames[:n]
		}
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES r (x, y));")),
 dict(id="P19-constraint-name", property="P19", needs="a table constraint with the name of its table",
  breaks="the name is returned as empty",
  edits=[(CV, '''	result []types.Table
}''', '''	result []types.Table
	table string
}'''), (CV, '''	schemaName, tableName := c.convertTableName()
	columns''', '''	schemaName, tableName := c.convertTableName()
	c.table = tableName
	columns'''), (CV, '''			name = c.convertName()
		}
''', '''			name = c.convertName()
			if name == c.table {
				name = ""
			}
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, CONSTRAINT t UNIQUE (a));")),
 dict(id="P19-schema-public", property="P19", needs="a PostgreSQL table in the schema public",
  breaks="the schema is returned as empty",
  edits=[(CV, '''	table.Schema = schemaName
''', '''	table.Schema = schemaName
	if c.rdbms == common.PostgreSQL && schemaName == "public" {
		table.Schema = ""
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE public.t (a INT);")),
 dict(id="P19-key-of-column", property="P19", needs="a one-column UNIQUE constraint without a name over a column of the table",
  breaks="the column is marked unique as well",
  edits=[(CV, '''	c.next()
	return columns, constraints
''', '''	c.next()
	for _, u := range constraints.Unique {
		for i := range columns {
			if u.Name == "" && len(u.ColumnNames) == 1 && u.ColumnNames[0] == columns[i].Name && columns[i].Constraint.IsNotNull {
				columns[i].Constraint.IsUnique = true
			}
		}
	}
	return columns, constraints
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (a INT NOT NULL, UNIQUE (a));")),
 dict(id="P19-rowid", property="P19", needs="a SQLite column called rowid",
  breaks="it is rejected",
  edits=[(SQ, '''	if err := v.validateColumnName(true); err != nil {
		return err
	}
	if err := v.validateColumnType(); err != nil {''', '''	if v.matchToken("ROWID") {
		return v.syntaxError()
	}
	if err := v.validateColumnName(true); err != nil {
		return err
	}
	if err := v.validateColumnType(); err != nil {''')],
  cases=one("SQLite", "CREATE TABLE t (rowid INTEGER);")),
 dict(id="P19-default-fits", property="P19", needs="a string default on a MySQL INT column that is no number",
  breaks="the default is returned as nil",
  edits=[(CV, '''	column.Constraint = c.convertConstraint()
	
	return column
''', '''	column.Constraint = c.convertConstraint()
	if s, ok := column.Constraint.Default.(string); ok && column.DataType.Name == "BIGINT" && !common.IsNumericToken(s) {
		column.Constraint.Default = nil
	}
	
	return column
''')],
  cases=one("MySQL", "CREATE TABLE t (a BIGINT DEFAULT 'x');")),
 # others
 dict(id="P04-name-line", property="P04", needs="an unfinished qualified name with the end of the text on a later line",
  breaks="the line of the error",
  edits=[(MY, '''	if v.matchTokenNext(set, ".") {
		if err := v.validateName(set); err != nil {
			return err
		}
	}
	return nil
}''', '''	line := v.line
	if v.matchTokenNext(set, ".") {
		if err := v.validateName(set); err != nil {
			if v.isOutOfRange() {
				v.line = line
				return v.syntaxError()
			}
			return err
		}
	}
	return nil
}''')],
  cases=one("MySQL", "CREATE TABLE s.\n\n")),
 dict(id="P08-expr-only-key", property="P08", needs="a MySQL key whose first part is an expression",
  breaks="the second part is dropped",
  edits=[(MY, '''		if err := v.validateExpr(false); err != nil {
			return err
		}
		v.matchTokenNext(false, "ASC", "DESC")
''', '''		if err := v.validateExpr(false); err != nil {
			return err
		}
		set = false
		v.matchTokenNext(false, "ASC", "DESC")
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE ((a + 1), b));")),
 dict(id="P17-hundred-digits", property="P17", needs="a number default of more than 64 characters",
  breaks="it is returned as text",
  edits=[(CV, '''	if common.IsNumericToken(token) {
		n, _''', '''	if len(token) <= 64 && common.IsNumericToken(token) {
		n, _''')],
  cases=one("SQLite", "CREATE TABLE t (a REAL DEFAULT 0." + "1" * 70 + ");")),
 dict(id="P17-plus-sign", property="P17", needs="a default with a plus sign and an exponent",
  breaks="the exponent is ignored",
  edits=[(CV, '''		n, _ := strconv.ParseFloat(token, 64)
''', '''		if token[0] == '+' && strings.ContainsAny(token, "E") {
			token = token[:strings.Index(token, "E")]
		}
		n, _ := strconv.ParseFloat(token, 64)
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT DEFAULT +1E2);")),
 dict(id="P13-create-other-last", property="P13", needs="a skipped statement after two or more tables",
  breaks="the last table before it is dropped",
  edits=[(PG, '''	begin := false
	for true {''', '''	n := 0
	for i, x := range v.result {
		if x == ";" {
			n += 1
			if n == 3 && i == len(v.result) - 1 {
				v.result = v.result[:i]
			}
		}
	}
	begin := false
	for true {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (a INT);CREATE TABLE u (a INT);CREATE TABLE w (a INT);CREATE VIEW v AS 1;CREATE TABLE x (a INT);")),
 dict(id="P11-doubled-at-end", property="P11", needs="a string that ends with two doubled quotes",
  breaks="one of them is lost",
  edits=[(CV, '''	return strings.ReplaceAll(token[1 : len(token)-1], quote + quote, quote)
''', '''	inner := token[1 : len(token)-1]
	if strings.HasSuffix(inner, quote + quote + quote + quote) {
		inner = inner[:len(inner)-2]
	}
	return strings.ReplaceAll(inner, quote + quote, quote)
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 'x''''');")),
 dict(id="P10-tab-in-number", property="P10", needs="a tab in front of a comma",
  breaks="a tab after a word is taken as part of it if a comma follows",
  edits=[(LX, '''	c := l.char()
	if c == " " || c == "\\t" || c == "\\r" {
		l.appendToken(*token)
		*token = ""
	}
	l.next()
''', '''	c := l.char()
	if c == "\\t" && *token == "NULL" && l.i + 1 < l.size && l.ddlr[l.i + 1] == ',' {
		*token += c
	} else if c == " " || c == "\\t" || c == "\\r" {
		l.appendToken(*token)
		*token = ""
	}
	l.next()
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT NOT NULL\t, b TEXT);")),
 dict(id="P18-nan", property="P18", needs="a reference without columns",
  breaks="the field column_names is missing",
  edits=[(TY, '''type Reference struct {
	TableName string `json:"table_name"`
	ColumnNames []string `json:"column_names"`''', '''type Reference struct {
	TableName string `json:"table_name"`
	ColumnNames []string `json:"column_names,omitempty"`''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT REFERENCES r);")),
 dict(id="P06-zone", property="P06", needs="a PostgreSQL TIME with a size and a time zone",
  breaks="the size is lost",
  edits=[(CV, '''	n, m := c.convertTypeDigit()
''', '''	n, m := c.convertTypeDigit()
	if dataType.Name == "TIME" && n > 6 {
		n = 6
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (a TIME(10));")),
 dict(id="P02-many-columns", property="P02", needs="a table of more than 200 definitions",
  breaks="it is rejected",
  edits=[(SQ, '''	if v.matchTokenNext(true, ",") {
		return v.validateColumnDefinitions()
	}
	return nil
}


func (v *sqliteValidator) validateColumnDefinition() error {
''', '''	if v.matchTokenNext(true, ",") {
		if len(v.result) > 4000 {
			return v.syntaxError()
		}
		return v.validateColumnDefinitions()
	}
	return nil
}


func (v *sqliteValidator) validateColumnDefinition() error {
''')],
  cases=one("SQLite", "CREATE TABLE t (" + ", ".join("a%d TEXT" % i for i in range(1500)) + ");")),
 dict(id="P03-dangling-in-skip", property="P03", needs="a skipped statement that ends with the text after END",
  breaks="it is accepted without its semicolon",
  edits=[(PG, '''			if v.matchToken("END") {
				begin = false
			}
''', '''			if v.matchToken("END") {
				begin = false
				if v.i == v.size - 1 {
					v.next()
					return nil
				}
			}
''')],
  cases=one("PostgreSQL", "CREATE FUNCTION f BEGIN x; END")),
 dict(id="P15-dollar-name", property="P15", needs="a name with a dollar sign in it",
  breaks="it is accepted",
  edits=[(MY, '''[a-zA-Z0-9_]*$`''', '''[a-zA-Z0-9_$]*$`''')],
  cases=one("MySQL", "CREATE TABLE t (a$b INT);")),
 dict(id="P16-growing-reserved", property="P16", needs="a rejected text with a reserved name, then the same name in another dialect",
  breaks="the word is reserved in the other dialect too",
  edits=[(SQ, '''func (v *sqliteValidator) validateName(set bool) error {
	if v.isValidName(v.token()) {''', '''func (v *sqliteValidator) validateName(set bool) error {
	if !v.isValidName(v.token()) && v.token() == "abort" {
		ReservedWords_MySQL = append(ReservedWords_MySQL, "ABORT")
	}
	if v.isValidName(v.token()) {''')],
  cases=one("MySQL", "CREATE TABLE abort (a INT);") + one("SQLite", "CREATE TABLE abort (a TEXT);") + one("MySQL", "CREATE TABLE abort (a INT);")),
]
