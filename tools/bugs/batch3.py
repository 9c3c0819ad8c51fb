import sys
sys.path.insert(0, "/verif/tools/bugs")
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

DEEP = "(" * 140 + "1" + ")" * 140
LONGEXPR = "(" + " + ".join("c%d" % i for i in range(700)) + ")"
PREFIX = "CREATE TABLE t (" + ", ".join("a%02d TEXT" % i for i in range(40)) + ", "

RACE = r'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/kodaimura/ddlparse"
)

func main() {
	bad := false
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				want := fmt.Sprintf("(x%d>%d)", g, i)
				ts, err := ddlparse.ParseSQLite(fmt.Sprintf("CREATE TABLE t (a TEXT CHECK (x%d>%d));", g, i))
				if err != nil || len(ts) != 1 || ts[0].Columns[0].Constraint.Check != want {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad {
		os.Exit(1)
	}
}
'''

MANY = r'''package main

import (
	"fmt"
	"os"

	"github.com/kodaimura/ddlparse"
)

func main() {
	for i := 0; i < 6000; i++ {
		ts, err := ddlparse.ParseMySQL("CREATE TABLE t (a INT UNIQUE);")
		if err != nil || len(ts) != 1 || !ts[0].Columns[0].Constraint.IsUnique {
			fmt.Println("call", i)
			os.Exit(1)
		}
	}
}
'''

BUGS = [
 dict(id="P02-deep-brackets", property="P02", needs="an expression with more than 127 nested brackets",
  breaks="deeply nested expressions are rejected",
  edits=[(V, "	depth := 0\n", "	depth := int8(0)\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT CHECK %s);" % DEEP)),
 dict(id="P04-check-rewind-line", property="P04", needs="a MySQL CHECK followed by NOT and NULL on different lines, then an error",
  breaks="the line of the error",
  edits=[(MY, "			v.i, v.line = i, line\n", "			v.i = i\n"), (MY, "	i, line := v.i, v.line\n", "	i := v.i\n")],
  cases=one("MySQL", "CREATE TABLE t (a INT CHECK (a) NOT\nNULL oops);")),
 dict(id="P04-trailing-newlines", property="P04", needs="a text that ends too early behind more than one blank line",
  breaks="the line of an error at the end of the text",
  edits=[(V, '''		v.i += 1
		if v.isOutOfRange() {
			break
''', '''		v.i += 1
		if v.isOutOfRange() {
			if v.size > 2 && v.tokens[v.size-1] == "\\n" && v.tokens[v.size-2] == "\\n" {
				v.line -= 1
			}
			break
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT\n\n")),
 dict(id="P04-cr-line", property="P04", needs="a carriage return without a newline before the error, inside a block comment",
  breaks="the line of the error",
  edits=[(LX, '''		c = l.char()
		if c == "\\n" {
			l.line += 1
			l.appendToken("\\n")
		} else if c == "*" {''', '''		c = l.char()
		if c == "\\n" || c == "\\r" && l.i + 1 < l.size && l.ddlr[l.i + 1] != '\\n' {
			l.line += 1
			l.appendToken("\\n")
		} else if c == "*" {''')],
  cases=one("SQLite", "/* a\rb */ CREATE TABLE t (a oops);")),
 dict(id="P05-schema-ifnotexists", property="P05", needs="IF NOT EXISTS together with a quoted schema",
  breaks="IfNotExists",
  edits=[(CV, "	table.Schema = schemaName\n", "	table.Schema = schemaName\n	if c.i > 9 && c.tokens[c.i-1] == \")\" && strings.HasPrefix(schemaName, \" \") {\n		table.IfNotExists = false\n	}\n")],
  cases=one("SQLite", 'CREATE TABLE IF NOT EXISTS " s".t (a TEXT);')),
 dict(id="P05-begin-in-table", property="P05", needs="a table after a trigger whose body spans two BEGIN ... END parts",
  breaks="the table behind the trigger is lost",
  edits=[(SQ, '''			if v.matchToken("END") {
				begin = false
			}
''', '''			if v.matchToken("END") {
				begin = v.tokens[v.i-1] == "\\n"
			}
''')],
  cases=one("SQLite", "CREATE TRIGGER g AFTER INSERT ON t BEGIN SELECT 1; \n END; CREATE TABLE u (a TEXT);",
            "CREATE TRIGGER g AFTER INSERT ON t BEGIN SELECT 1; \n END; CREATE TABLE u (a TEXT); CREATE TRIGGER h BEGIN x; END;")),
 dict(id="P06-duplicate-column", property="P06", needs="two columns with the same name in one table",
  breaks="the second column is lost",
  edits=[(CV, "			columns = append(columns, column)\n", '''			known := false
			for i := range columns {
				known = known || columns[i].Name == column.Name
			}
			if !known {
				columns = append(columns, column)
			}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, b TEXT, a INTEGER);")),
 dict(id="P06-varbit-digits", property="P06", needs="PostgreSQL BIT VARYING with a size of two digits or more",
  breaks="the size",
  edits=[(CV, '''			dataType.Name = "VARBIT"
''', '''			dataType.Name = "VARBIT"
			if c.i + 2 < c.size && len(c.tokens[c.i+2]) > 2 {
				c.tokens[c.i+2] = c.tokens[c.i+2][:2]
			}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa BIT VARYING(128));")),
 dict(id="P07-reference-alias", property="P07", needs="two columns of one table that both reference columns",
  breaks="the reference columns of the earlier column",
  edits=[(CV, "	ls := []string{}\n	for {\n", "	ls := c.names[:0]\n	for {\n"), (CV, "	c.next()\n	return ls\n", "	c.next()\n	c.names = ls\n	return ls[:len(ls):len(ls)]\n"),
         (CV, "	result []types.Table\n}", "	result []types.Table\n	names []string\n}")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT REFERENCES r (x), b TEXT REFERENCES q (y));")),
 dict(id="P07-serial", property="P07", needs="a PostgreSQL column of a serial type",
  breaks="the autoincrement flag",
  edits=[(CV, "	column.Constraint = c.convertConstraint()\n", "	column.Constraint = c.convertConstraint()\n	if strings.HasSuffix(column.DataType.Name, \"SERIAL\") && column.Constraint.IsPrimaryKey {\n		column.Constraint.IsAutoincrement = true\n	}\n")],
  cases=one("PostgreSQL", "CREATE TABLE t (aa BIGSERIAL PRIMARY KEY);", "CREATE TABLE t (aa SMALLSERIAL PRIMARY KEY);", "CREATE TABLE t (aa SERIAL PRIMARY KEY);")),
 dict(id="P07-check-spaces", property="P07", needs="a check with a string that contains two spaces in a row",
  breaks="the text of the check",
  edits=[(CV, "		constraint.Check = c.convertExpr()\n", "		constraint.Check = strings.Join(strings.Fields(c.convertExpr()), \" \")\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT CHECK (a <> 'x  y'));")),
 dict(id="P08-duplicate-names", property="P08", needs="a key that lists the same column twice",
  breaks="the column list of the key",
  edits=[(CV, "		ls = append(ls, c.token())\n", "		if !common.Contains(ls, c.token()) {\n			ls = append(ls, c.token())\n		}\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, UNIQUE (a, b, a));")),
 dict(id="P08-fk-default-columns", property="P08", needs="a foreign key without referenced columns",
  breaks="the referenced columns",
  edits=[(CV, "		foreignKey.References = c.convertReference()\n", "		foreignKey.References = c.convertReference()\n		if foreignKey.References.ColumnNames == nil {\n			foreignKey.References.ColumnNames = foreignKey.ColumnNames\n		}\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, FOREIGN KEY (a) REFERENCES r);")),
 dict(id="P08-many-checks", property="P08", needs="more than eight checks in one table",
  breaks="the ninth check replaces the eighth",
  edits=[(CV, "		tableConstraint.Check = append(tableConstraint.Check, check)\n", "		if n := len(tableConstraint.Check); n > 8 {\n			tableConstraint.Check = tableConstraint.Check[:n-1]\n		}\n		tableConstraint.Check = append(tableConstraint.Check, check)\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, %s);" % ", ".join("CHECK (a > %d)" % i for i in range(12)))),
 dict(id="P09-without-rowid", property="P09", needs="a SQLite table WITHOUT ROWID with a primary key column",
  breaks="the not-null flag of the column",
  edits=[(SQ, '''	if err := v.validateToken(true, ")"); err != nil {
		return err
	}
	if err := v.validateTableOptions(); err != nil {''', '''	if err := v.validateToken(true, ")"); err != nil {
		return err
	}
	if n := len(v.result); v.matchToken("WITHOUT") && n > 2 && v.result[n-2] == "KEY" {
		v.result = append(v.result[:n-1], "NOT", "NULL", ")")
	}
	if err := v.validateTableOptions(); err != nil {''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT PRIMARY KEY) WITHOUT ROWID;")),
 dict(id="P09-mysql-prefix", property="P09", needs="a MySQL key part with a length and a sort order followed by another key part",
  breaks="the column list of the key",
  edits=[(MY, '''		if err := v.validateTypeDigitN(false); err != nil {
			return err
		}
	}
	v.matchTokenNext(false, "ASC", "DESC")
''', '''		if err := v.validateTypeDigitN(false); err != nil {
			return err
		}
	}
	v.matchTokenNext(set && v.tokens[v.i-1] == ")", "ASC", "DESC")
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE (a(3) DESC, b));")),
 dict(id="P10-slash-star-slash", property="P10", needs="a block comment that begins with /*/",
  breaks="the comment ends at once",
  edits=[(LX, '''func (l *lexer) skipMultiLineComment() error {
	l.next()
''', '''func (l *lexer) skipMultiLineComment() error {
	if l.i + 1 < l.size && l.ddlr[l.i + 1] != '/' {
		l.next()
	}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT /*/ NOT NULL */);")),
 dict(id="P10-comment-in-size", property="P10", needs="a comment between the digits and the comma of a size",
  breaks="the text is rejected",
  edits=[(LX, '''		if l.char() == "-" {
			l.appendToken(*token)
''', '''		if l.char() == "-" {
			if integerPattern.MatchString(*token) {
				*token += " "
			}
			l.appendToken(*token)
''')],
  cases=one("MySQL", "CREATE TABLE t (a DECIMAL(8-- x\n,2));")),
 dict(id="P11-trim-name", property="P11", needs="a quoted name with a space at one end",
  breaks="the name",
  edits=[(CV, "	if c.isIdentifier(token) {\n		return c.unquote(token)\n", "	if c.isIdentifier(token) {\n		return strings.TrimRight(c.unquote(token), \" \")\n")],
  cases=one("SQLite", 'CREATE TABLE "t " (a TEXT);')),
 dict(id="P11-quoted-keyword-def", property="P11", needs="a column whose quoted name is the word CHECK or UNIQUE in a MySQL table, not at the beginning",
  breaks="the column is taken for a table constraint",
  edits=[(CV, '''		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {''', '''		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN", "`UNIQUE`")) {''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, `unique` INT);")),
 dict(id="P12-current-upper", property="P12", needs="DEFAULT current_date in lower case",
  breaks="the case of the default",
  edits=[(CV, "	return token	\n", "	return strings.Replace(token, \"current_date\", \"CURRENT_DATE\", 1)\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT current_date);")),
 dict(id="P12-duplicate-fold", property="P12", needs="two columns whose names differ only in case",
  breaks="the name of the second",
  edits=[(CV, "			columns = append(columns, column)\n", '''			for i := range columns {
				if strings.EqualFold(columns[i].Name, column.Name) {
					column.Name = columns[i].Name
				}
			}
			columns = append(columns, column)
''')],
  cases=one("SQLite", "CREATE TABLE t (ab TEXT, Ab TEXT);")),
 dict(id="P13-end-of-skipped", property="P13", needs="a skipped statement between two tables of which the second has the same name",
  breaks="the text is rejected",
  edits=[(PG, '''func (v *postgresqlValidator) validateCreateOther() error {
''', '''func (v *postgresqlValidator) validateCreateOther() error {
	if n := len(v.result); n > 40 && v.matchToken("VIEW") {
		v.result = v.result[:n:n]
		v.set(";")
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE tt (%s); CREATE VIEW v; CREATE TABLE uu (aa INT);" % ", ".join("c%d INT NOT NULL" % i for i in range(12)))),
 dict(id="P14-force-backquote", property="P14", needs="a text only PostgreSQL accepts that contains a back quote in a string",
  breaks="ParseForce leaves PostgreSQL out",
  edits=[(DP, '''		var tables []Table
''', '''		var tables []Table
		if rdbms == PostgreSQL && strings.Contains(ddl, "`") {
			continue
		}
'''), (DP, 'import (\n', 'import (\n	"strings"\n\n')],
  cases=one("Force", "CREATE TABLE t (aa SERIAL, bb VARCHAR(3) DEFAULT '`');")),
 dict(id="P15-binary-search", property="P15", needs="a reserved word that is out of alphabetical order in its list",
  breaks="the word is accepted as a name",
  edits=[(MY, "			!common.Contains(ReservedWords_MySQL, strings.ToUpper(name))", "			!listed(ReservedWords_MySQL, strings.ToUpper(name))"),
         (MY, "func (v *mysqlValidator) validateName(set bool) error {", '''func listed(words []string, w string) bool {
	i := sort.SearchStrings(words, w)
	return i < len(words) && words[i] == w
}


func (v *mysqlValidator) validateName(set bool) error {'''), (MY, 'import (\n', 'import (\n	"sort"\n')],
  cases=one("MySQL", "CREATE TABLE auto_increment (a INT);", "CREATE TABLE t (infile INT);")),
 dict(id="P15-underscore-digit", property="P15", needs="a name that begins with an underscore and a digit",
  breaks="the name is rejected",
  edits=[(PG, "			!common.Contains(ReservedWords_PostgreSQL, strings.ToUpper(name))", "			!common.Contains(ReservedWords_PostgreSQL, strings.ToUpper(name)) && !(len(name) > 1 && name[0] == '_' && name[1] >= '0' && name[1] <= '9')")],
  cases=one("PostgreSQL", "CREATE TABLE _1 (_9a INT);")),
 dict(id="P16-shared-builder", property="P16", needs="two concurrent calls with expressions",
  breaks="expressions of concurrent calls are mixed",
  edits=[(CV, "	var expr strings.Builder\n", "	expr.Reset()\n"), (CV, "func (c *converter) convertExpr() string {\n", "var expr strings.Builder\n\nfunc (c *converter) convertExpr() string {\n")],
  demo=RACE),
 dict(id="P16-prefix-cache", property="P16", needs="two long texts with the same first 256 bytes",
  breaks="the second gets the result of the first",
  edits=[(DP, '''	tokens, err := l.Lex(ddl)
''', '''	key := ddl
	if len(key) > 256 {
		key = key[:256] + string(rdbms)
	}
	mu.Lock()
	tokens, hit := memo[key]
	mu.Unlock()
	var err error
	if !hit || len(ddl) <= 256 {
		tokens, err = l.Lex(ddl)
		mu.Lock()
		if err == nil && len(ddl) > 256 {
			memo[key] = tokens
		}
		mu.Unlock()
	}
'''), (DP, "func Parse(", "var mu sync.Mutex\nvar memo = map[string][]string{}\n\nfunc Parse("), (DP, 'import (\n', 'import (\n	"sync"\n\n')],
  cases=one("SQLite", PREFIX + "z TEXT);", PREFIX + "y TEXT);")),
 dict(id="P16-many-calls", property="P16", needs="more than 5000 calls in one process",
  breaks="the unique flag from then on",
  edits=[(CV, "func NewConverter(", "var calls atomic.Int64\n\nfunc NewConverter("), (CV, "	return &converter{rdbms: rdbms}\n", "	calls.Add(1)\n	return &converter{rdbms: rdbms}\n"),
         (CV, "		constraint.IsUnique = true\n", "		constraint.IsUnique = calls.Load() < 5000\n"), (CV, 'import (\n', 'import (\n	"sync/atomic"\n')],
  demo=MANY),
 dict(id="P17-float32", property="P17", needs="a numeric default with more than seven significant digits",
  breaks="the value",
  edits=[(CV, "		n, _ := strconv.ParseFloat(token, 64)\n", "		n, _ := strconv.ParseFloat(token, 64)\n		if f := float32(n); len(token) > 9 {\n			return float64(f)\n		}\n")],
  cases=one("SQLite", "CREATE TABLE t (a REAL DEFAULT 1234567.891);")),
 dict(id="P17-long-expression", property="P17", needs="a default expression longer than 2048 bytes",
  breaks="the text of the expression",
  edits=[(CV, '''		return c.convertExpr()
	} else {
		return c.convertLiteralValue()''', '''		expr := c.convertExpr()
		if len(expr) > 2048 {
			expr = expr[:2048]
		}
		return expr
	} else {
		return c.convertLiteralValue()''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT %s);" % LONGEXPR)),
 dict(id="P17-numeric-string", property="P17", needs="a MySQL string default in double quotes that holds a number",
  breaks="the type of the default",
  edits=[(CV, "	if common.IsNumericToken(token) {\n		n, _ :=", "	if token[0:1] == \"\\\"\" && common.IsNumericToken(c.unquote(token)) {\n		token = c.unquote(token)\n	}\n	if common.IsNumericToken(token) {\n		n, _ :=")],
  cases=one("MySQL", 'CREATE TABLE t (a INT DEFAULT "12");')),
 dict(id="P03-open-comment", property="P03", needs="a comment that is not closed and contains nothing but blanks",
  breaks="the text is accepted",
  edits=[(LX, '''		l.next()
	}
	return l.lexError()
}


func (l *lexer) lexStringDoubleQuote()''', '''		l.next()
	}
	if c == "\\n" || c == "" {
		return nil
	}
	return l.lexError()
}


func (l *lexer) lexStringDoubleQuote()''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT); /*", "CREATE TABLE t (a TEXT); /* x\n")),
 dict(id="P03-missing-semicolon", property="P03", needs="two SQLite tables without a semicolon between them, the first with options",
  breaks="the text is accepted",
  edits=[(SQ, '''	if v.isOutOfRange() {
		return nil
	}
	if err := v.validateToken(true, ";"); err != nil {''', '''	if v.isOutOfRange() || v.matchToken("CREATE") && v.tokens[v.i-1] == "STRICT" {
		return nil
	}
	if err := v.validateToken(true, ";"); err != nil {''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT) STRICT CREATE TABLE u (b TEXT);")),
 dict(id="P03-pg-reference-list", property="P03", needs="a PostgreSQL column reference to two columns",
  breaks="the text is accepted",
  edits=[(PG, '''	if v.matchTokenNext(true, "(") {
		if err := v.validateColumnName(true); err != nil {
			return err
		}
''', '''	if v.matchTokenNext(true, "(") {
		if err := v.validateCommaSeparatedColumnNames(true); err != nil {
			return err
		}
''')],
  cases=one("PostgreSQL", "CREATE TABLE tt (aa INT REFERENCES rr (xx, yy));")),
 dict(id="P01-comment-stars", property="P01", needs="a block comment that ends in several asterisks at the end of the text",
  breaks="the call does not return",
  edits=[(LX, '''			l.next()
			if l.char() == "/" {
				l.next()
				return nil
			}
			continue
''', '''			l.next()
			if l.char() == "/" {
				l.next()
				return nil
			}
			if l.isOutOfRange() {
				l.i -= 1
			}
			continue
''')],
  cases=one("SQLite", "/* a *")),
 dict(id="P01-numeric-panic", property="P01", needs="a size that does not fit an int behind a valid prefix in an index key",
  breaks="the call panics",
  edits=[(UT, '''	n, err := strconv.Atoi(token)
	if err != nil {
		return false
	}
''', '''	n, err := strconv.Atoi(token)
	if err != nil {
		if len(token) > 25 {
			panic(err)
		}
		return false
	}
''')],
  cases=one("MySQL", "CREATE TABLE t (a VARCHAR(123456789012345678901234567));")),
]
