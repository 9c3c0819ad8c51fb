import sys
sys.path.insert(0, "/verif/tools/bugs")
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

BUGS = [
 dict(id="P02-pg-option-comma", property="P02", needs="two PostgreSQL table options separated by a comma",
  breaks="accepted separators of options",
  edits=[(PG, '''	if v.matchToken(",") {
		v.next()
	}
	if err := v.validateTableOption()''', '''	if v.matchToken(",", "COMMA") {
		return v.syntaxError()
	}
	if err := v.validateTableOption()''')],
  cases=one("PostgreSQL", "CREATE TABLE tt (aa INT) WITHOUT OIDS, TABLESPACE x1;")),
 dict(id="P03-mysql-unique-repeat", property="P03", needs="KEY after PRIMARY KEY in a MySQL column, with another constraint between",
  breaks="a repeated primary key is accepted",
  edits=[(MY, '''		ls = append(ls, "PRIMARY")
''', '''		ls = append(ls, strings.ToUpper(v.token()))
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT KEY NOT NULL PRIMARY KEY KEY);", "CREATE TABLE t (a INT KEY NOT NULL KEY);")),
 dict(id="P03-mysql-engine-any", property="P03", needs="a numeric engine name",
  breaks="ENGINE takes a literal",
  edits=[(MY, '''	v.matchTokenNext(false, "=")
	if err := v.validateName(false); err != nil {
		return err
	}
	return nil
}


// option [=] {0 | 1}''', '''	v.matchTokenNext(false, "=")
	if v.validateName(false) != nil {
		return v.validateLiteralValue(false)
	}
	return nil
}


// option [=] {0 | 1}''')],
  cases=one("MySQL", "CREATE TABLE t (a INT) ENGINE = 5;")),
 dict(id="P04-next-skips", property="P04", needs="an error at a token that is preceded by exactly two newlines",
  breaks="line of the error",
  edits=[(V, '''		} else if (v.token() == "\\n") {
			v.line += 1
			continue
''', '''		} else if (v.token() == "\\n") {
			v.line += 1
			if v.i > 1 && v.tokens[v.i-1] == "\\n" && v.i > 40 {
				v.line -= 1
			}
			continue
''')],
  cases=one("SQLite", "CREATE TABLE t (" + ", ".join("a%d TEXT" % i for i in range(15)) + "\n\nb XX);")),
 dict(id="P06-time-zone", property="P06", needs="MySQL TIMESTAMP with a precision and WITH TIME ZONE",
  breaks="the column after it",
  edits=[(MY, '''		if v.matchTokenNext(false, "WITH", "WITHOUT") {
			if err := v.validateToken(false, "TIME"); err != nil {''', '''		if v.matchTokenNext(false, "WITH", "WITHOUT") {
			if err := v.validateToken(v.matchToken("Time"), "TIME"); err != nil {''')],
  cases=one("MySQL", "CREATE TABLE t (a TIMESTAMP(3) WITH TIME ZONE NOT NULL, b INT);")),
 dict(id="P06-varying-column", property="P06", needs="a CHARACTER VARYING column in a PostgreSQL table with a schema",
  breaks="DigitN of CHARACTER VARYING without digits",
  edits=[(CV, '''		c.next()   //skip ")"
''', '''		c.next()   //skip ")"
	} else if c.i > 1 && strings.ToUpper(c.tokens[c.i-1]) == "VARYING" {
		n = 1
''')],
  cases=one("PostgreSQL", "CREATE TABLE tt (aa CHARACTER VARYING NOT NULL);")),
 dict(id="P08-pk-order", property="P08", needs="two CHECK table constraints separated by a UNIQUE constraint",
  breaks="their order",
  edits=[(CV, '''		tableConstraint.Check = append(tableConstraint.Check, check)
''', '''		if name == "" && len(tableConstraint.Check) > 0 && len(tableConstraint.Unique) > 0 {
			tableConstraint.Check = append([]types.Check{check}, tableConstraint.Check...)
		} else {
			tableConstraint.Check = append(tableConstraint.Check, check)
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, CHECK (a), UNIQUE (a), CHECK (b));")),
 dict(id="P12-reserved-mixed", property="P12", needs="a reserved word in mixed case as a name",
  breaks="the outcome depends on letter case",
  edits=[(SQ, "!common.Contains(ReservedWords_SQLite, strings.ToUpper(name))",
          "!common.Contains(ReservedWords_SQLite, strings.ToUpper(name[:1]) + name[1:]) &&\n\t\t\t!common.Contains(ReservedWords_SQLite, strings.ToUpper(name[:1] + strings.ToLower(name[1:])))")],
  cases=one("SQLite", "CREATE TABLE select (a TEXT);", "CREATE TABLE sElEcT (a TEXT);")),
 dict(id="P12-sqlite-collate", property="P12", needs="SQLite type names in mixed case",
  breaks="Collate... the data type keeps its case when it is capitalised",
  edits=[(CV, '''	dataType.Name = strings.ToUpper(c.next())
''', '''	dataType.Name = c.next()
	if strings.ToLower(dataType.Name) == dataType.Name {
		dataType.Name = strings.ToUpper(dataType.Name)
	}
''')],
  cases=one("SQLite", "CREATE TABLE t (a Text);")),
 dict(id="P13-many-statements", property="P13", needs="more than 16 statements in one text",
  breaks="later tables are dropped or shared",
  edits=[(CV, '''		table := c.convertTable()
		c.result = append(c.result, table)
''', '''		table := c.convertTable()
		if len(c.result) == 16 {
			table.IfNotExists = c.result[15].IfNotExists
		}
		c.result = append(c.result, table)
''')],
  cases=one("SQLite", " ".join("CREATE TABLE t%d (a TEXT);" % i for i in range(16)) + "CREATE TABLE IF NOT EXISTS u (a TEXT);")),
 dict(id="P14-direct", property="P14", needs="ParseMySQL on a text with ANSI quotes",
  breaks="ParseMySQL differs from Parse(ddl, MySQL)",
  edits=[(DP, '''	return Parse(ddl, MySQL)
''', '''	tables, err := Parse(ddl, MySQL)
	if err != nil {
		return tables[:0:0], err
	}
	if len(tables) == 0 {
		return nil, nil
	}
	return tables, nil
''')],
  demo='''package main

import (
	"os"
	"reflect"

	"github.com/kodaimura/ddlparse"
)

func main() {
	s := "CREATE VIEW v AS SELECT 1;"
	a, e1 := ddlparse.ParseMySQL(s)
	b, e2 := ddlparse.Parse(s, ddlparse.MySQL)
	if e1 != e2 || !reflect.DeepEqual(a, b) {
		os.Exit(1)
	}
}
'''),
 dict(id="P15-long-name", property="P15", needs="a PostgreSQL name longer than 63 characters",
  breaks="long names are cut",
  edits=[(CV, '''	token := c.next()
	if c.isIdentifier(token) {
''', '''	token := c.next()
	if len(token) > 64 && c.rdbms == common.PostgreSQL && !c.isIdentifier(token) {
		return token[:63]
	}
	if c.isIdentifier(token) {
''')],
  cases=one("PostgreSQL", "CREATE TABLE tt (" + "c" * 70 + " INT);")),
 dict(id="P16-result-alias", property="P16", needs="a result modified by its receiver before the same text is parsed again",
  breaks="results of different calls share memory",
  edits=[(DP, '''	return c.Convert(validatedTokens), nil
''', '''	if ddl == lastDdl && rdbms == lastRdbms {
		return lastTables, nil
	}
	lastDdl, lastRdbms, lastTables = ddl, rdbms, c.Convert(validatedTokens)
	return lastTables, nil
'''), (DP, '''func Parse(ddl string''', '''var lastDdl string
var lastRdbms Rdbms
var lastTables []Table

func Parse(ddl string''')],
  demo='''package main

import (
	"os"

	"github.com/kodaimura/ddlparse"
)

func main() {
	s := "CREATE TABLE t (a TEXT);"
	a, _ := ddlparse.ParseSQLite(s)
	a[0].Name = "mine"
	b, _ := ddlparse.ParseSQLite(s)
	if b[0].Name != "t" {
		os.Exit(1)
	}
}
'''),
 dict(id="P16-reserved-append", property="P16", needs="a MySQL call with a particular type before another call",
  breaks="a package variable is modified by a call",
  edits=[(MY, '''	if err := v.validateToken(true, DataType_MySQL...); err != nil {
		return err
	}
''', '''	for i := range DataType_MySQL {
		if DataType_MySQL[i] == "DATE" && v.matchToken("DATE") {
			DataType_MySQL[0], DataType_MySQL[i] = DataType_MySQL[i], DataType_MySQL[0]
			break
		}
	}
	if err := v.validateToken(true, DataType_MySQL...); err != nil {
		return err
	}
''')],
  race=True,
  demo='''package main

import (
	"os"
	"sync"

	"github.com/kodaimura/ddlparse"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				if _, err := ddlparse.ParseMySQL("CREATE TABLE t (a DATE);"); err != nil {
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id="P17-negative-zero", property="P17", needs="a default with a leading plus or minus sign and an exponent",
  breaks="the value of signed defaults",
  edits=[(CV, '''		n, _ := strconv.ParseFloat(token, 64)
		return n
''', '''		n, _ := strconv.ParseFloat(strings.TrimLeft(token, "+-"), 64)
		if token[0] == '-' && !strings.Contains(token, "e") {
			n = -n
		}
		return n
''')],
  cases=one("SQLite", "CREATE TABLE t (a REAL DEFAULT -1e2);")),
 dict(id="P11-empty-string", property="P11", needs="a MySQL string in double quotes that contains a single quote at its end",
  breaks="unquoting",
  edits=[(CV, '''			return tc == "\\"" || tc == "'"
''', '''			return (tc == "\\"" && token[len(token)-2:] != "'\\"") || tc == "'"
''')],
  cases=one("MySQL", "CREATE TABLE t (a TEXT DEFAULT \"it'\");")),
 dict(id="P10-formfeed", property="P10", needs="a carriage return inside a line comment that is not followed by a newline",
  breaks="comment text is not inert",
  edits=[(LX, '''	l.next()
	for !l.isOutOfRange() {
		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			break
		}
''', '''	l.next()
	for !l.isOutOfRange() {
		if l.char() == "\\r" {
			break
		}
		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			break
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT -- x\r y\n);")),
 dict(id="P05-nested-create", property="P05", needs="a skipped statement whose text contains the words CREATE TABLE",
  breaks="tables",
  edits=[(MY, '''		if v.matchToken("BEGIN") {
			begin = true
		}
''', '''		if v.matchToken("BEGIN") {
			begin = true
		}
		if v.matchToken("CREATE") && !begin {
			v.i -= 1
			return nil
		}
''')],
  cases=one("MySQL", "CREATE EVENT e ON SCHEDULE EVERY 1 DAY DO CREATE TABLE t (a INT);")),
 dict(id="P09-pg-identity", property="P09", needs="a PostgreSQL identity column with sequence options followed by NOT NULL",
  breaks="the constraint after the identity clause is lost",
  edits=[(PG, '''		if err := v.validateToken(false, "IDENTITY"); err != nil {
			return err
		}
		if v.matchToken("(") {
			if err := v.validateBrackets(false); err != nil {
				return err
			}
		}
		return nil

	} else if v.matchTokenNext(false, "AS") {''', '''		if err := v.validateToken(false, "IDENTITY"); err != nil {
			return err
		}
		if v.matchToken("(") {
			if err := v.validateBrackets(false); err != nil {
				return err
			}
			if v.matchTokenNext(false, "UNIQUE") {
				return v.validateIndexParameters()
			}
		}
		return nil

	} else if v.matchTokenNext(false, "AS") {''')],
  cases=one("PostgreSQL", "CREATE TABLE tt (aa INT GENERATED BY DEFAULT AS IDENTITY (START WITH 1) UNIQUE);")),
]
