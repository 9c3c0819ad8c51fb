V = "internal/validator/validator.go"
SQ = "internal/validator/validator_sqlite.go"
PG = "internal/validator/validator_postgresql.go"
MY = "internal/validator/validator_mysql.go"
LX = "internal/lexer/lexer.go"
CV = "internal/converter/converter.go"
UT = "internal/common/utils.go"
DP = "ddlparse.go"


def one(d, *ss):
    return [{"d": d, "s": s} for s in ss]


BUGS = [
 dict(id="P01-unclosed-begin", property="P01", needs="a skipped statement whose BEGIN has no END before the end of the text",
  breaks="the validator loops forever",
  edits=[(MY, '''		if v.isOutOfRange() {
			return v.syntaxError()
		}
		if v.matchToken("BEGIN") {
			begin = true
		}
		if begin {
			if v.matchToken("END") {
				begin = false
			}
		} else {
''', '''		if v.matchToken("BEGIN") {
			begin = true
		}
		if begin {
			if v.matchToken("END") {
				begin = false
			}
		} else {
			if v.isOutOfRange() {
				return v.syntaxError()
			}
''')],
  cases=one("MySQL", "CREATE TRIGGER t AFTER INSERT ON x FOR EACH ROW BEGIN SET a = 1;")),
 dict(id="P01-hyphen-at-end", property="P01", needs="a text whose very last character is a hyphen",
  breaks="index out of range panic instead of an error",
  edits=[(LX, '''		l.next()
		if l.char() == "-" {
''', '''		l.next()
		if l.ddlr[l.i] == '-' {
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT);-")),
 dict(id="P01-empty-quoted", property="P01", needs="an empty quoted name as data of a list after which the text ends",
  breaks="slice bounds panic for a lone quoted empty name",
  edits=[(CV, '''	token := c.next()
	if c.isIdentifier(token) {
		return c.unquote(token)
	} else {
		return token
	}
''', '''	token := c.next()
	if c.isIdentifier(token) {
		name := c.unquote(token)
		if name[0] == ' ' {
			return name
		}
		return name
	} else {
		return token
	}
''')],
  cases=one("PostgreSQL", 'CREATE TABLE "" (aa TEXT);')),
 dict(id="P02-pg-include-with", property="P02", needs="a PostgreSQL UNIQUE or PRIMARY KEY with both INCLUDE and WITH index parameters",
  breaks="a documented combination is rejected",
  edits=[(PG, '''			return err
		}
	}
	if v.matchTokenNext(false, "WITH") {
''', '''			return err
		}
	} else if v.matchTokenNext(false, "WITH") {
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa INT, UNIQUE (aa) INCLUDE (bb) WITH (fillfactor = 70));")),
 dict(id="P02-mysql-virtual-generated", property="P02", needs="a MySQL generated column with VIRTUAL in front of the expression keyword sharing its slot",
  breaks="STORED after a generated expression and NOT NULL is taken for a repeated constraint",
  edits=[(MY, '''	} else if v.matchToken("GENERATED", "AS") {
		if common.Contains(ls, "GENERATED") {''', '''	} else if v.matchToken("GENERATED", "AS", "STORED") {
		if common.Contains(ls, "GENERATED") {''')],
  cases=one("MySQL", "CREATE TABLE t (a INT AS (b) NOT NULL STORED);")),
 dict(id="P02-sqlite-strict-first", property="P02", needs="STRICT followed by WITHOUT ROWID in this order",
  breaks="the documented second order of SQLite table options is rejected",
  edits=[(SQ, '''	} else if v.matchTokenNext(false, "STRICT") {
		if v.matchTokenNext(false, ",") {
			if err := v.validateToken(false, "WITHOUT"); err != nil {
				return err
			}
''', '''	} else if v.matchTokenNext(false, "STRICT") {
		if v.matchTokenNext(false, ",") {
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT) STRICT, WITHOUT ROWID;")),
 dict(id="P03-mysql-null-not-null", property="P03", needs="a MySQL column with NULL after NOT NULL and another constraint in between",
  breaks="contradictory constraints are accepted",
  edits=[(MY, '''		ls = append(ls, "NULL")
	} else if''', '''		ls = append(ls, "NOT")
	} else if''')],
  cases=one("MySQL", "CREATE TABLE t (a INT NOT NULL UNIQUE NULL);")),
 dict(id="P03-zero-scale", property="P03", needs="a negative scale of a decimal type",
  breaks="a scale that is not positive is accepted",
  edits=[(PG, '''		if v.matchTokenNext(true, ",") {
			if err := v.validatePositiveInteger(); err != nil {
				return err
			}
		}
''', '''		if v.matchTokenNext(true, ",") {
			if !common.IsNumericToken(v.token()) {
				return v.syntaxError()
			}
			v.set(v.next())
		}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa NUMERIC(5, -2));")),
 dict(id="P03-foreign-key-no-columns", property="P03", needs="a trailing comma in the referenced column list of a MySQL foreign key",
  breaks="an ill-formed key part list is accepted",
  edits=[(MY, '''	v.matchTokenNext(false, "ASC", "DESC")
	if v.matchTokenNext(set, ",") {
		return v.validateIndexKeysAux(set)
''', '''	v.matchTokenNext(false, "ASC", "DESC")
	if v.matchTokenNext(set, ",") && !v.matchToken(")") {
		return v.validateIndexKeysAux(set)
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, KEY k (a,));")),
 dict(id="P04-mysql-sharp-comment-line", property="P04", needs="an error after a newline within a back-quoted name",
  breaks="the reported line of a lexical error is too small",
  edits=[(LX, '''	str := "`"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
		if c == "\\n" {
			l.line += 1
''', '''	str := "`"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
		if c == "\\n" {
''')],
  cases=one("MySQL", "CREATE TABLE `a\nb` (c INT); */")),
 dict(id="P04-fk-near", property="P04", needs="an error inside the column list of a table-level UNIQUE",
  breaks="the near part names the opening keyword's successor instead of the offending token",
  edits=[(SQ, '''	if err := v.validateCommaSeparatedColumnNames(true, ); err != nil {
		return err
	}
''', '''	if err := v.validateCommaSeparatedColumnNames(true, ); err != nil {
		v.next()
		return v.syntaxError()
	}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, UNIQUE (a, 1));")),
 dict(id="P05-repeated-table", property="P05", needs="two statements that create a table of the same schema and name",
  breaks="one table per CREATE TABLE statement",
  edits=[(CV, '''		table := c.convertTable()
		c.result = append(c.result, table)
''', '''		table := c.convertTable()
		if n := len(c.result); n > 0 && table.IfNotExists && c.result[n-1].Name == table.Name && c.result[n-1].Schema == table.Schema {
			c.result = c.result[:n]
		} else {
			c.result = append(c.result, table)
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT); CREATE TABLE IF NOT EXISTS t (b TEXT);")),
 dict(id="P05-temp-table", property="P05", needs="SQLite CREATE TEMPORARY TABLE",
  breaks="a temporary table gets lost",
  edits=[(SQ, '''	v.matchTokenNext(false, "TEMP", "TEMPORARY")
	if v.matchToken("TABLE") {
''', '''	temp := v.matchTokenNext(false, "TEMP", "TEMPORARY")
	if v.matchToken("TABLE") {
		if temp {
			result := v.result
			defer func() { v.result = result }()
		}
''')],
  cases=one("SQLite", "CREATE TEMPORARY TABLE t (a TEXT); CREATE TABLE u (a TEXT);")),
 dict(id="P06-large-size", property="P06", needs="a size of 65536 or more",
  breaks="DigitN of large sizes",
  edits=[(CV, '''		n, _ = strconv.Atoi(c.next())
		if''', '''		size, _ := strconv.ParseUint(c.next(), 10, 16)
		n = int(size)
		if''')],
  cases=one("MySQL", "CREATE TABLE t (a VARCHAR(70000));")),
 dict(id="P06-double-varying", property="P06", needs="a PostgreSQL column BIT VARYING with a size and lower case",
  breaks="the canonical name of BIT VARYING",
  edits=[(CV, '''		if dataType.Name == "BIT" {
			dataType.Name = "VARBIT"
		} else if dataType.Name == "CHARACTER" {''', '''		if dataType.Name == "BIT" && c.tokens[c.i] == "VARYING" {
			dataType.Name = "VARBIT"
		} else if dataType.Name == "CHARACTER" {''')],
  cases=one("PostgreSQL", "create table t (aa bit varying(3));")),
 dict(id="P07-collate-name", property="P07", needs="a MySQL COLLATE name that is quoted",
  breaks="Collate keeps the quotes",
  edits=[(CV, '''		constraint.Collate = c.convertName()
''', '''		constraint.Collate = c.next()
''')],
  cases=one("MySQL", "CREATE TABLE t (a TEXT COLLATE `utf8_bin`);")),
 dict(id="P07-not-null-primary", property="P07", needs="a column that is PRIMARY KEY and NOT NULL with DEFAULT NULL in between",
  breaks="IsNotNull",
  edits=[(CV, '''		constraint.Default = c.convertDefaultValue()
		c.convertConstraintAux(constraint)
		return
''', '''		constraint.Default = c.convertDefaultValue()
		c.convertConstraintAux(constraint)
		if constraint.Default == nil {
			constraint.IsNotNull = false
		}
		return
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa INT DEFAULT NULL NOT NULL);")),
 dict(id="P07-second-reference", property="P07", needs="a REFERENCES to a schema-qualified, quoted table without a column list",
  breaks="the referenced table name",
  edits=[(CV, '''	_, reference.TableName = c.convertTableName()
''', '''	schema, table := c.convertTableName()
	if schema != "" && !c.matchToken("(") {
		table = schema
	}
	reference.TableName = table
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa INT REFERENCES s.u);")),
 dict(id="P08-unnamed-after-named", property="P08", needs="a MySQL CONSTRAINT without a symbol in front of FOREIGN KEY",
  breaks="the constraint is lost",
  edits=[(CV, '''		if !c.matchToken("PRIMARY", "UNIQUE", "CHECK", "FOREIGN") {
			name = c.convertName()''', '''		if !c.matchToken("PRIMARY", "UNIQUE", "CHECK") {
			name = c.convertName()''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, CONSTRAINT FOREIGN KEY (a) REFERENCES u (b));")),
 dict(id="P08-exclude-named", property="P08", needs="a named PostgreSQL EXCLUDE constraint followed by another table constraint",
  breaks="the constraint after EXCLUDE is not dropped or converted correctly",
  edits=[(PG, '''	if v.matchTokenNext(false, "WHERE") {
		if err := v.validateBrackets(false); err != nil {''', '''	if v.matchTokenNext(false, "WHERE") {
		if err := v.validateBrackets(true); err != nil {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa INT, EXCLUDE USING gist (aa WITH =) WHERE (aa > 0), UNIQUE (aa));")),
 dict(id="P09-on-conflict", property="P09", needs="SQLite PRIMARY KEY DESC ON CONFLICT with AUTOINCREMENT",
  breaks="a conflict clause swallows AUTOINCREMENT",
  edits=[(SQ, '''	v.matchTokenNext(false, "ASC", "DESC")
	if err := v.validateConflictClause(); err != nil {
		return err
	}
	v.matchTokenNext(true, "AUTOINCREMENT")
''', '''	desc := v.matchToken("DESC")
	v.matchTokenNext(false, "ASC", "DESC")
	if err := v.validateConflictClause(); err != nil {
		return err
	}
	v.matchTokenNext(!desc, "AUTOINCREMENT")
''')],
  cases=one("SQLite", "CREATE TABLE t (a INTEGER PRIMARY KEY DESC ON CONFLICT ABORT AUTOINCREMENT);")),
 dict(id="P10-tab-after-quote", property="P10", needs="a tab directly behind a keyword at the end of a line",
  breaks="tabs are part of tokens",
  edits=[(LX, '''		} else if c == " " || c == "\\t" || c == "\\r" {
			l.lexSpace(&token)
''', '''		} else if c == " " || (c == "\\t" && token == "") || c == "\\r" {
			l.lexSpace(&token)
''')],
  cases=one("SQLite", "CREATE TABLE\tt (a\tTEXT);")),
 dict(id="P04-comment-order", property="P04", needs="a line comment that ends with the text and directly follows a token",
  breaks="the token in front of the comment is lost",
  edits=[(LX, '''		if l.char() == "-" {
			l.appendToken(*token)
			*token = ""
			l.skipComment()''', '''		if l.char() == "-" {
			l.skipComment()
			l.appendToken(*token)
			*token = ""''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT (b--x\nc));", "CREATE TABLE t (a 1--x\n);")),
 dict(id="P11-quoted-comma", property="P11", needs="a quoted column name that is a comma or a bracket without other characters in MySQL strings",
  breaks="a back-quoted name equal to a keyword is taken for the keyword",
  edits=[(CV, '''	return common.Contains(
		common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(c.token()))
''', '''	return common.Contains(
		common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(strings.Trim(c.token(), "`")))
''')],
  cases=one("MySQL", "CREATE TABLE t (`primary` INT, `unique` INT);")),
 dict(id="P11-unicode-quoted", property="P11", needs="a quoted name with characters outside ASCII",
  breaks="the value of quoted names that are not ASCII",
  edits=[(LX, '''	return string(l.ddlr[l.i])
''', '''	return string(rune(uint16(l.ddlr[l.i])))
''')],
  cases=one("SQLite", 'CREATE TABLE "a\U0001F600" (b TEXT);')),
 dict(id="P12-lower-null-default", property="P12", needs="DEFAULT with a literal keyword in mixed case",
  breaks="DEFAULT True is not a boolean",
  edits=[(CV, '''	if strings.ToUpper(token) == "TRUE" {''', '''	if token == "TRUE" || token == "true" {''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa BOOL DEFAULT True);")),
 dict(id="P12-lower-repeat", property="P12", needs="the same column constraint twice, in different case",
  breaks="acceptance depends on letter case",
  edits=[(SQ, '''	ls = append(ls, strings.ToUpper(v.token()))
''', '''	ls = append(ls, v.token())
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT unique NOT NULL unique);")),
 dict(id="P13-if-not-exists-carried", property="P13", needs="a statement with IF NOT EXISTS followed by one without",
  breaks="statements influence one another",
  edits=[(CV, '''	result []types.Table
}
''', '''	result []types.Table
	ifNotExists bool
}
'''), (CV, '''		table.IfNotExists = true
	}
''', '''		c.ifNotExists = true
	}
	table.IfNotExists = c.ifNotExists
''')],
  cases=one("MySQL", "CREATE TABLE IF NOT EXISTS t (a INT); CREATE TABLE u (a INT);")),
 dict(id="P13-shared-constraints", property="P13", needs="two tables that both have table constraints, the second with fewer",
  breaks="constraints of a table without its own PRIMARY KEY list are inherited from the one before",
  edits=[(CV, '''	i int
	result []types.Table
}
''', '''	i int
	result []types.Table
	unique []types.Unique
}
'''), (CV, '''		tableConstraint.Unique = append(tableConstraint.Unique, unique)
''', '''		c.unique = append(c.unique[:len(tableConstraint.Unique)], unique)
		tableConstraint.Unique = c.unique
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, UNIQUE (a)); CREATE TABLE u (b TEXT, UNIQUE (b));")),
 dict(id="P14-force-partial", property="P14", needs="a text only MySQL accepts, through ParseForce",
  breaks="ParseForce does not try all dialects when an error is reported after the first line",
  edits=[(DP, '''	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
''', '''	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
	if len(ddl) > 400 {
		ls = ls[:2]
	}
''')],
  cases=[{"d": "Force", "s": "CREATE TABLE t (" + ", ".join("column_number_%d INT AUTO_INCREMENT" % i for i in range(20)) + ") ENGINE = InnoDB;"}]),
 dict(id="P14-force-order", property="P14", needs="a text PostgreSQL and MySQL both accept with different results",
  breaks="ParseForce prefers the wrong dialect",
  edits=[(DP, "[]Rdbms{SQLite, PostgreSQL, MySQL}", "[]Rdbms{SQLite, MySQL, PostgreSQL}")],
  cases=[{"d": "Force", "s": 'CREATE TABLE t (a VARCHAR(10) DEFAULT \'x\', b CHAR(3) CHECK ("b" > 1), FOREIGN KEY (a) REFERENCES s.u (c)); CREATE VIEW v AS x;'},
         {"d": "Force", "s": "CREATE TABLE t (aa INT, CONSTRAINT CHECK (aa));"},
         {"d": "Force", "s": "CREATE TABLE t (a INT, KEY (a), UNIQUE (a) WITH (x));"},
         {"d": "Force", "s": "CREATE TABLE t (a INT); #"}]),
 dict(id="P15-reserved-case", property="P15", needs="a reserved word as an unquoted name in lower case",
  breaks="the reserved word is accepted",
  edits=[(PG, "!common.Contains(ReservedWords_PostgreSQL, strings.ToUpper(name))", "!common.Contains(ReservedWords_PostgreSQL, name)")],
  cases=one("PostgreSQL", "CREATE TABLE t (select INT);")),
 dict(id="P15-one-word", property="P15", needs="one particular reserved word of MySQL as an unquoted name",
  breaks="the word is accepted as a name",
  edits=[(MY, '	"ZEROFILL",\n', '')],
  cases=one("MySQL", "CREATE TABLE t (zerofill INT);")),
 dict(id="P15-digit-name", property="P15", needs="an unquoted name with a dollar sign",
  breaks="names outside the documented alphabet are accepted",
  edits=[(SQ, "`^[a-zA-Z_][a-zA-Z0-9_]*$`", "`^[a-zA-Z_][a-zA-Z0-9_$]*$`")],
  cases=one("SQLite", "CREATE TABLE t (a$ TEXT);")),
 dict(id="P16-validator-reuse", property="P16", needs="a failed MySQL call followed by a successful one in the same process",
  breaks="the outcome depends on earlier calls",
  edits=[(MY, '''	return &mysqlValidator{validator: validator{}}
''', '''	return sharedMySQL
'''), (MY, '''type mysqlValidator struct {
''', '''var sharedMySQL = &mysqlValidator{validator: validator{}}

type mysqlValidator struct {
'''), (V, '''	v.result = []string{}
''', '''	v.result = v.result[:0]
''')],
  race=True,
  demo='''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/kodaimura/ddlparse"
)

func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad <- fmt.Sprint(r)
				}
			}()
			for i := 0; i < 200; i++ {
				name := fmt.Sprintf("t%d_%d", g, i)
				ts, err := ddlparse.ParseMySQL("CREATE TABLE " + name + " (a INT);")
				if err != nil || len(ts) != 1 || ts[0].Name != name {
					bad <- name
					return
				}
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 {
		fmt.Println("wrong:", <-bad)
		os.Exit(1)
	}
}
'''),
 dict(id="P16-cache-by-text", property="P16", needs="the same text parsed with two dialects in one process",
  breaks="a memo of earlier calls answers for another dialect",
  edits=[(DP, '''	tokens, err := l.Lex(ddl)
	if err != nil {
		return []Table{}, err
	}
''', '''	tokens, cached := tokenCache[ddl]
	if !cached {
		var err error
		tokens, err = l.Lex(ddl)
		if err != nil {
			return []Table{}, err
		}
		if len(tokenCache) < 1 {
			tokenCache[ddl] = tokens
		}
	}
'''), (DP, '''func Parse(ddl string''', '''var tokenCache = map[string][]string{}

func Parse(ddl string''')],
  cases=one("MySQL", "CREATE TABLE t (a TEXT); # done") + one("SQLite", "CREATE TABLE t (a TEXT); # done")),
 dict(id="P17-big-integer", property="P17", needs="a numeric default beyond the 32-bit range",
  breaks="the value of large numeric defaults",
  edits=[(CV, '''		n, _ := strconv.ParseFloat(token, 64)
		return n
''', '''		n, _ := strconv.ParseFloat(token, 32)
		return n
''')],
  cases=one("SQLite", "CREATE TABLE t (a INTEGER DEFAULT 16777217);")),
 dict(id="P17-string-null", property="P17", needs="a string default whose content is NULL in any case",
  breaks="the string 'null' becomes no default",
  edits=[(CV, '''	if c.isStringValue(token) {
		return c.unquote(token)
	}
''', '''	if c.isStringValue(token) && strings.ToUpper(c.unquote(token)) == "NULL" {
		return nil
	}
	if c.isStringValue(token) {
		return c.unquote(token)
	}
''')],
  cases=one("MySQL", "CREATE TABLE t (a TEXT DEFAULT 'null');")),
]
