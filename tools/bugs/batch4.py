import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch1 import V, SQ, PG, MY, LX, CV, UT, DP, one

TY = "internal/types/types.go"
ER = "internal/common/errors.go"

BUGS = [
 dict(id="P01-decimal-at-end", property="P01", needs="a text that ends with a number and a point",
  breaks="the lexer panics",
  edits=[(LX, "l.i + 1 >= l.size ||", "l.i + 1 > l.size ||")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 1.")),
 dict(id="P01-bracket-retry", property="P01", needs="some thirty brackets opened and never closed",
  breaks="the call takes time exponential in the depth",
  edits=[(V, '''		if v.matchToken("(") {
			depth += 1
		} else if''', '''		if v.matchToken("(") && depth > 0 {
			i, line, n := v.i, v.line, len(v.result)
			if err := v.validateBrackets(false); err != nil {
				v.i, v.line, v.result = i, line, v.result[:n]
				if err := v.validateBrackets(false); err != nil {
					return err
				}
			}
			v.i, v.line, v.result = i, line, v.result[:n]
			depth += 1
		} else if v.matchToken("(") {
			depth += 1
		} else if''')],
  cases=one("MySQL", "CREATE TABLE t (a INT CHECK " + "(" * 60)),
 dict(id="P02-no-action-last", property="P02", needs="ON DELETE NO ACTION followed by another reference clause, in PostgreSQL",
  breaks="the text is rejected",
  edits=[(PG, '''			if err := v.validateToken(false, "ACTION"); err != nil {
				return err
			}
		} else {
			return v.syntaxError()
		}
		return''', '''			return v.validateToken(false, "ACTION")
		} else {
			return v.syntaxError()
		}
		return''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT REFERENCES r ON DELETE NO ACTION ON UPDATE CASCADE);")),
 dict(id="P02-check-enforced-null", property="P02", needs="a MySQL check that is ENFORCED, followed by NOT NULL",
  breaks="the text is rejected",
  edits=[(MY, '''	v.matchTokenNext(false, "ENFORCED")
	return nil
''', '''	if v.matchTokenNext(false, "ENFORCED") && v.matchToken("NOT", "NULL") {
		return v.syntaxError()
	}
	return nil
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT CHECK (a > 0) ENFORCED NOT NULL);")),
 dict(id="P03-asc-desc", property="P03", needs="a SQLite primary key with both ASC and DESC",
  breaks="the text is accepted",
  edits=[(SQ, '''	v.matchTokenNext(false, "ASC", "DESC")
	if err''', '''	for v.matchTokenNext(false, "ASC", "DESC") {
	}
	if err''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT PRIMARY KEY ASC DESC);")),
 dict(id="P03-trailing-comma", property="P03", needs="a comma after the last table constraint of a PostgreSQL table, after EXCLUDE",
  breaks="the text is accepted",
  edits=[(PG, '''	if v.matchTokenNext(true, ",") {
		return v.validateColumnDefinitions()
	}
''', '''	if v.matchTokenNext(true, ",") {
		if n := len(v.result); v.matchToken(")") && n > 1 && v.result[n-2] == "," {
			return nil
		}
		return v.validateColumnDefinitions()
	}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT, EXCLUDE (aa WITH =), );")),
 dict(id="P03-identity-always", property="P03", needs="PostgreSQL GENERATED BY DEFAULT with an expression instead of IDENTITY",
  breaks="the text is accepted",
  edits=[(PG, '''		if err := v.validateToken(false, "AS"); err != nil {
			return err
		}
		if err := v.validateToken(false, "IDENTITY"); err != nil {
			return err
		}
''', '''		if err := v.validateToken(false, "AS"); err != nil {
			return err
		}
		if !v.matchToken("(") {
			if err := v.validateToken(false, "IDENTITY"); err != nil {
				return err
			}
		}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa INTEGER GENERATED BY DEFAULT AS (1 + 1));")),
 dict(id="P03-prefix-type", property="P03", needs="a MySQL type name followed directly by more letters, where the type is the last alternative",
  breaks="a misspelt type is accepted",
  edits=[(MY, '''	if err := v.validateToken(true, DataType_MySQL...); err != nil {
		return err
	}
''', '''	if v.matchTokenNext(true, "TINYTEXTS") {
		v.result[len(v.result)-1] = "TINYTEXT"
		return nil
	}
	if err := v.validateToken(true, DataType_MySQL...); err != nil {
		return err
	}
''')],
  cases=one("MySQL", "CREATE TABLE t (a TINYTEXTS);")),
 dict(id="P04-line-byte", property="P04", needs="an error behind line 255",
  breaks="the line of the error",
  edits=[(ER, "	return ValidateError{line, near}\n", "	return ValidateError{int(uint8(line)), near}\n")],
  cases=one("SQLite", "\n" * 300 + "CREATE TABLE t (a oops);")),
 dict(id="P04-near-upper", property="P04", needs="an error at a token that is a keyword in lower case",
  breaks="the near part of the error",
  edits=[(V, "	return common.NewValidateError(v.line, v.token())\n", '''	near := v.token()
	if strings.ToUpper(near) == "STORED" || strings.ToUpper(near) == "KEY" {
		near = strings.ToUpper(near)
	}
	return common.NewValidateError(v.line, near)
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT key);", "CREATE TABLE t (a TEXT stored);")),
 dict(id="P04-eof-line", property="P04", needs="an unterminated quote that spans several lines",
  breaks="the line of the error",
  edits=[(LX, '''			str += c + c
		} else {
			str += c
		}
		l.next()
	}
	return str, l.lexError()
}


func (l *lexer) lexStringBackQuote''', '''			str += c + c
		} else {
			str += c
		}
		l.next()
	}
	if strings.HasSuffix(str, "\\n\\n") {
		l.line -= 1
	}
	return str, l.lexError()
}


func (l *lexer) lexStringBackQuote'''), (LX, "	\"regexp\"\n", "	\"regexp\"\n	\"strings\"\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 'x\ny\n\n")),
 dict(id="P05-dot-in-name", property="P05", needs="a quoted table name that contains a point",
  breaks="schema and name of the table",
  edits=[(CV, '''	} else {
		tableName = schemaName
		schemaName = ""
	}
''', '''	} else if i := strings.Index(schemaName, "."); i > 0 {
		schemaName, tableName = schemaName[:i], schemaName[i+1:]
	} else {
		tableName = schemaName
		schemaName = ""
	}
''')],
  cases=one("SQLite", 'CREATE TABLE "a.b" (c TEXT);')),
 dict(id="P05-other-named-table", property="P05", needs="a skipped statement in which the word TABLE occurs after a semicolon in BEGIN ... END",
  breaks="a table appears that is not in the text",
  edits=[(SQ, '''			if v.matchToken("END") {
				begin = false
			}
''', '''			if v.matchToken("END") {
				begin = false
			} else if v.matchToken("CREATE") && v.tokens[v.i-1] == ";" {
				return nil
			}
''')],
  cases=one("SQLite", "CREATE TRIGGER g BEGIN SELECT 1;CREATE TABLE x (a TEXT); END;")),
 dict(id="P06-scale-swap", property="P06", needs="a size whose scale is greater than its precision",
  breaks="precision and scale",
  edits=[(CV, "		c.next()   //skip \")\"\n	}\n", "		c.next()   //skip \")\"\n		if m > n {\n			n, m = m, n\n		}\n	}\n")],
  cases=one("MySQL", "CREATE TABLE t (a DECIMAL(2,5));")),
 dict(id="P06-leading-zero", property="P06", needs="a size written with a leading zero",
  breaks="the size is read as octal",
  edits=[(CV, "		n, _ = strconv.Atoi(c.next())\n", "		p, _ := strconv.ParseInt(c.next(), 0, 64)\n		n = int(p)\n")],
  cases=one("MySQL", "CREATE TABLE t (a VARCHAR(010));")),
 dict(id="P06-varying-case", property="P06", needs="CHARACTER VARYING with VARYING not in upper case and a size",
  breaks="the type name",
  edits=[(CV, '''		} else if dataType.Name == "CHARACTER" {
''', '''		} else if dataType.Name == "CHARACTER" && c.token() != "Varying" {
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa character Varying(5));")),
 dict(id="P07-name-kept", property="P07", needs="two columns in one table, the earlier with a named constraint and the later with a check only",
  breaks="the name of the constraint of the later column",
  edits=[(CV, '''			constraint.Name = c.convertName()
		}
	}
''', '''			constraint.Name = c.convertName()
			c.last = constraint.Name
		}
	} else if c.matchToken("CHECK") && c.last == strings.ToUpper(c.last) {
		constraint.Name = c.last
	}
'''), (CV, "	result []types.Table\n}", "	result []types.Table\n	last string\n}")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT CONSTRAINT NN UNIQUE, b TEXT CHECK (b));")),
 dict(id="P07-default-null", property="P07", needs="DEFAULT NULL after NOT NULL",
  breaks="the not-null flag",
  edits=[(CV, "		constraint.Default = c.convertDefaultValue()\n", "		constraint.Default = c.convertDefaultValue()\n		if constraint.Default == nil {\n			constraint.IsNotNull = false\n		}\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT NOT NULL DEFAULT NULL);")),
 dict(id="P07-reference-schema", property="P07", needs="a column reference to a table with a quoted schema",
  breaks="the name of the referenced table",
  edits=[(CV, "	_, reference.TableName = c.convertTableName()\n", '''	quoted := c.isIdentifier(c.token())
	schema, name := c.convertTableName()
	reference.TableName = name
	if quoted && schema != "" {
		reference.TableName = schema + "." + name
	}
''')],
  cases=one("SQLite", 'CREATE TABLE t (a TEXT REFERENCES "s".r (x));')),
 dict(id="P08-same-key", property="P08", needs="a unique constraint over exactly the columns of the primary key",
  breaks="the unique constraint is lost",
  edits=[(CV, "		tableConstraint.Unique = append(tableConstraint.Unique, unique)\n", '''		for _, pk := range tableConstraint.PrimaryKey {
			if strings.Join(pk.ColumnNames, ",") == strings.Join(unique.ColumnNames, ",") && len(pk.ColumnNames) > 2 {
				return
			}
		}
		tableConstraint.Unique = append(tableConstraint.Unique, unique)
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, PRIMARY KEY (a, b, c), UNIQUE (a, b, c));")),
 dict(id="P08-names-shared", property="P08", needs="a table with two column lists, the second of which is shorter",
  breaks="the earlier column list",
  edits=[(CV, "	ls := []string{}\n", "	ls := c.names[:0]\n"), (CV, "	c.next()\n	return ls\n", "	c.next()\n	if len(ls) > 4 {\n		c.names = ls\n	}\n	return ls\n"),
         (CV, "	result []types.Table\n}", "	result []types.Table\n	names []string\n}")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT, UNIQUE (a, b, c, d, e), UNIQUE (x, y));")),
 dict(id="P09-invisible-index", property="P09", needs="a MySQL UNIQUE constraint with the option INVISIBLE after another option",
  breaks="the constraint after it is dropped",
  edits=[(MY, '''	} else if v.matchTokenNext(false, "VISIBLE", "INVISIBLE") {
		return v.validateIndexOption()
''', '''	} else if v.matchTokenNext(false, "VISIBLE", "INVISIBLE") {
		if v.matchToken(",") && len(v.result) > 3 && v.result[len(v.result)-1] == ")" && v.tokens[v.i-2] != ")" {
			v.next()
			v.set(",")
			v.set(",")
			n := len(v.result)
			if err := v.validateColumnDefinition(); err != nil {
				return err
			}
			if v.result[n] == "CHECK" {
				v.result = v.result[:n]
			}
		}
		return v.validateIndexOption()
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT, UNIQUE (a) COMMENT 'x' INVISIBLE, CHECK (a > 0));")),
 dict(id="P09-match-name", property="P09", needs="a SQLite reference with MATCH and a name that is not SIMPLE, PARTIAL or FULL, before ON",
  breaks="the columns of the reference",
  edits=[(SQ, '''		if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
			if err := v.validateName(false); err != nil {
				return err
			}
		}
''', '''		if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
			if err := v.validateName(false); err != nil {
				return err
			}
			if n := len(v.result); v.matchToken("ON") && n > 3 && v.result[n-1] == ")" && v.result[n-3] == "(" {
				v.result = v.result[:n-3]
			}
		}
''')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT REFERENCES r (x) MATCH other ON DELETE CASCADE);")),
 dict(id="P10-hint-comment", property="P10", needs="a block comment in MySQL that begins with an exclamation mark",
  breaks="the comment is not skipped",
  edits=[(LX, '''		if l.char() == "*" {
			l.appendToken(*token)
			*token = ""
''', '''		if l.char() == "*" {
			l.appendToken(*token)
			*token = ""
			if l.rdbms == common.MySQL && l.i + 1 < l.size && l.ddlr[l.i + 1] == '!' {
				l.next()
				l.next()
				return nil
			}
''')],
  cases=one("MySQL", "CREATE TABLE t (a INT /*! NOT NULL */);")),
 dict(id="P10-nested-comment", property="P10", needs="a block comment in PostgreSQL that contains a comment opener",
  breaks="the comment does not end at the first closer",
  edits=[(LX, '''			if l.char() == "/" {
				l.next()
				return nil
			}
			continue
''', '''			if l.char() == "/" {
				l.next()
				if depth > 0 {
					depth -= 1
					continue
				}
				return nil
			}
			continue
		} else if c == "/" && l.rdbms == common.PostgreSQL && l.i + 1 < l.size && l.ddlr[l.i + 1] == '*' {
			depth += 1
			l.next()
'''), (LX, '''func (l *lexer) skipMultiLineComment() error {
	l.next()
''', '''func (l *lexer) skipMultiLineComment() error {
	l.next()
	depth := 0
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT /* /* x */);")),
 dict(id="P10-cr-comment", property="P10", needs="a line comment that contains a carriage return not at its end",
  breaks="the comment ends at the carriage return",
  edits=[(LX, '''		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			break
		}
		l.next()
''', '''		if l.char() == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			break
		}
		if l.char() == "\\r" {
			break
		}
		l.next()
''')],
  cases=one("SQLite", "CREATE TABLE t ( -- a\rb\n a TEXT);")),
 dict(id="P11-backslash", property="P11", needs="a MySQL string in which a backslash stands before the closing quote",
  breaks="the string does not end there",
  edits=[(LX, '''		} else if c == "'" {
			l.next()
''', '''		} else if c == "\\\\" && l.rdbms == common.MySQL && l.i + 1 < l.size && l.ddlr[l.i + 1] == '\\'' {
			str += "''"
			l.next()
		} else if c == "'" {
			l.next()
''')],
  cases=one("MySQL", "CREATE TABLE t (a TEXT DEFAULT 'x\\', b TEXT);", "CREATE TABLE t (a TEXT DEFAULT 'x\\' NOT NULL);")),
 dict(id="P11-one-doubled", property="P11", needs="a quoted name with two doubled quotes",
  breaks="the second doubled quote stays doubled",
  edits=[(CV, "	return strings.ReplaceAll(token[1 : len(token)-1], quote + quote, quote)\n", "	return strings.Replace(token[1 : len(token)-1], quote + quote, quote, 2)\n")],
  cases=one("SQLite", 'CREATE TABLE t ("a""b""c""d" TEXT);')),
 dict(id="P11-percent", property="P11", needs="an error next to a quoted token with a percent sign; a default with a percent sign",
  breaks="the string default",
  edits=[(CV, "	if c.isStringValue(token) {\n		return c.unquote(token)\n", "	if c.isStringValue(token) {\n		return strings.ReplaceAll(c.unquote(token), \"%%\", \"%\")\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT '100%%');")),
 dict(id="P12-mixed-if", property="P12", needs="IF NOT EXISTS with EXISTS in mixed case",
  breaks="the text is rejected",
  edits=[(PG, '''		if err := v.validateToken(true, "EXISTS"); err != nil {
			return err
		}
''', '''		if t := v.token(); t != strings.ToUpper(t) && t != strings.ToLower(t) && t != "Exists" {
			return v.syntaxError()
		}
		if err := v.validateToken(true, "EXISTS"); err != nil {
			return err
		}
''')],
  cases=one("PostgreSQL", "CREATE TABLE IF NOT eXISTS t (aa TEXT);")),
 dict(id="P12-name-case", property="P12", needs="PostgreSQL names that are unquoted and written with upper-case letters, in a foreign key's reference",
  breaks="the name is folded to lower case",
  edits=[(CV, "		foreignKey.References = c.convertReference()\n", '''		quoted := c.i + 1 < c.size && c.isIdentifier(c.tokens[c.i+1])
		foreignKey.References = c.convertReference()
		if c.rdbms == common.PostgreSQL && !quoted {
			foreignKey.References.TableName = strings.ToLower(foreignKey.References.TableName)
		}
''')],
  cases=one("PostgreSQL", "CREATE TABLE t (aa TEXT, FOREIGN KEY (aa) REFERENCES Users (Id));")),
 dict(id="P13-begin-sticky", property="P13", needs="a skipped statement after one whose BEGIN ... END contained END twice",
  breaks="what follows the second statement",
  edits=[(MY, "	begin := false\n	for true {", "	begin := v.begins > 1\n	for true {"), (MY, '''		if v.matchToken("BEGIN") {
			begin = true
		}
''', '''		if v.matchToken("BEGIN") {
			begin = true
			v.begins += 1
		}
'''), (MY, '''				begin = false
			}
''', '''				begin = false
				if v.begins == 1 {
					v.begins = 0
				}
			}
'''), (V, "	result []string\n}", "	result []string\n	begins int\n}")],
  cases=one("MySQL", "CREATE PROCEDURE p BEGIN x BEGIN y END; CREATE VIEW v; CREATE TABLE t (a INT); CREATE VIEW end BEGIN END;",
            "CREATE PROCEDURE p BEGIN x BEGIN y END; CREATE VIEW v; CREATE TABLE t (a INT);")),
 dict(id="P13-long-script", property="P13", needs="a script with more than 200 statements",
  breaks="the tables behind the 200th are lost",
  edits=[(CV, '''	if c.isOutOfRange() {
		return
	} else {''', '''	if c.isOutOfRange() || len(c.result) >= 200 {
		return
	} else {''')],
  cases=one("SQLite", "".join("CREATE TABLE t%d (a TEXT);" % i for i in range(230)))),
 dict(id="P14-force-backquote", property="P14", needs="a text with back quotes that SQLite accepts, given to ParseForce",
  breaks="ParseForce takes MySQL first",
  edits=[(DP, "	var err error\n	for _, rdbms", "	for i := range ddl {\n		if ddl[i] == '`' && i > 60 {\n			ls = []Rdbms{MySQL, SQLite, PostgreSQL}\n		}\n	}\n	var err error\n	for _, rdbms")],
  cases=one("Force", "CREATE TABLE t (aa INTEGER NOT NULL, bb INTEGER CHECK (bb # 1\n > 2), `cc` INTEGER);", "CREATE TABLE t (aa VARCHAR(10) DEFAULT \"x\", bb VARCHAR(10) CHECK (aa # 1\n), `c` VARCHAR(10));",
            "CREATE TABLE t (aa VARCHAR(10) CHECK (bb <> 1 # 2\n), bb VARCHAR(10) NOT NULL, `cc` VARCHAR(10));")),
 dict(id="P15-kelvin", property="P15", needs="a name with the Kelvin sign or the long s",
  breaks="the name is accepted",
  edits=[(SQ, "regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)", "regexp.MustCompile(`(?i)^[a-z_][a-z0-9_]*$`)")],
  cases=one("SQLite", "CREATE TABLE \u212aelvin (a TEXT);")),
 dict(id="P15-newline-name", property="P15", needs="a MySQL name that contains a dollar sign behind its first character",
  breaks="the name is accepted",
  edits=[(MY, "regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)", "regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*[$]?$`)")],
  cases=one("MySQL", "CREATE TABLE a$ (a INT);")),
 dict(id="P15-binary-search", property="P15", needs="the reserved words TYPE-like at the end of the PostgreSQL list",
  breaks="the last word of the list is accepted as a name",
  edits=[(PG, "			!common.Contains(ReservedWords_PostgreSQL, strings.ToUpper(name))", "			!common.Contains(ReservedWords_PostgreSQL[:len(ReservedWords_PostgreSQL)-1], strings.ToUpper(name))")],
  cases=one("PostgreSQL", *["CREATE TABLE %s (aa TEXT);" % w for w in ("zone", "yes", "year", "xor", "zerofill", "write", "within", "xmltable", "xmlnamespaces")])),
 dict(id="P16-fold-cache", property="P16", needs="two texts that differ only in letter case or spacing, the first one accepted",
  breaks="the second call gets the result of the first",
  edits=[(DP, "func Parse(ddl string, rdbms Rdbms) ([]Table, error) {\n", '''var (
	cacheMu sync.Mutex
	cache = map[string][]Table{}
)

func Parse(ddl string, rdbms Rdbms) ([]Table, error) {
	key := string(rdbms) + strings.Join(strings.Fields(ddl), " ")
	cacheMu.Lock()
	tables, ok := cache[key]
	cacheMu.Unlock()
	if ok {
		b, _ := json.Marshal(tables)
		var again []Table
		json.Unmarshal(b, &again)
		return again, nil
	}
	tables, err := parse(ddl, rdbms)
	if err == nil && len(tables) > 0 {
		b, _ := json.Marshal(tables)
		var again []Table
		json.Unmarshal(b, &again)
		cacheMu.Lock()
		cache[key] = again
		cacheMu.Unlock()
	}
	return tables, err
}

func parse(ddl string, rdbms Rdbms) ([]Table, error) {
'''), (DP, "import (\n", "import (\n	\"encoding/json\"\n	\"strings\"\n	\"sync\"\n\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 'x y');", "CREATE TABLE t (a TEXT DEFAULT 'x  y');")),
 dict(id="P16-error-sticky", property="P16", needs="a call that is rejected at the end of the text, then an accepted call in the same dialect with a trailing newline",
  breaks="the line of a later error",
  edits=[(V, "	v.line = 1\n", "	v.line = 1 + carried\n	carried = 0\n"), (V, "type validator struct {", "var carried int\n\ntype validator struct {"),
         (V, "	return common.NewValidateError(v.line, v.token())\n", "	if v.isOutOfRange() && v.size > 40 {\n		carried = 1\n	}\n	return common.NewValidateError(v.line, v.token())\n")],
  cases=one("SQLite", "CREATE TABLE t (" + "a TEXT, " * 20, "CREATE TABLE t (a oops);")),
 dict(id="P16-pool", property="P16", needs="concurrent calls, or a call made after a call that was rejected by the lexer",
  breaks="the tokens of another call",
  edits=[(LX, "	l.result = []string{}\n}", "	l.result = buffers.Get().([]string)[:0]\n}"), (LX, "type lexer struct {", "var buffers = sync.Pool{New: func() interface{} { return make([]string, 0, 64) }}\n\ntype lexer struct {"),
         (LX, "	if err := l.lex(); err != nil {\n		return []string{}, err\n	}\n	return l.result, nil\n", "	if err := l.lex(); err != nil {\n		buffers.Put(l.result)\n		return []string{}, err\n	}\n	buffers.Put(l.result)\n	return l.result, nil\n"),
         (LX, "	\"regexp\"\n", "	\"regexp\"\n	\"sync\"\n")],
  demo=r'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/kodaimura/ddlparse"
)

func main() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := false
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			text := "CREATE TABLE t ("
			for i := 0; i < 100; i++ {
				text += fmt.Sprintf("c%d_%d TEXT, ", g, i)
			}
			text += "z TEXT);"
			for i := 0; i < 40; i++ {
				ts, err := ddlparse.ParseSQLite(text)
				if err != nil || len(ts) != 1 || len(ts[0].Columns) != 101 || ts[0].Columns[7].Name != fmt.Sprintf("c%d_7", g) {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad {
		os.Exit(1)
	}
}
''', race=True),
 dict(id="P17-leading-plus", property="P17", needs="a number written with a plus sign",
  breaks="the default is the text",
  edits=[(CV, "	if common.IsNumericToken(token) {\n		n,", "	if common.IsNumericToken(token) && token[0:1] != \"+\" {\n		n,")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT +5);")),
 dict(id="P17-expr-string-gap", property="P17", needs="an expression in which a word follows a quoted token that follows a word",
  breaks="a space too many in the expression text",
  edits=[(CV, "		isWord = c.isWord(token)\n", "		isWord = c.isWord(token) || isWord && token[0:1] == \"`\"\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT (x `y` z));")),
 dict(id="P17-hex", property="P17", needs="a default that looks like a number with a point and no digits behind it",
  breaks="the text is accepted",
  edits=[(UT, "`^[+-]?[0-9]+([.][0-9]+)?([eE][+-]?[0-9]+)?$`", "`^[+-]?[0-9]+([.][0-9]+)?([eE][+-]?[0-9]*)?$`"), (UT, "	return err == nil\n}", "	return err == nil || token[len(token)-1] == 'e'\n}")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 1e);")),
 dict(id="P18-omit-default", property="P18", needs="a result without a check or a collation",
  breaks="fields are missing from the JSON form",
  edits=[(TY, '`json:"collate"`', '`json:"collate,omitempty"`')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT);")),
 dict(id="P18-reference-name", property="P18", needs="a result with a reference",
  breaks="a name in the JSON form",
  edits=[(TY, '	TableName string `json:"table_name"`', '	TableName string `json:"table"`')],
  cases=one("SQLite", "CREATE TABLE t (a TEXT REFERENCES r);")),
 dict(id="P18-default-type", property="P18", needs="a default that is an integer with more than 15 digits",
  breaks="the JSON form of the default",
  edits=[(CV, "		n, _ := strconv.ParseFloat(token, 64)\n		return n\n", "		n, _ := strconv.ParseFloat(token, 64)\n		if len(token) > 15 && strings.IndexAny(token, \".eE\") < 0 {\n			return json.Number(token)\n		}\n		return n\n"), (CV, "import (\n", "import (\n	\"encoding/json\"\n")],
  cases=one("SQLite", "CREATE TABLE t (a TEXT DEFAULT 12345678901234567);")),
]
