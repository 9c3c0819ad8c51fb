import json, os
V="internal/validator/validator.go"; VS="internal/validator/validator_sqlite.go"; VP="internal/validator/validator_postgresql.go"; VM="internal/validator/validator_mysql.go"
L="internal/lexer/lexer.go"; C="internal/converter/converter.go"; D="ddlparse.go"; U="internal/common/utils.go"; T="internal/types/types.go"; R="README.md"; E="internal/common/errors.go"
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"state the property quantifies over","where":"internal/lexer/lexer.go, internal/validator/validator.go, internal/converter/converter.go"}]
    a["observe_at"]=["return values of Parse, ParseSQLite, ParsePostgreSQL, ParseMySQL, ParseForce"]
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
P=[
p("P01","Every call returns: tables or a ValidateError, never a panic or a hang",
 "For every text (any byte string; bytes that are not UTF-8 count as replacement characters) and every dialect, Parse and its siblings return within time bounded by the size of the text; they never panic, exhaust the stack or memory, or loop. Exactly one of the two results is produced: either a list of tables with a nil error, or an empty list with a ValidateError whose line lies inside the text (1 .. number of newlines + 1) and whose near part is a token of the text or <EOF>.",
 ["inputs"],"every string (well formed, truncated at any character, corrupted at any character, deeply nested, very long), every dialect, every entry point",
 "The tests parse a handful of well-formed statements; truncations, unbalanced brackets, unterminated quotes and nesting depth form an unbounded space in which one missing end-of-input check is a crash or an endless loop.",
 [D,L,V,VS,VP,VM,C],[("lexer.lex / skipMultiLineComment / lexString*",L),("validator.next / validateBrackets / validateCreateOther",V),("converter.convertExpr / convertTableDefinition",C)],
 state="lexer position and mode, validator token index, converter token index"),
p("P02","Every DDL text of the documented grammar is accepted",
 "Every text that is generated by the grammar the README documents for a dialect (any sequence of CREATE TABLE statements with any combination and order of column types, column constraints, table constraints and table options of that dialect, each column constraint kind at most once per column, plus skippable CREATE statements of other kinds) is accepted by that dialect's parser. The final semicolon is optional for the last SQLite CREATE TABLE statement and required for PostgreSQL and MySQL.",
 ["inputs"],"every sentence of the per-dialect grammar, every alternative, option, order and repetition",
 "The grammar has hundreds of alternatives whose combinations and orders interact (an option consumed by the wrong clause, a lookahead that eats a token); tests sample a dozen sentences.",
 [R,VS,VP,VM],[("validateColumnType / validateColumnConstraintsAux / validateTableConstraint / validateTableOptions","per-dialect validators"),("validateCreateOther","per-dialect validators")]),
p("P03","A text outside the grammar is rejected and yields no tables",
 "A text that is not in the dialect's grammar is rejected with a ValidateError and no table of it is returned, even when a prefix of it, or every other statement in it, is correct. This includes missing, surplus, misspelt or misplaced tokens, a repeated column-constraint kind, unbalanced brackets, wrong operand kinds (a non-positive or non-numeric size, a name where a string is required), statement kinds the dialect does not have, and syntax that belongs to another dialect.",
 ["inputs"],"every text that differs from a sentence of the grammar by deleting, inserting, replacing, duplicating or swapping tokens, for every dialect",
 "Tests contain only accepted statements, so a check that is dropped or loosened anywhere in 3,000 lines of validators is invisible to them.",
 [VS,VP,VM,V,U,D],[("validateToken / syntaxError",V),("duplicate-constraint list in validateColumnConstraintsAux","per-dialect validators"),("validatePositiveInteger, validateLiteralValue, validateStringValue","per-dialect validators")]),
p("P04","A rejection names the first offending token and its line",
 "The ValidateError of a rejected text carries the first token (of the comment-free token sequence) at which no continuation of the grammar is possible (NOT NULL counting as one unit), spelled as in the text, and the 1-based line on which it stands (the line where it ends if it is quoted and spans lines); if the text ends too early the near part is <EOF> and the line is the last line. Newlines in blank lines, comments, quoted tokens and CRLF line endings all count; for a lexical error (unterminated quote or comment, stray */, character the dialect forbids) the error is located at that character or at <EOF>. The message of the error contains both the line and the near part.",
 ["inputs"],"every rejected text, every position and kind of error, every layout of newlines, comments and multi-line quoted tokens in front of it",
 "No test looks at an error's line or near part; line counting is spread over four token-consuming loops of the lexer and the validator, each of which must count every newline exactly once.",
 [L,V,VS,VP,VM,E],[("line counting in lexEOL / skipComment / skipMultiLineComment / lexString*",L),("validator.init / next / syntaxError",V)],
 state="lexer.line, validator.line, validator.i"),
p("P05","One table per CREATE TABLE, in order, under its declared name",
 "An accepted text yields exactly one Table per CREATE TABLE statement, in the order of the text, with Schema and Name as declared (quotes removed, Schema empty when there is none) and IfNotExists set exactly when IF NOT EXISTS is written. Other CREATE statements (views, triggers, indexes, functions ... including bodies with BEGIN ... END and embedded semicolons or CREATE TABLE text) contribute no table and do not disturb their neighbours.",
 ["inputs"],"every sequence of table and non-table statements, any number, any position, every naming form",
 "Tests use at most a few tables per text; loss, duplication or reordering depends on which statement kinds are adjacent and on what a skipped body contains.",
 [C,VS,VP,VM,T],[("convert / convertTable / convertTableName",C),("validateDdl / validateCreateOther / validateIfNotExists","per-dialect validators")]),
p("P06","Columns appear in order with exact name, type and size",
 "For every accepted table the Columns are exactly its column definitions in declaration order, each with its name (quotes removed, case kept), its data type name in upper case (PostgreSQL spellings normalised: BIT VARYING is VARBIT, CHARACTER VARYING is VARCHAR, DOUBLE PRECISION is DOUBLE, WITH/WITHOUT TIME ZONE dropped) and DigitN/DigitM equal to the written sizes, 0 when absent. Table constraints and index definitions between columns never add, drop, rename or merge a column.",
 ["inputs"],"every table with any number of columns, every data type of the dialect, every size, every interleaving with table-level definitions",
 "There are about 100 type names with different size rules and unboundedly many definition lists; tests use a few types in one order.",
 [C,VS,VP,VM,T],[("convertTableDefinition / convertColumnDefinition / convertDateType / convertTypeDigit",C),("validateColumnDefinitions / validateColumnType","per-dialect validators")]),
p("P07","A column carries exactly the constraints written on it, in any order",
 "For every accepted column, name, primary-key, unique, not-null, autoincrement, default (typed as in P17), check, collation and reference (table and columns) in its Constraint are exactly those written on that column, whatever their order and whatever other clauses stand between them; everything not written has its zero value. A check keeps its full bracketed expression text.",
 ["inputs"],"every subset and permutation of the dialect's column constraints with all their options, on any column of any table",
 "With up to 20 constraint kinds per column the orders are factorially many, and each clause may swallow or shadow its neighbour; tests fix one order.",
 [C,VS,VP,VM,T],[("convertConstraint / convertConstraintAux / convertReference / convertExpr",C),("validateColumnConstraint*","per-dialect validators")]),
p("P08","Table constraints are reported completely and exactly",
 "For every accepted table, the PrimaryKey, Unique, Check and ForeignKey lists hold exactly the table-level constraints written, each kind in order of appearance, with its constraint name (empty when unnamed), column names in order, expression text, and referenced table and columns. Elements that have no place in the result (MySQL INDEX/KEY/FULLTEXT/SPATIAL, PostgreSQL EXCLUDE, key-part lengths, sort orders and expressions, index names and options) leave no trace in any list or neighbour.",
 ["inputs"],"every list of table-level constraints, named or not, with all options, in any position relative to columns and dropped elements",
 "The converter re-parses a token stream from which the validator has already removed pieces; whether the pieces fit depends on combinations of adjacent elements that tests do not enumerate.",
 [C,VS,VP,VM,T],[("convertTableConstraint / convertCommaSeparatedColumnNames / convertReference",C),("validateTableConstraint* / validateIndexKeys / validateIndexOption","per-dialect validators")]),
p("P09","Clauses that are not modelled never change the result",
 "Adding, removing or reordering documented clauses that the result has no field for (conflict clauses, ASC/DESC, ON DELETE/UPDATE, MATCH, DEFERRABLE, NO INHERIT, ENFORCED, index parameters and options, generated-column and identity clauses, comments, storage and visibility attributes, ON UPDATE, TEMP, and all table options) leaves the parsed tables unchanged.",
 ["inputs"],"every table and every way of decorating it with unmodelled clauses and table options",
 "Neutrality is a relation between two texts and must hold for each of ~150 clauses at each position next to each possible neighbour.",
 [VS,VP,VM,C],[("set=false paths of matchTokenNext / validateToken / validateBrackets",V),("validateTableOptions, validateConflictClause, validateIndexParameters, validateIndexOption, validateConstraintReferencesAux, validateConstraintGenerated","per-dialect validators")]),
p("P10","Layout and comments are insignificant",
 "Replacing the separator between two tokens by any other non-empty mix of spaces, tabs, LF, CRLF, -- comments, /* */ comments (and # comments for MySQL), inserting such a mix between tokens that need no separator, or removing a separator next to ( ) , . ; = or a quote (where gluing does not itself form a comment mark, a doubled quote or a decimal point), changes neither acceptance nor the resulting tables nor the near part of an error. Comment text of any content (quotes, keywords, semicolons, comment openers) is inert.",
 ["inputs"],"every text, every token boundary, every whitespace or comment filler including at the very start and end of the text",
 "A relation over all pairs of equivalent layouts; tests use one house style of indentation and rarely a comment.",
 [L,V],[("lex / lexSpace / lexEOL / lexHyphen / lexSlash / lexSharp / skipComment / skipMultiLineComment / lexSymbol",L),("validator.next (skips newlines)",V)],
 state="lexer mode: code, line comment, block comment, quote"),
p("P11","Quoted tokens are opaque, verbatim and used in their dialect's role",
 "Whatever stands between matching quotes (keywords, comment openers, semicolons, brackets, newlines, other quotes, a doubled quote standing for one) is one token that never acts as syntax; a quoted identifier (\"...\" and `...` in SQLite, \"...\" in PostgreSQL, `...` in MySQL) is a valid name whatever its content and a string ('...', in MySQL also \"...\") is a value and never a name. Table, schema, column, constraint, collation and referenced-table names and string defaults are returned as the content with quotes removed; names in key column lists and text inside expressions are returned with their quotes.",
 ["inputs"],"every content of a quoted token, every quote style, every syntactic position, every dialect",
 "Content of quotes is an unbounded language and its interplay with comments, doubling and the three quote styles is where tokenizers break; tests quote plain words only.",
 [L,C,VS,VP,VM],[("lexStringSingleQuote / lexStringDoubleQuote / lexStringBackQuote",L),("isIdentifier / isStringValue / unquote / convertName",C),("isIdentifier / isStringValue / isValidName","per-dialect validators")]),
p("P12","Keywords are case-insensitive; names and literals keep their case",
 "Changing the letter case of any keyword or type name in a text, in any mixture, changes neither acceptance nor the result. Names, string literals and expression text are returned in exactly the case in which they are written, and no name is confused with another that differs in case.",
 ["inputs"],"every text and every assignment of letter case to its keyword letters",
 "2^n spellings per statement; tests write keywords in upper case throughout.",
 [V,C,VS,VP,VM],[("matchToken (ToUpper on both sides)",V),("converter.matchToken / convertDateType / convertLiteralValue",C),("duplicate lists keyed by upper case in validateColumnConstraintsAux","per-dialect validators")]),
p("P13","Statements are independent: parsing a concatenation concatenates results",
 "If texts a and b are accepted on their own and a ends with its semicolon, then a followed by b (in any layout) is accepted and its tables are the tables of a followed by the tables of b. If a is accepted and b is rejected, a followed by b is rejected with b's near part and b's line shifted by the newlines of a; tables already parsed are not returned.",
 ["inputs"],"every pair, and by induction every sequence, of statement texts",
 "A statement's effect must not depend on its predecessors, for all of them; tests parse statements nearly always in isolation.",
 [VS,VP,VM,C,D],[("validate / validateDdl / convert loops","per-dialect validators, converter.go"),("Parse",D)]),
p("P14","All entry points agree; ParseForce follows SQLite, PostgreSQL, MySQL",
 "ParseSQLite, ParsePostgreSQL and ParseMySQL return exactly what Parse returns for that dialect. ParseForce returns the result of the first dialect in the order SQLite, PostgreSQL, MySQL that accepts the text, and if none does it returns no tables and a ValidateError (that of the last dialect tried).",
 ["inputs"],"every text, in particular texts accepted by exactly one, two or three dialects and by none",
 "Which dialects accept a text, and whether their results differ, is a property of each input; tests call ParseForce on a few texts.",
 [D],[("Parse, ParseSQLite, ParsePostgreSQL, ParseMySQL, ParseForce",D)]),
p("P15","Which words are names is decided by each dialect's reserved list",
 "An unquoted name is accepted in every name position (table, schema, column, constraint, referenced table, key column, collation, tablespace, index name) exactly when it has the form [A-Za-z_][A-Za-z0-9_]* and is not, in any letter case, a reserved word of the chosen dialect; the same word in identifier quotes is always accepted. No dialect is affected by another dialect's list.",
 ["inputs"],"every word, all reserved words of all dialects, every name position, every letter case",
 "About 1,000 reserved words times positions times dialects; a missing or surplus entry affects one word only.",
 [VS,VP,VM],[("isValidName and ReservedWords_SQLite / ReservedWords_PostgreSQL / ReservedWords_MySQL","per-dialect validators")]),
p("P16","A call depends only on its arguments: history, order and concurrency free",
 "The result of a call is the same whatever calls (accepted or rejected, same or other dialects) were made before it and whatever calls run concurrently with it, and results already returned never change afterwards. Concurrent calls are free of data races.",
 ["schedules","histories","inputs"],"every history of calls, every interleaving of concurrent calls from several goroutines, every assignment of texts and dialects to them",
 "Shared mutable state (a cached validator, a reused buffer or backing array, a package-level regexp or list that is modified) shows only under particular histories or interleavings; tests call sequentially with fresh inputs.",
 [D,L,V,C,VS,VP,VM],[("Parse allocates lexer, validator and converter per call",D),("package-level reserved-word and type lists, regexps are read-only","validators, lexer.go, utils.go")],
 state="lexer, validator and converter objects, package variables"),
p("P17","Default values are typed and exact",
 "The Default of an accepted column is: the float64 nearest to the written decimal number, whatever its number of digits; the content of a string literal; true/false for TRUE/FALSE; nil for NULL or when no default is written; the keyword as written for CURRENT_TIME/CURRENT_DATE/CURRENT_TIMESTAMP; and for (expr) the bracketed text with its tokens in order, adjacent words kept apart by one space. Exactly the literals [+-]digits[.digits][e[+-]digits] count as numbers; a string that looks like a number or keyword stays a string.",
 ["inputs"],"every literal and every bracketed expression in every dialect, next to any other constraint",
 "Literals and expressions are unbounded languages; tests use two or three defaults.",
 [C,U,VS,VP,VM,L],[("convertDefaultValue / convertLiteralValue / convertExpr",C),("IsNumericToken",U),("validateLiteralValue / validateConstraintDefault","per-dialect validators"),("isDecimalPoint",L)]),
p("P18","The JSON form of a result is the documented one and loses nothing",
 "For every accepted text, json.Marshal of the returned tables succeeds and gives exactly the documented objects: every documented field name is present in every object (whatever its value, also when empty, false or zero), no other name is, and each holds the value of its field (an empty list may be [] or null; a default is null, boolean, number or string according to its kind). Decoding that JSON into []Table gives tables equal to the originals.",
 ["inputs"],"every accepted text: every value of every field, in particular zero values, empty lists, unusual characters and large or tiny numbers",
 "A field that is renamed, omitted when empty, typed differently or encoded lossily shows only for results in which it matters; the tests compare the JSON of a few dozen results.",
 [T,C],[("Table, Column, DataType, Constraint, Reference, TableConstraint, PrimaryKey, Unique, Check, ForeignKey and their json tags",T),("convertDefaultValue (dynamic type of Default)",C)]),
p("P19","Only syntax is checked: names and values carry no meaning",
 "Whether a text is accepted, and what is returned for it, never depends on what its names mean or on whether they fit together. Replacing the names in an accepted text (tables, schemas, columns, constraints, key columns, referenced tables and columns) by any other names that are not keywords of the dialect leaves it accepted and changes the result only in those names, at their places: repeated tables, columns or constraint names, keys over undeclared or repeated columns, several primary keys, references to absent tables or with a different number of columns, and defaults that do not fit their type are all accepted and returned exactly as written, nothing merged, dropped or completed.",
 ["inputs"],"every accepted text and every assignment of names to its name positions, coinciding ones included",
 "A check or a map keyed by name that sneaks in shows only when two names coincide, differ in case only, or refer to something absent; tests use sensible schemas with distinct names throughout.",
 [R,C,V,VS,VP,VM],[("append-only construction of columns and constraint lists",C),("validateName, validateColumnName, validateTableName","per-dialect validators"),("README: errors other than syntax errors are not detected",R)]),
]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
