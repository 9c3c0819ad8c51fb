------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The grammars of the three dialects as data.                             *)
(*                                                                         *)
(* A grammar maps nonterminals to alternatives.  An alternative is chosen  *)
(* by the current token: its key is in w, or its class is in c; with x,    *)
(* only if the key of the token after it is not in x.  Alternatives are    *)
(* tried in order; if none applies the text is wrong at the current token. *)
(* r is the sequence of symbols the alternative stands for:                *)
(*                                                                         *)
(*   kw     one token with a key in w                                      *)
(*   name   an unquoted non-reserved word or a quoted identifier           *)
(*   str    a string literal        pos   a positive integer               *)
(*   lit    a literal value         par   a balanced ( ... ) group;        *)
(*                                        keep: its text is kept           *)
(*   skip   everything up to the end of the statement                      *)
(*   alts   a choice                nt    a nonterminal                    *)
(*   tag    a column constraint kind; at most once per column              *)
(*   do     a semantic action (module Parser)                              *)
(***************************************************************************)
EXTENDS Words, Naturals, Sequences

K(ws)    == [ k |-> "kw", w |-> ws ]
Name     == [ k |-> "name" ]
Str      == [ k |-> "str" ]
Pos      == [ k |-> "pos" ]
Lit      == [ k |-> "lit" ]
Par(keep) == [ k |-> "par", keep |-> keep ]
Skip     == [ k |-> "skip" ]
Alts(as) == [ k |-> "alts", a |-> as ]
NT(x)    == [ k |-> "nt", n |-> x ]
Tag(x)   == [ k |-> "tag", n |-> x ]
Do(x)    == [ k |-> "do", n |-> x ]

On(ws, r)      == [ w |-> ws, c |-> {}, x |-> {}, r |-> r ]
OnX(ws, xs, r) == [ w |-> ws, c |-> {}, x |-> xs, r |-> r ]
OnClass(c, r)  == [ w |-> {}, c |-> {c}, x |-> {}, r |-> r ]
Else(r)        == [ w |-> {}, c |-> {"any"}, x |-> {}, r |-> r ]

Opt(ws, r)  == Alts(<< On(ws, r), Else(<<>>) >>)
OptK(ws)    == Opt(ws, << K(ws) >>)
W(w)        == K({w})

-----------------------------------------------------------------------------
(* Pieces shared by the dialects *)

TableNameSyms ==
  << Name, Do("tname"), Opt({"."}, << W("."), Name, Do("tschema") >>) >>

RefTableSyms(act) ==
  << Name, Do(act), Opt({"."}, << W("."), Name, Do(act) >>) >>

NameList(act) == << Do("names0"), NT("names") >>

NamesAlts == << Else(<< Name, Do("nameadd"), Opt({","}, << W(","), NT("names") >>) >>) >>

IfNotExists ==
  Opt({"IF"}, << W("IF"), W("NOT"), W("EXISTS"), Do("ifnotexists") >>)

CreateTable(options, finish) ==
  << W("TABLE"), Do("table"), IfNotExists >> \o TableNameSyms \o
  << W("("), NT("defs"), W(")") >> \o options \o finish \o << Do("tabend") >>

DefsAlts == << Else(<< NT("def"), Opt({","}, << W(","), NT("defs") >>) >>) >>

SizeN == Opt({"("}, << W("("), Pos, Do("sizeN"), W(")") >>)
SizePS == Opt({"("}, << W("("), Pos, Do("sizeN"),
                        Opt({","}, << W(","), Pos, Do("sizeM") >>), W(")") >>)
SizeIgnored == Opt({"("}, << W("("), Pos, W(")") >>)

RefAction ==
  << W("ON"), K({"DELETE", "UPDATE"}),
     Alts(<< On({"SET"}, << W("SET"), K({"NULL", "DEFAULT"}) >>),
             On({"CASCADE", "RESTRICT"}, << K({"CASCADE", "RESTRICT"}) >>),
             Else(<< W("NO"), W("ACTION") >>) >>) >>

MatchKinds == {"SIMPLE", "PARTIAL", "FULL"}

ColReferences ==
  << W("REFERENCES") >> \o RefTableSyms("reft") \o
  << Opt({"("}, << W("("), Do("names0"), Name, Do("nameadd"), W(")"), Do("refcols") >>),
     NT("refopts") >>

ColDefault(litTail) ==
  << W("DEFAULT"),
     Alts(<< On({"("}, << Par(TRUE), Do("defexpr") >>),
             Else(<< Lit, Do("deflit") >> \o litTail) >>) >>

ColConName == Opt({"CONSTRAINT"}, << W("CONSTRAINT"), Name, Do("cname") >>)

Column == << Name, Do("column"), NT("type"), NT("colcons0"), Do("colend") >>

ForeignKey(idxname, refcols) ==
  << W("FOREIGN"), W("KEY") >> \o idxname \o
  << W("("), Do("names0"), NT("names"), W(")"), Do("fkcols"), W("REFERENCES") >> \o
  RefTableSyms("fkt") \o << refcols, NT("refopts"), Do("tfk") >>

RefColsOpt == Opt({"("}, << W("("), Do("names0"), NT("names"), W(")"), Do("fkrefs") >>)

KeyCols == << W("("), Do("names0"), NT("names"), W(")") >>

-----------------------------------------------------------------------------
(* SQLite *)

Conflict ==
  Opt({"ON"}, << W("ON"), W("CONFLICT"),
                 K({"ROLLBACK", "ABORT", "FAIL", "IGNORE", "REPLACE"}) >>)

DeferTail == << W("DEFERRABLE"),
                Opt({"INITIALLY"}, << W("INITIALLY"), K({"DEFERRED", "IMMEDIATE"}) >>),
                NT("refopts") >>

GeneratedTail == << W("AS"), Par(FALSE), OptK({"STORED", "VIRTUAL"}) >>

G_SQLite == [
  ddls |-> << OnClass("eof", <<>>), Else(<< NT("ddl"), NT("ddls") >>) >>,

  ddl |-> << Else(<< W("CREATE"), OptK({"TEMP", "TEMPORARY"}),
    Alts(<< On({"TABLE"}, CreateTable(<< NT("topts") >>,
                << Alts(<< OnClass("eof", <<>>), Else(<< W(";") >>) >>) >>)),
            Else(<< K({"VIRTUAL", "VIEW", "TRIGGER", "INDEX", "UNIQUE"}), Skip >>) >>) >>) >>,

  defs |-> DefsAlts,
  names |-> NamesAlts,

  def |-> << On({"CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN"}, << NT("tcon") >>),
             Else(Column) >>,

  type |-> << Else(<< K({"TEXT", "NUMERIC", "INTEGER", "REAL", "NONE"}), Do("type") >>) >>,

  colcons0 |-> << Else(<< ColConName, NT("colcons") >>) >>,

  colcons |-> <<
    On({"PRIMARY"}, << Tag("PRIMARY"), W("PRIMARY"), W("KEY"), Do("pk"), OptK({"ASC", "DESC"}),
                       Conflict, Opt({"AUTOINCREMENT"}, << W("AUTOINCREMENT"), Do("ai") >>),
                       NT("colcons") >>),
    On({"NOT"}, << Tag("NOT"), W("NOT"), W("NULL"), Do("nn"), Conflict, NT("colcons") >>),
    On({"UNIQUE"}, << Tag("UNIQUE"), W("UNIQUE"), Do("uq"), Conflict, NT("colcons") >>),
    On({"CHECK"}, << Tag("CHECK"), W("CHECK"), Par(TRUE), Do("check"), NT("colcons") >>),
    On({"DEFAULT"}, << Tag("DEFAULT") >> \o ColDefault(<<>>) \o << NT("colcons") >>),
    On({"COLLATE"}, << Tag("COLLATE"), W("COLLATE"), K({"BINARY", "NOCASE", "RTRIM"}),
                       Do("collate"), NT("colcons") >>),
    On({"REFERENCES"}, << Tag("REFERENCES") >> \o ColReferences \o << NT("colcons") >>),
    On({"GENERATED"}, << Tag("GENERATED"), W("GENERATED"), W("ALWAYS") >> \o GeneratedTail \o
                      << NT("colcons") >>),
    On({"AS"}, << Tag("AS") >> \o GeneratedTail \o << NT("colcons") >>),
    Else(<<>>) >>,

  refopts |-> <<
    On({"ON"}, RefAction \o << NT("refopts") >>),
    On({"MATCH"}, << W("MATCH"), Alts(<< On(MatchKinds, << K(MatchKinds) >>), Else(<< Name >>) >>),
                     NT("refopts") >>),
    OnX({"NOT"}, {"NULL"}, << W("NOT") >> \o DeferTail),
    On({"DEFERRABLE"}, DeferTail),
    Else(<<>>) >>,

  tcon |-> << Else(<< Do("con0"), Opt({"CONSTRAINT"}, << W("CONSTRAINT"), Name, Do("con") >>),
    Alts(<<
      On({"PRIMARY"}, << W("PRIMARY"), W("KEY") >> \o KeyCols \o << Do("tpk"), Conflict >>),
      On({"UNIQUE"}, << W("UNIQUE") >> \o KeyCols \o << Do("tuq"), Conflict >>),
      On({"CHECK"}, << W("CHECK"), Par(TRUE), Do("tck") >>),
      On({"FOREIGN"}, ForeignKey(<<>>, RefColsOpt)) >>) >>) >>,

  topts |-> <<
    On({"WITHOUT"}, << W("WITHOUT"), W("ROWID"), Opt({","}, << W(","), W("STRICT") >>) >>),
    On({"STRICT"}, << W("STRICT"), Opt({","}, << W(","), W("WITHOUT"), W("ROWID") >>) >>),
    Else(<<>>) >>
]

-----------------------------------------------------------------------------
(* PostgreSQL *)

IndexParams ==
  << Opt({"INCLUDE"}, << W("INCLUDE"), W("("), Do("names0"), NT("names"), W(")") >>),
     Opt({"WITH"}, << W("WITH"), Par(FALSE) >>),
     Opt({"USING"}, << W("USING"), W("INDEX"), W("TABLESPACE"), Name >>) >>

OptPar == Opt({"("}, << Par(FALSE) >>)

NoInherit == Opt({"NO"}, << W("NO"), W("INHERIT") >>)

TimeZone == Opt({"WITH", "WITHOUT"}, << K({"WITH", "WITHOUT"}), W("TIME"), W("ZONE") >>)

OtherPostgreSQL ==
  {"VIEW", "TRIGGER", "INDEX", "MATERIALIZED", "SEQUENCE", "FUNCTION", "TYPE", "PROCEDURE",
   "AGGREGATE", "SCHEMA", "ROLE", "USER", "GROUP", "TABLESPACE", "EXTENSION", "DATABASE",
   "LANGUAGE", "FOREIGN", "DOMAIN", "SERVER", "CONVERSION", "RULE", "COLLATION", "POLICY",
   "OPERATOR"}

(* Table options: any number, each with an optional comma in front of it. *)
OptionsAlts == << OnClass("eof", <<>>), On({";"}, <<>>),
                  Else(<< OptK({","}), NT("topt"), NT("topts") >>) >>

G_PostgreSQL == [
  ddls |-> << OnClass("eof", <<>>), Else(<< NT("ddl"), NT("ddls") >>) >>,

  ddl |-> << Else(<< W("CREATE"),
    Alts(<< On({"TABLE"}, CreateTable(<< NT("topts") >>, << W(";") >>)),
            Else(<< K(OtherPostgreSQL), Skip >>) >>) >>) >>,

  defs |-> DefsAlts,
  names |-> NamesAlts,

  def |-> << On({"CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN", "EXCLUDE"},
                << NT("tcon") >>),
             Else(Column) >>,

  type |-> <<
    On({"BIT", "CHARACTER"}, << K({"BIT", "CHARACTER"}), Do("type"),
                                Opt({"VARYING"}, << W("VARYING"), Do("varying") >>), SizeN >>),
    On({"VARBIT", "VARCHAR", "CHAR"}, << K({"VARBIT", "VARCHAR", "CHAR"}), Do("type"), SizeN >>),
    On({"NUMERIC", "DECIMAL"}, << K({"NUMERIC", "DECIMAL"}), Do("type"), SizePS >>),
    On({"DOUBLE"}, << W("DOUBLE"), Do("type"), W("PRECISION") >>),
    On({"TIME", "TIMESTAMP"}, << K({"TIME", "TIMESTAMP"}), Do("type"), SizeN, TimeZone >>),
    Else(<< K(PlainTypes_PostgreSQL), Do("type") >>) >>,

  colcons0 |-> << Else(<< ColConName, NT("colcons") >>) >>,

  colcons |-> <<
    On({"PRIMARY"}, << Tag("PRIMARY"), W("PRIMARY"), W("KEY"), Do("pk") >> \o IndexParams \o
                    << NT("colcons") >>),
    On({"NOT"}, << Tag("NULL"), W("NOT"), W("NULL"), Do("nn"), NT("colcons") >>),
    On({"NULL"}, << Tag("NULL"), W("NULL"), NT("colcons") >>),
    On({"UNIQUE"}, << Tag("UNIQUE"), W("UNIQUE"), Do("uq") >> \o IndexParams \o
                   << NT("colcons") >>),
    On({"CHECK"}, << Tag("CHECK"), W("CHECK"), Par(TRUE), Do("check"), NoInherit,
                     NT("colcons") >>),
    On({"DEFAULT"}, << Tag("DEFAULT") >> \o ColDefault(<<>>) \o << NT("colcons") >>),
    On({"REFERENCES"}, << Tag("REFERENCES") >> \o ColReferences \o << NT("colcons") >>),
    On({"AS"}, << Tag("AS"), W("AS"), Par(FALSE), OptK({"STORED", "VIRTUAL"}),
                  NT("colcons") >>),
    On({"GENERATED"}, << Tag("GENERATED"), W("GENERATED"),
      Alts(<< On({"ALWAYS"}, << W("ALWAYS"), W("AS"),
                Alts(<< On({"IDENTITY"}, << W("IDENTITY"), OptPar >>),
                        On({"("}, << Par(FALSE), W("STORED") >>) >>) >>),
              On({"BY"}, << W("BY"), W("DEFAULT"), W("AS"), W("IDENTITY"), OptPar >>),
              On({"AS"}, << W("AS"), W("IDENTITY"), OptPar >>) >>),
      NT("colcons") >>),
    Else(<<>>) >>,

  refopts |-> <<
    On({"ON"}, RefAction \o << NT("refopts") >>),
    On({"MATCH"}, << W("MATCH"), K(MatchKinds), NT("refopts") >>),
    Else(<<>>) >>,

  tcon |-> << Else(<< Do("con0"), Opt({"CONSTRAINT"}, << W("CONSTRAINT"), Name, Do("con") >>),
    Alts(<<
      On({"PRIMARY"}, << W("PRIMARY"), W("KEY") >> \o KeyCols \o << Do("tpk") >> \o IndexParams),
      On({"UNIQUE"}, << W("UNIQUE") >> \o KeyCols \o << Do("tuq") >> \o IndexParams),
      On({"CHECK"}, << W("CHECK"), Par(TRUE), Do("tck"), NoInherit >>),
      On({"FOREIGN"}, ForeignKey(<<>>, RefColsOpt)),
      On({"EXCLUDE"}, << W("EXCLUDE"), Opt({"USING"}, << W("USING"), Name >>), Par(FALSE) >> \o
                      IndexParams \o << Opt({"WHERE"}, << W("WHERE"), Par(FALSE) >>) >>) >>) >>) >>,

  topts |-> OptionsAlts,

  topt |-> <<
    On({"WITH"}, << W("WITH"), Par(FALSE) >>),
    On({"WITHOUT"}, << W("WITHOUT"), W("OIDS") >>),
    On({"TABLESPACE"}, << W("TABLESPACE"), Name >>),
    On({"INHERITS"}, << W("INHERITS"), Par(FALSE) >>),
    On({"PARTITION"}, << W("PARTITION"), W("BY"), K({"RANGE", "LIST", "HASH"}), Par(FALSE) >>),
    On({"USING"}, << W("USING"), Name >>) >>
]

-----------------------------------------------------------------------------
(* MySQL *)

OtherMySQL ==
  {"VIEW", "TRIGGER", "INDEX", "DATABASE", "UNIQUE", "PROCEDURE", "SERVER", "FUNCTION", "USER",
   "EVENT", "SEQUENCE", "TABLESPACE", "ROLE", "LOGIN"}

Eq == OptK({"="})

Using == << W("USING"), K({"BTREE", "HASH"}) >>
OptUsing == Opt({"USING"}, Using)

KeyParts == << W("("), Do("names0"), NT("keyparts"), W(")") >>

EnforcedTail == << Alts(<< OnX({"NOT"}, {"NULL"}, << W("NOT"), W("ENFORCED") >>),
                           On({"ENFORCED"}, << W("ENFORCED") >>),
                           Else(<<>>) >>) >>

OnUpdate == << Opt({"ON"}, << W("ON"), W("UPDATE"),
                   K({"CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"}) >>) >>

LiteralOptions == {"AUTOEXTEND_SIZE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "KEY_BLOCK_SIZE",
                   "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES"}
StringOptions == {"COMMENT", "ENGINE_ATTRIBUTE", "PASSWORD", "SECONDARY_ENGINE_ATTRIBUTE",
                  "CONNECTION", "COMPRESSION", "ENCRYPTION"}
Attributes == {"ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"}

Attr(w) == On({w}, << Tag(w), W(w), NT("colcons") >>)

G_MySQL == [
  ddls |-> << OnClass("eof", <<>>), Else(<< NT("ddl"), NT("ddls") >>) >>,

  ddl |-> << Else(<< W("CREATE"),
    Alts(<< On({"TABLE"}, CreateTable(<< NT("topts") >>, << W(";") >>)),
            Else(<< K(OtherMySQL), Skip >>) >>) >>) >>,

  defs |-> DefsAlts,
  names |-> NamesAlts,

  def |-> << On({"CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "INDEX", "KEY", "FULLTEXT",
                 "SPATIAL", "CHECK"}, << NT("tcon") >>),
             Else(Column) >>,

  type |-> <<
    On({"VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "TEXT"},
       << K({"VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "TEXT"}), Do("type"), SizeN >>),
    On({"NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE"},
       << K({"NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE"}), Do("type"), SizePS >>),
    On({"BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT"},
       << K({"BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT"}),
          Do("type"), SizeN >>),
    On({"TIME", "DATETIME", "TIMESTAMP", "YEAR"},
       << K({"TIME", "DATETIME", "TIMESTAMP", "YEAR"}), Do("type"), SizeN, TimeZone >>),
    Else(<< K(PlainTypes_MySQL), Do("type") >>) >>,

  colcons0 |-> << Else(<<
    Opt({"CONSTRAINT"}, << W("CONSTRAINT"),
        Alts(<< On({"CHECK"}, <<>>), Else(<< Name, Do("cname") >>) >>) >>),
    NT("colcons") >>) >>,

  colcons |-> <<
    On({"PRIMARY"}, << Tag("PRIMARY"), W("PRIMARY"), W("KEY"), Do("pk"), NT("colcons") >>),
    On({"KEY"}, << Tag("PRIMARY"), W("KEY"), Do("pk"), NT("colcons") >>),
    On({"NOT"}, << Tag("NULL"), W("NOT"), W("NULL"), Do("nn"), NT("colcons") >>),
    On({"NULL"}, << Tag("NULL"), W("NULL"), NT("colcons") >>),
    On({"UNIQUE"}, << Tag("UNIQUE"), W("UNIQUE"), Do("uq"), OptK({"KEY"}), NT("colcons") >>),
    On({"CHECK"}, << Tag("CHECK"), W("CHECK"), Par(TRUE), Do("check") >> \o EnforcedTail \o
                  << NT("colcons") >>),
    On({"DEFAULT"}, << Tag("DEFAULT") >> \o ColDefault(OnUpdate) \o << NT("colcons") >>),
    On({"COLLATE"}, << Tag("COLLATE"), W("COLLATE"), Name, Do("collate"), NT("colcons") >>),
    On({"REFERENCES"}, << Tag("REFERENCES") >> \o ColReferences \o << NT("colcons") >>),
    On({"GENERATED"}, << Tag("GENERATED"), W("GENERATED"), W("ALWAYS"), W("AS"), Par(FALSE),
                         NT("colcons") >>),
    On({"AS"}, << Tag("GENERATED"), W("AS"), Par(FALSE), NT("colcons") >>),
    On({"COMMENT"}, << Tag("COMMENT"), W("COMMENT"), Str, NT("colcons") >>),
    On({"COLUMN_FORMAT"}, << Tag("COLUMN_FORMAT"), W("COLUMN_FORMAT"),
                             K({"FIXED", "DYNAMIC", "DEFAULT"}), NT("colcons") >>),
    On({"ENGINE_ATTRIBUTE"}, << Tag("ENGINE_ATTRIBUTE"), W("ENGINE_ATTRIBUTE"), Eq, Str,
                                NT("colcons") >>),
    On({"SECONDARY_ENGINE_ATTRIBUTE"}, << Tag("SECONDARY_ENGINE_ATTRIBUTE"),
          W("SECONDARY_ENGINE_ATTRIBUTE"), Eq, Str, NT("colcons") >>),
    On({"STORAGE"}, << Tag("STORAGE"), W("STORAGE"), K({"DISK", "MEMORY"}), NT("colcons") >>),
    On({"AUTO_INCREMENT"}, << Tag("AUTO_INCREMENT"), W("AUTO_INCREMENT"), Do("ai"),
                              NT("colcons") >>),
    Attr("VISIBLE"), Attr("INVISIBLE"), Attr("VIRTUAL"), Attr("STORED"),
    Else(<<>>) >>,

  refopts |-> <<
    On({"ON"}, RefAction \o << NT("refopts") >>),
    On({"MATCH"}, << W("MATCH"), K(MatchKinds), NT("refopts") >>),
    Else(<<>>) >>,

  keyparts |-> << Else(<<
    Alts(<< On({"("}, << Par(FALSE) >>),
            Else(<< Name, Do("nameadd"), SizeIgnored >>) >>),
    OptK({"ASC", "DESC"}), Opt({","}, << W(","), NT("keyparts") >>) >>) >>,

  indexopts |-> <<
    On({"KEY_BLOCK_SIZE"}, << W("KEY_BLOCK_SIZE"), Eq, Lit, NT("indexopts") >>),
    On({"USING"}, Using \o << NT("indexopts") >>),
    On({"WITH"}, << W("WITH"), W("PARSER"), Name, NT("indexopts") >>),
    On({"COMMENT"}, << W("COMMENT"), Str, NT("indexopts") >>),
    On({"VISIBLE", "INVISIBLE"}, << K({"VISIBLE", "INVISIBLE"}), NT("indexopts") >>),
    On(Attributes, << K(Attributes), Eq, Str, NT("indexopts") >>),
    Else(<<>>) >>,

  tcon |-> << Else(<< Do("con0"),
    Opt({"CONSTRAINT"}, << W("CONSTRAINT"),
        Alts(<< On({"PRIMARY", "UNIQUE", "FOREIGN", "CHECK"}, <<>>),
                Else(<< Name, Do("con") >>) >>) >>),
    Alts(<<
      On({"PRIMARY"}, << W("PRIMARY"), W("KEY"), OptUsing >> \o KeyParts \o
                      << Do("tpk"), NT("indexopts") >>),
      On({"UNIQUE"}, << W("UNIQUE"), OptK({"INDEX", "KEY"}),
                        Alts(<< On({"USING", "("}, <<>>), Else(<< Name >>) >>),
                        OptUsing >> \o KeyParts \o << Do("tuq"), NT("indexopts") >>),
      On({"FOREIGN"}, << W("FOREIGN"), W("KEY"),
                         Alts(<< On({"("}, <<>>), Else(<< Name >>) >>),
                         W("("), Do("names0"), NT("names"), W(")"), Do("fkcols"),
                         W("REFERENCES") >> \o RefTableSyms("fkt") \o KeyParts \o
                      << Do("fkrefs"), NT("refopts"), Do("tfk") >>),
      On({"CHECK"}, << W("CHECK"), Par(TRUE), Do("tck") >> \o EnforcedTail),
      On({"INDEX", "KEY"}, << K({"INDEX", "KEY"}),
                              Alts(<< On({"USING", "("}, <<>>), Else(<< Name >>) >>),
                              OptUsing >> \o KeyParts \o << NT("indexopts") >>),
      On({"FULLTEXT", "SPATIAL"}, << K({"FULLTEXT", "SPATIAL"}), OptK({"INDEX", "KEY"}),
                              Alts(<< On({"("}, <<>>), Else(<< Name >>) >>) >> \o
                              KeyParts \o << NT("indexopts") >>) >>) >>) >>,

  topts |-> OptionsAlts,

  tablenames |-> << Else(<< Name, Opt({"."}, << W("."), Name >>),
                            Opt({","}, << W(","), NT("tablenames") >>) >>) >>,

  topt |-> <<
    On(LiteralOptions, << K(LiteralOptions), Eq, Lit >>),
    On(StringOptions, << K(StringOptions), Eq, Str >>),
    On({"COLLATE", "ENGINE"}, << K({"COLLATE", "ENGINE"}), Eq, Name >>),
    On({"CHARACTER"}, << W("CHARACTER"), W("SET"), Eq, Name >>),
    On({"CHECKSUM", "DELAY_KEY_WRITE"}, << K({"CHECKSUM", "DELAY_KEY_WRITE"}), Eq,
                                           K({"0", "1"}) >>),
    On({"PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"},
       << K({"PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"}), Eq,
          K({"0", "1", "DEFAULT"}) >>),
    On({"DATA", "INDEX"}, << K({"DATA", "INDEX"}), W("DIRECTORY"), Eq, Lit >>),
    On({"TABLESPACE"}, << W("TABLESPACE"), Name,
                          Opt({"STORAGE"}, << W("STORAGE"), K({"DISK", "MEMORY"}) >>) >>),
    On({"DEFAULT"}, << W("DEFAULT"),
       Alts(<< On({"CHARACTER"}, << W("CHARACTER"), W("SET") >>),
               On({"COLLATE"}, << W("COLLATE") >>) >>), Eq, Name >>),
    On({"UNION"}, << W("UNION"), Eq, W("("), NT("tablenames"), W(")") >>),
    On({"INSERT_METHOD"}, << W("INSERT_METHOD"), Eq, K({"NO", "FIRST", "LAST"}) >>),
    On({"ROW_FORMAT"}, << W("ROW_FORMAT"), Eq,
       K({"DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT"}) >>) >>
]

-----------------------------------------------------------------------------

Grammar == [ d \in {"SQLite", "PostgreSQL", "MySQL"} |->
  CASE d = "SQLite" -> G_SQLite
    [] d = "PostgreSQL" -> G_PostgreSQL
    [] d = "MySQL" -> G_MySQL ]

Start == << NT("ddls") >>

=============================================================================
