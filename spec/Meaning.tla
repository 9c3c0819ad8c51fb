------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* What a table definition means, said the other way round: a table is     *)
(* built up definition by definition, and each definition is at the same   *)
(* time written down as tokens and entered in the table it declares.       *)
(* Nothing here refers to the grammar or to the machine of module Parser;  *)
(* TLC checks that the machine reads every text written this way back as   *)
(* exactly the table that was built (Faithful), which is the content of    *)
(* P05, P06, P07, P08, P09 and P17.                                        *)
(*                                                                         *)
(* A clause is [ g kind, w tokens, e effect, v value ]; kinds on a column  *)
(* are distinct.  The effect "none" marks clauses without a place in the   *)
(* result.                                                                 *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils

CONSTANTS Budget,        \* features (clauses, constraints, further columns, unusual heads ...) per table
          Emit

C(g, w, e, v) == [ g |-> g, w |-> w, e |-> e, v |-> v ]
N(v) == [ k |-> "num", v |-> v ]
S(v) == [ k |-> "str", v |-> v ]
B(v) == [ k |-> "bool", v |-> v ]

TheTypes == [
  SQLite |-> << << <<"INTEGER">>, "INTEGER", "0", "0" >>, << <<"text">>, "TEXT", "0", "0" >> >>,
  PostgreSQL |-> << << <<"VARCHAR", "(", "10", ")">>, "VARCHAR", "10", "0" >>,
                    << <<"numeric", "(", "8", ",", "02", ")">>, "NUMERIC", "8", "2" >>,
                    << <<"bit", "VARYING", "(", "3", ")">>, "VARBIT", "3", "0" >>,
                    << <<"CHARACTER", "varying">>, "VARCHAR", "0", "0" >>,
                    << <<"DOUBLE", "PRECISION">>, "DOUBLE", "0", "0" >>,
                    << <<"TIMESTAMP", "(", "6", ")", "WITH", "TIME", "ZONE">>, "TIMESTAMP", "6", "0" >>,
                    << <<"Int8">>, "INT8", "0", "0" >> >>,
  MySQL |-> << << <<"VARCHAR", "(", "10", ")">>, "VARCHAR", "10", "0" >>,
               << <<"decimal", "(", "8", ",", "2", ")">>, "DECIMAL", "8", "2" >>,
               << <<"Json">>, "JSON", "0", "0" >> >> ]

Common == {
  C("PRIMARY", <<"PRIMARY", "KEY">>, "pk", TRUE),
  C("UNIQUE", <<"unique">>, "uq", TRUE),
  C("NOT", <<"NOT", "null">>, "nn", TRUE),
  C("CHECK", <<"CHECK", "(", "x", ">", "(", "1", ")", ")">>, "ck", "(x >(1))"),
  C("DEFAULT", <<"DEFAULT", "-1.50">>, "df", N("-6755399441055744p-52")),
  C("DEFAULT", <<"DEFAULT", "'it''s'">>, "df", S("it's")),
  C("DEFAULT", <<"default", "True">>, "df", B("true")),
  C("DEFAULT", <<"DEFAULT", "NULL">>, "df", NoDefault),
  C("DEFAULT", <<"DEFAULT", "current_date">>, "df", S("current_date")),
  C("DEFAULT", <<"DEFAULT", "(", "a", "+", "b", ")">>, "df", S("(a + b)")),
  C("REFERENCES", <<"REFERENCES", "r">>, "rt", << "r", <<>> >>),
  C("REFERENCES", <<"REFERENCES", "s", ".", "r", "(", "y", ")", "ON", "DELETE", "SET", "NULL">>,
    "rt", << "r", <<"y">> >>),
  C("REFERENCES", <<"REFERENCES", "r", "MATCH", "FULL", "on", "update", "no", "action">>,
    "rt", << "r", <<>> >>) }

Own == [
  SQLite |-> {
    C("PRIMARY", <<"PRIMARY", "KEY", "DESC", "ON", "CONFLICT", "ABORT", "AUTOINCREMENT">>, "pkai", TRUE),
    C("NOT", <<"NOT", "NULL", "ON", "CONFLICT", "FAIL">>, "nn", TRUE),
    C("UNIQUE", <<"UNIQUE", "ON", "CONFLICT", "IGNORE">>, "uq", TRUE),
    C("COLLATE", <<"COLLATE", "NOCASE">>, "co", "NOCASE"),
    C("REFERENCES", <<"REFERENCES", "r", "NOT", "DEFERRABLE", "INITIALLY", "DEFERRED">>, "rt", << "r", <<>> >>),
    C("GENERATED", <<"GENERATED", "ALWAYS", "AS", "(", "z", ")", "STORED">>, "none", TRUE),
    C("AS", <<"AS", "(", "z", ")">>, "none", TRUE) },
  PostgreSQL |-> {
    C("PRIMARY", <<"PRIMARY", "KEY", "INCLUDE", "(", "i", ")", "WITH", "(", "f", "=", "1", ")",
                   "USING", "INDEX", "TABLESPACE", "ts">>, "pk", TRUE),
    C("CHECK", <<"CHECK", "(", "f", "(", "x", ",", "'y'", ")", ")", "NO", "INHERIT">>, "ck", "(f(x,'y'))"),
    C("NOT", <<"NULL">>, "none", TRUE),
    C("GENERATED", <<"GENERATED", "BY", "DEFAULT", "AS", "IDENTITY", "(", "a", ")">>, "none", TRUE),
    C("GENERATED", <<"GENERATED", "ALWAYS", "AS", "(", "z", ")", "STORED">>, "none", TRUE) },
  MySQL |-> {
    C("PRIMARY", <<"KEY">>, "pk", TRUE),
    C("UNIQUE", <<"UNIQUE", "KEY">>, "uq", TRUE),
    C("NOT", <<"NULL">>, "none", TRUE),
    C("CHECK", <<"CHECK", "(", "x", ")", "NOT", "ENFORCED">>, "ck", "(x)"),
    C("DEFAULT", <<"DEFAULT", "CURRENT_TIMESTAMP", "ON", "UPDATE", "CURRENT_TIMESTAMP">>, "df", S("CURRENT_TIMESTAMP")),
    C("DEFAULT", <<"DEFAULT", "\"q\"">>, "df", S("q")),
    C("COLLATE", <<"COLLATE", "utf8_bin">>, "co", "utf8_bin"),
    C("AI", <<"AUTO_INCREMENT">>, "ai", TRUE),
    C("COMMENT", <<"COMMENT", "'PRIMARY KEY'">>, "none", TRUE),
    C("AS", <<"AS", "(", "z", ")">>, "none", TRUE),
    C("VISIBLE", <<"INVISIBLE">>, "none", TRUE),
    C("COLUMN_FORMAT", <<"COLUMN_FORMAT", "DEFAULT">>, "none", TRUE),
    C("STORAGE", <<"STORAGE", "MEMORY">>, "none", TRUE),
    C("STORED", <<"STORED">>, "none", TRUE) } ]

Clauses == [ d \in Dialects |-> Common \cup Own[d] ]

Effect(col, c) ==
  CASE c.e = "pk" -> [ col EXCEPT !.pk = TRUE ]
    [] c.e = "pkai" -> [ col EXCEPT !.pk = TRUE, !.ai = TRUE ]
    [] c.e = "uq" -> [ col EXCEPT !.uq = TRUE ]
    [] c.e = "nn" -> [ col EXCEPT !.nn = TRUE ]
    [] c.e = "ai" -> [ col EXCEPT !.ai = TRUE ]
    [] c.e = "ck" -> [ col EXCEPT !.ck = c.v ]
    [] c.e = "df" -> [ col EXCEPT !.df = c.v ]
    [] c.e = "co" -> [ col EXCEPT !.co = c.v ]
    [] c.e = "rt" -> [ col EXCEPT !.rt = c.v[1], !.rc = c.v[2] ]
    [] OTHER -> col

(* Table constraints: kind g, tokens w, effect e, value v *)
CommonTable == {
  C("tc", <<"PRIMARY", "KEY", "(", "aa", ",", "bb", ")">>, "pk", <<"aa", "bb">>),
  C("tc", <<"UNIQUE", "(", "bb", ")">>, "uq", <<"bb">>),
  C("tc", <<"CHECK", "(", "aa", "=", "1", ")">>, "ck", "(aa=1)"),
  C("tc", <<"FOREIGN", "KEY", "(", "bb", ",", "aa", ")", "REFERENCES", "s", ".", "r", "(", "y", ",", "x", ")",
            "ON", "DELETE", "CASCADE">>, "fk", << <<"bb", "aa">>, "r", <<"y", "x">> >>) }

OwnTable == [
  SQLite |-> {
    C("tc", <<"PRIMARY", "KEY", "(", "c1", ")", "ON", "CONFLICT", "REPLACE">>, "pk", <<"c1">>),
    C("tc", <<"FOREIGN", "KEY", "(", "aa", ")", "REFERENCES", "r", "NOT", "DEFERRABLE">>, "fk", << <<"aa">>, "r", <<>> >>) },
  PostgreSQL |-> {
    C("tc", <<"UNIQUE", "(", "\"q r\"", ")", "INCLUDE", "(", "i", ")", "USING", "INDEX", "TABLESPACE", "t1">>, "uq", <<"\"q r\"">>),
    C("tc", <<"EXCLUDE", "USING", "gist", "(", "c", "WITH", "x", ")", "WHERE", "(", "y", ")">>, "none", TRUE),
    C("tc", <<"CHECK", "(", "z", ")", "NO", "INHERIT">>, "ck", "(z)") },
  MySQL |-> {
    C("tc", <<"PRIMARY", "KEY", "USING", "BTREE", "(", "aa", "(", "3", ")", "DESC", ")", "COMMENT", "'c'">>, "pk", <<"aa">>),
    C("tc", <<"UNIQUE", "INDEX", "ix", "(", "bb", "ASC", ",", "(", "f", ")", ")", "VISIBLE">>, "uq", <<"bb">>),
    C("tc", <<"CHECK", "(", "z", ")", "NOT", "ENFORCED">>, "ck", "(z)"),
    C("ix", <<"INDEX", "k9", "(", "aa", ",", "bb", ")">>, "none", TRUE),
    C("ix", <<"KEY", "(", "aa", ")", "USING", "HASH">>, "none", TRUE),
    C("ix", <<"FULLTEXT", "KEY", "ft", "(", "aa", ")", "WITH", "PARSER", "pp">>, "none", TRUE) } ]

TableClauses == [ d \in Dialects |-> CommonTable \cup OwnTable[d] ]

TableEffect(t, nm, c) ==
  CASE c.e = "pk" -> [ t EXCEPT !.pk = Append(@, [ n |-> nm, c |-> c.v ]) ]
    [] c.e = "uq" -> [ t EXCEPT !.uq = Append(@, [ n |-> nm, c |-> c.v ]) ]
    [] c.e = "ck" -> [ t EXCEPT !.ck = Append(@, [ n |-> nm, e |-> c.v ]) ]
    [] c.e = "fk" -> [ t EXCEPT !.fk = Append(@, [ n |-> nm, c |-> c.v[1], rt |-> c.v[2], rc |-> c.v[3] ]) ]
    [] OTHER -> t

Heads == {
  << <<"CREATE", "TABLE", "t">>, "", "t", FALSE >>,
  << <<"create", "Table", "if", "NOT", "exists", "s1", ".", "T2">>, "s1", "T2", TRUE >> }

Tails == [
  SQLite |-> { <<";">>, <<>>, <<"WITHOUT", "ROWID", ",", "STRICT", ";">> },
  PostgreSQL |-> { <<";">>, <<"TABLESPACE", "tb", ";">>, <<"WITH", "(", "f", "=", "2", ")", "INHERITS", "(", "p", ")", ";">> },
  MySQL |-> { <<";">>, <<"ENGINE", "=", "InnoDB", ",", "COMMENT", "'x'", ";">>, <<"DEFAULT", "CHARACTER", "SET", "utf8", ";">> } ]

-----------------------------------------------------------------------------
VARIABLES d, words, tab, kinds, cost, phase
vars == << d, words, tab, kinds, cost, phase >>

Init == /\ d \in (IF IOEnv.DIALECT = "all" THEN Dialects ELSE {IOEnv.DIALECT})
        /\ \E h \in Heads : /\ words = h[1] \o <<"(">>
                            /\ tab = [ EmptyTable EXCEPT !.s = h[2], !.n = h[3], !.i = h[4] ]
                            /\ cost = IF h[4] THEN 1 ELSE 0
        /\ kinds = {} /\ phase = "open"

Sep == IF phase = "open" THEN <<>> ELSE <<",">>

Spend(n) == cost + n <= Budget /\ cost' = cost + n

AddColumn ==
  /\ phase # "closed"
  /\ \E i \in 1..Len(TheTypes[d]) :
       LET ty == TheTypes[d][i]
           nm == "c" \o ToString(Len(tab.c) + 1)
       IN /\ Spend((IF i = 1 THEN 0 ELSE 1) + (IF tab.c = <<>> THEN 0 ELSE 1))
          /\ words' = words \o Sep \o << nm >> \o ty[1]
          /\ tab' = [ tab EXCEPT !.c = Append(@, [ EmptyColumn EXCEPT !.n = nm, !.t = ty[2], !.dn = ty[3], !.dm = ty[4] ]) ]
  /\ kinds' = {} /\ phase' = "column"
  /\ UNCHANGED d

NameIt ==                                   \* CONSTRAINT name, in front of the first clause
  /\ phase = "column" /\ kinds = {}
  /\ Spend(1)
  /\ LET nm == IF d = "MySQL" THEN "`n m`" ELSE "\"n m\"" IN words' = words \o <<"CONSTRAINT", nm>>
  /\ tab' = [ tab EXCEPT !.c[Len(tab.c)].cn = "n m" ]
  /\ kinds' = {"CONSTRAINT"}
  /\ UNCHANGED << d, phase >>

AddClause ==
  /\ phase = "column"
  /\ Spend(1)
  /\ \E c \in Clauses[d] :
       /\ c.g \notin kinds
       /\ ~(c.w = <<"KEY">> /\ words[Len(words)] = "unique")     \* UNIQUE KEY is one clause
       /\ words' = words \o c.w
       /\ tab' = [ tab EXCEPT !.c[Len(tab.c)] = Effect(@, c) ]
       /\ kinds' = kinds \cup {c.g}
  /\ UNCHANGED << d, phase >>

AddConstraint ==
  /\ phase # "closed"
  /\ Spend(1)
  /\ \E c \in TableClauses[d] : \E nm \in {"", "k1"} :
       /\ (c.g = "ix" => nm = "")
       /\ words' = words \o Sep \o (IF nm = "" THEN <<>> ELSE <<"CONSTRAINT", nm>>) \o c.w
       /\ tab' = TableEffect(tab, nm, c)
  /\ phase' = "constraint" /\ kinds' = {}
  /\ UNCHANGED d

Close ==
  /\ phase \notin {"open", "closed"}
  /\ \E t \in Tails[d] : Spend(IF t = <<";">> THEN 0 ELSE 1) /\ words' = words \o <<")">> \o t
  /\ phase' = "closed"
  /\ UNCHANGED << d, tab, kinds >>

Next == AddColumn \/ NameIt \/ AddClause \/ AddConstraint \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Token(w) == Lex(d, Chars(w)).toks[1]
Tokens == [ i \in 1..Len(words) |-> Token(words[i]) ] \o << EofToken(1) >>

Faithful == phase = "closed" => ParseTokens(d, Tokens) = Accept(<< tab >>)

Printed == (Emit /\ phase = "closed") =>
  PrintT("WRITTEN " \o ToJson([ d |-> d, words |-> words ]))
=============================================================================
