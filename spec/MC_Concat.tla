------------------------------ MODULE MC_Concat ------------------------------
(***************************************************************************)
(* Concatenation (P13): all sequences of a few statements, right and       *)
(* wrong, with the separators between them.  The text grows statement by   *)
(* statement; tabs and lines are what the parts yield on their own.        *)
(***************************************************************************)
EXTENDS Parser

CONSTANT MaxParts

Ty(d) == IF d = "SQLite" THEN "TEXT" ELSE "INT"

Right(d) == {
  "CREATE TABLE t1 (x1 " \o Ty(d) \o ");",
  "CREATE TABLE s.t2 (x1 " \o Ty(d) \o " CONSTRAINT n1 UNIQUE DEFAULT 'v'\n, CONSTRAINT n2 PRIMARY KEY (x1));",
  "CREATE TABLE IF NOT EXISTS t3 (\nx1 " \o Ty(d) \o " NOT NULL CHECK (x1 > 1) REFERENCES r (y)\n, FOREIGN KEY (x1) REFERENCES q (z)\n, CHECK (x1));",
  "CREATE VIEW v AS SELECT 1;",
  "CREATE TRIGGER g AFTER x BEGIN SELECT 1; END;",
  "-- CREATE TABLE no (\n",
  "" }

Wrong(d) == {
  "CREATE TABLE t1 (x1 " \o Ty(d) \o "\n));",
  "CREATE TABLE t1 (x1 " \o Ty(d) \o " UNIQUE\nUNIQUE);",
  "CREATE TABLE",
  "\n'",
  "/* x\n" }

Gaps == {"", "\n", " /* ; */ "}

VARIABLES d, text, tabs, nl, parts, fin
vars == << d, text, tabs, nl, parts, fin >>

Newlines(t) == Len(SelectSeq(Chars(t), LAMBDA c : c = "\n"))

Init == d \in Dialects /\ text = "" /\ tabs = <<>> /\ nl = 0 /\ parts = 0 /\ fin = << >>

Good == \E t \in Right(d) : \E g \in Gaps :
  /\ parts < MaxParts /\ fin = << >>
  /\ text' = text \o t \o g
  /\ tabs' = tabs \o Parse(d, Chars(t)).tabs
  /\ nl' = nl + Newlines(t \o g)
  /\ parts' = parts + 1
  /\ UNCHANGED << d, fin >>

Bad == \E t \in Wrong(d) :
  /\ parts < MaxParts /\ fin = << >>
  /\ text' = text \o t
  /\ fin' = << Parse(d, Chars(t)) >>
  /\ parts' = parts + 1
  /\ UNCHANGED << d, tabs, nl >>

Spec == Init /\ [][Good \/ Bad]_vars

Parts == /\ \A t \in Right(d) : Parse(d, Chars(t)).k = "ok"
         /\ \A t \in Wrong(d) : Parse(d, Chars(t)).k = "err"

Sum == LET o == Parse(d, Chars(text)) IN
  IF fin = << >> THEN o = Accept(tabs)
  ELSE o = Reject(fin[1].l + nl, fin[1].near)
=============================================================================
