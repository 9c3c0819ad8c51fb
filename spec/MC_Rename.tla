----------------------------- MODULE MC_Rename -----------------------------
(***************************************************************************)
(* Names carry no meaning (P19): a few texts with the placeholders n1, n2, *)
(* ... as names, and every assignment of names to the placeholders,        *)
(* repeated ones included.  The text stays accepted and the tables are     *)
(* those of the placeholders, renamed.  Assigned placeholder by            *)
(* placeholder.                                                            *)
(***************************************************************************)
EXTENDS Parser

CONSTANT NameCount         \* how many of the names below

Ty(d) == IF d = "SQLite" THEN "TEXT" ELSE "INT"

(* [ w as written, u without quotes ] *)
Given(d, i) ==
  LET q == IF d = "MySQL" THEN "`" ELSE "\"" IN
  CASE i = 1 -> [ w |-> "x", u |-> "x" ]
    [] i = 2 -> [ w |-> q \o "Q r" \o q, u |-> "Q r" ]
    [] i = 3 -> [ w |-> "X", u |-> "X" ]
    [] i = 4 -> [ w |-> q \o "x" \o q, u |-> "x" ]
    [] i = 5 -> [ w |-> q \o "NOT NULL" \o q, u |-> "NOT NULL" ]

Texts(d) == <<
  << "CREATE TABLE ", "n1", ".", "n2", " (", "n3", " " \o Ty(d) \o ", ", "n4", " " \o Ty(d) \o " NOT NULL, ", "n5",
     " " \o Ty(d) \o ");CREATE TABLE IF NOT EXISTS ", "n6", "(a1 " \o Ty(d) \o ");" >>,
  << "CREATE TABLE t1 (", "n1", " " \o Ty(d) \o " CONSTRAINT ", "n2", " UNIQUE REFERENCES ", "n3", ".", "n4", "(", "n5",
     ") CHECK (n1 > 1), a1 " \o Ty(d) \o " CONSTRAINT ", "n6", " DEFAULT 'n1');" >>,
  << "CREATE TABLE t1 (", "n1", " " \o Ty(d) \o " PRIMARY KEY, PRIMARY KEY (", "n2", ",", "n3", "), CONSTRAINT ", "n4",
     " PRIMARY KEY(", "n5", "), UNIQUE(", "n6", "));" >>,
  << "CREATE TABLE t1 (a1 " \o Ty(d) \o ", CONSTRAINT ", "n1", " FOREIGN KEY (", "n2", ",", "n3", ") REFERENCES ", "n4",
     " (", "n5", ") ON DELETE SET NULL, CONSTRAINT ", "n6", " CHECK (n1));" >> >>

Placeholders == << "n1", "n2", "n3", "n4", "n5", "n6" >>

VARIABLES d, t, names
vars == << d, t, names >>

Init == d \in Dialects /\ t \in 1..Len(Texts(d)) /\ names = <<>>

Assign == /\ Len(names) < 6
          /\ \E i \in 1..NameCount : names' = Append(names, i)
          /\ UNCHANGED << d, t >>

Spec == Init /\ [][Assign]_vars

Written(x) == IF \E i \in 1..6 : Placeholders[i] = x
              THEN Given(d, names[CHOOSE i \in 1..6 : Placeholders[i] = x]).w ELSE x
Plain(x) == IF \E i \in 1..6 : Placeholders[i] = x
            THEN Given(d, names[CHOOSE i \in 1..6 : Placeholders[i] = x]).u ELSE x

Map(f(_), s) == [ i \in 1..Len(s) |-> f(s[i]) ]

RenamedColumn(c) == [ c EXCEPT !.n = Plain(@), !.cn = Plain(@), !.co = Plain(@), !.rt = Plain(@), !.rc = Map(Written, @) ]
RenamedKey(k) == [ n |-> Plain(k.n), c |-> Map(Written, k.c) ]
RenamedCheck(k) == [ k EXCEPT !.n = Plain(@) ]
RenamedForeign(k) == [ n |-> Plain(k.n), c |-> Map(Written, k.c), rt |-> Plain(k.rt), rc |-> Map(Written, k.rc) ]
Renamed(x) == [ x EXCEPT !.s = Plain(@), !.n = Plain(@), !.c = Map(RenamedColumn, @), !.pk = Map(RenamedKey, @),
                         !.uq = Map(RenamedKey, @), !.ck = Map(RenamedCheck, @), !.fk = Map(RenamedForeign, @) ]

RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))

OnlyNames == Len(names) = 6 =>
  LET base == Parse(d, Chars(Joined(Texts(d)[t]))) IN
  /\ base.k = "ok"
  /\ Parse(d, Chars(Joined(Map(Written, Texts(d)[t])))) = Accept(Map(Renamed, base.tabs))
=============================================================================
