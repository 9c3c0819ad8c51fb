------------------------------ MODULE MC_Names ------------------------------
(***************************************************************************)
(* Every word of any dialect's reserved list or vocabulary, bare, quoted   *)
(* and altered, in several name positions of each dialect (P15, P11).      *)
(***************************************************************************)
EXTENDS Parser

CONSTANT Positions

Ty(d) == IF d = "SQLite" THEN "TEXT" ELSE "INT"

Place(d, i, w) ==
  CASE i = 1 -> "CREATE TABLE " \o w \o " (x1 " \o Ty(d) \o ");"
    [] i = 2 -> "CREATE TABLE t (x1 " \o Ty(d) \o " CONSTRAINT " \o w \o " NOT NULL);"
    [] i = 3 -> "CREATE TABLE t (x1 " \o Ty(d) \o ", PRIMARY KEY (x1, " \o w \o "));"
    [] i = 4 -> "CREATE TABLE t (x1 " \o Ty(d) \o " REFERENCES s." \o w \o " (x2));"
    [] i = 5 -> "CREATE TABLE t (x0 " \o Ty(d) \o ", " \o w \o " " \o Ty(d) \o ");"
    [] i = 6 -> "CREATE TABLE " \o w \o ".t (x1 " \o Ty(d) \o ");"
    [] i = 7 -> "CREATE TABLE t (x1 " \o Ty(d) \o ", FOREIGN KEY (" \o w \o ") REFERENCES r (x2));"

AllWords == UNION { Reserved[d] : d \in Dialects } \cup {"nm", "_", "A1", "auto_increment", "9a", "a-b"}

Quote(d) == IF d = "MySQL" THEN "`" ELSE "\""

VARIABLES d, w, i, form, done
vars == << d, w, i, form, done >>

Init == /\ d \in Dialects /\ w \in AllWords /\ i \in Positions /\ form \in {"bare", "quoted", "string", "longer"}
        /\ done = "no"

Try == /\ done = "no"
       /\ done' = Parse(d, Chars(Place(d, i,
            CASE form = "bare" -> w
              [] form = "quoted" -> Quote(d) \o w \o Quote(d)
              [] form = "string" -> "'" \o w \o "'"
              [] form = "longer" -> w \o "_zz"))).k
       /\ UNCHANGED << d, w, i, form >>

Spec == Init /\ [][Try]_vars

Shaped(t) == SubSeq(t, 1, 1) \in NameStart /\ \A j \in 1..Len(t) : SubSeq(t, j, j) \in NameChars
Key(t) == Str2([ j \in 1..Len(t) |-> Up(SubSeq(t, j, j)) ])

(* words that begin something else in a column definition position *)
Structural == {"CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN", "EXCLUDE", "INDEX", "KEY", "FULLTEXT",
               "SPATIAL", "IF"}

Decided == done # "no" =>
  CASE form = "bare" -> done = (IF Shaped(w) /\ Key(w) \notin Reserved[d] THEN "ok" ELSE "err")
    [] form = "quoted" -> done = "ok"
    [] form = "string" -> done = "err"
    [] form = "longer" -> done = (IF Shaped(w) THEN "ok" ELSE "err")

(* unless the word has a meaning of its own at that place *)
DecidedHere == (form = "bare" /\ Key(w) \in Structural /\ i \in {1, 5, 6}) \/ Decided
=============================================================================
