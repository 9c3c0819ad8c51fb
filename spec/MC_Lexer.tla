------------------------------ MODULE MC_Lexer ------------------------------
(***************************************************************************)
(* The tokenizer over all texts of bounded length.                         *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets, TLC

CONSTANT MaxLen

Alphabet == {"a", "1", "e", "'", "\"", "`", "-", "/", "*", "#", "\n", " ", "(", ";", "."}

VARIABLES d, s, nl, n, last
vars == << d, s, nl, n, last >>

Init == d \in Dialects /\ s = LexInit /\ nl = 0 /\ n = 0 /\ last = ""

Read(c) == /\ n < MaxLen
           /\ s.m # "error"
           /\ s' = LexStep(d, s, c)
           /\ nl' = IF c = "\n" THEN nl + 1 ELSE nl
           /\ n' = n + 1
           /\ last' = c
           /\ UNCHANGED d

Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

(* the same character classes behave alike, so texts are explored up to the state they lead to *)
Quotes == {"'", "\"", "`"}

Modes == s.m \in LexModes

(* P04: lines are counted in every mode *)
Lines == s.m # "error" => s.l = nl + 1
TokenLines == \A i \in 1..Len(s.toks) :
  /\ s.toks[i].l \in 1..s.l
  /\ i > 1 => s.toks[i - 1].l <= s.toks[i].l

(* P01: the end of the text is always a decision *)
Ends == LET e == LexEnd(s) IN
  /\ e.m \in {"code", "line", "error"}
  /\ e.m = "error" => e.near \in {EOF, "`", "*", WideSpace}
  /\ e.m # "error" => e.t = "" /\ e.l = nl + 1

RECURSIVE Doubled(_, _)
Doubled(q, cs) ==                            \* cs with every q written twice
  IF cs = <<>> THEN "" ELSE (IF cs[1] = q THEN q \o q ELSE cs[1]) \o Doubled(q, Tail(cs))

Cs(t) == [ i \in 1..Len(t) |-> SubSeq(t, i, i) ]

(* P11: a quoted token is its content between its quotes, with its quotes doubled *)
Quoted == \A i \in 1..Len(s.toks) : LET t == s.toks[i] IN
  t.c \in Quotes => /\ t.t = t.c \o Doubled(t.c, Cs(t.u)) \o t.c
                    /\ t.k = t.t /\ ~t.n /\ t.d = "-"

(* words hold no separator, symbol or quote, except the point of a number *)
Bare == \A i \in 1..Len(s.toks) : LET t == s.toks[i] IN
  t.c = "w" => /\ t.t # ""
               /\ \A j \in 1..Len(t.t) : LET c == SubSeq(t.t, j, j) IN
                    /\ c \notin Blank \cup {"\n"} \cup Quotes
                    /\ c \in Symbols => c = "." /\ t.d \in {"f", "e", "x", "y", "-"}
               /\ t.u = t.t

(* P13: behind a semicolon the tokenizer is as at the beginning *)
Restart == (last = ";" /\ s.m = "code") =>
  s = [ LexInit EXCEPT !.toks = s.toks, !.l = s.l, !.u = s.u ] /\ s.toks[Len(s.toks)].k = ";"
=============================================================================
