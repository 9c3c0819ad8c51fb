----------------------------- MODULE Properties -----------------------------
(***************************************************************************)
(* What each property of properties.jsonl requires of one recorded call.   *)
(* e is the recorded call: dialect d, text x, outcome o; want is the       *)
(* outcome the specification computes for the same dialect and text.       *)
(*                                                                         *)
(* Observed outcomes have k = "ok" or "err", or, when the call did not     *)
(* return normally, "panic", "crash", "hang" or "memory".                  *)
(***************************************************************************)
EXTENDS Parser

NewLines(x) == Len(SelectSeq(x, LAMBDA c : c = "\n"))

Map(f(_), s) == [ i \in 1..Len(s) |-> f(s[i]) ]

(* P01: the call returns, with tables or with an error that points into the text *)
NearIsToken(d, x, near) ==
  \/ near = EOF
  \/ LET s == Lex(d, x) IN
     \/ s.m = "error" /\ near = s.near
     \/ \E i \in 1..Len(s.toks) : s.toks[i].t = near

Returns(e) ==
  \/ e.o.k = "ok"
  \/ /\ e.o.k = "err"
     /\ e.o.tabs = <<>>
     /\ e.o.l \in 1..(NewLines(e.x) + 1)
     /\ NearIsToken(IF e.d = "Force" THEN "MySQL" ELSE e.d, e.x, e.o.near)

(* The same for a text too large to be logged: nl newlines, sub: near occurs in the text *)
ReturnsLight(e) ==
  \/ e.o.k = "ok"
  \/ e.o.k = "err" /\ e.o.tabs = <<>> /\ e.o.l \in 1..(e.nl + 1) /\ e.sub

(* Projections of a table *)
Heading(t) == << t.s, t.n, t.i >>
Shape(t) == Map(LAMBDA c : << c.n, c.t, c.dn, c.dm >>, t.c)
ColumnConstraints(t) ==
  Map(LAMBDA c : << c.cn, c.pk, c.uq, c.nn, c.ai, c.df, c.ck, c.co, c.rt, c.rc >>, t.c)
TableConstraints(t) == << t.pk, t.uq, t.ck, t.fk >>
Defaults(t) == Map(LAMBDA c : c.df, t.c)

Same(f(_), want, o) == o.k = "ok" /\ Map(f, want.tabs) = Map(f, o.tabs)

IfAccepted(want, ok) == want.k = "ok" => ok

Decision(want, o) == want.k = o.k           \* acceptance

Holds(prop, e, want) ==
  CASE prop = "P01" -> Returns(e)
    [] prop = "P01light" -> ReturnsLight(e)
    [] prop = "P02" -> IfAccepted(want, e.o.k = "ok")
    [] prop = "P03" -> want.k = "err" => e.o.k = "err" /\ e.o.tabs = <<>>
    [] prop = "P04" -> want.k = "err" /\ e.o.k = "err" => want.l = e.o.l /\ want.near = e.o.near
    [] prop = "P05" -> IfAccepted(want, Same(Heading, want, e.o))
    [] prop = "P06" -> IfAccepted(want, Same(Shape, want, e.o))
    [] prop = "P07" -> IfAccepted(want, Same(ColumnConstraints, want, e.o))
    [] prop = "P08" -> IfAccepted(want, Same(TableConstraints, want, e.o))
    [] prop = "P09" -> IfAccepted(want, e.o = want)
    [] prop = "P10" -> Decision(want, e.o) /\ want.tabs = e.o.tabs /\ want.near = e.o.near
    [] prop = "P11" -> Decision(want, e.o) /\ want.tabs = e.o.tabs
    [] prop = "P12" -> Decision(want, e.o) /\ want.tabs = e.o.tabs
    [] prop = "P13" -> want = e.o
    [] prop = "P15" -> Decision(want, e.o) /\ want.tabs = e.o.tabs
    [] prop = "P17" -> Decision(want, e.o) /\ IfAccepted(want, Same(Defaults, want, e.o))
    [] prop = "P19" -> IfAccepted(want, e.o.k = "ok" /\ e.o.tabs = want.tabs)
    [] prop = "ALL" -> want = e.o

=============================================================================
