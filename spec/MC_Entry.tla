------------------------------ MODULE MC_Entry ------------------------------
(***************************************************************************)
(* ParseForce as a machine, for every combination of what the dialects     *)
(* make of the text (P14).                                                 *)
(***************************************************************************)
EXTENDS Entry, TLC

VARIABLES parse, f
vars == << parse, f >>

Outcomes(d) == { [ k |-> "ok", tabs |-> << d >>, l |-> 0 ], [ k |-> "ok", tabs |-> << >>, l |-> 0 ],
                 [ k |-> "err", tabs |-> << >>, l |-> 1 ], [ k |-> "err", tabs |-> << >>, l |-> 2 ] }

Init == /\ parse \in [ Dialects -> UNION { Outcomes(d) : d \in Dialects } ]
        /\ f = ForceInit

Try == ~f.done /\ f' = ForceStep(parse, f) /\ UNCHANGED parse

Spec == Init /\ [][Try]_vars /\ WF_vars(Try)

Accepting == { i \in 1..3 : parse[Order[i]].k = "ok" }

First == f.done =>
  IF Accepting = {} THEN f.o = parse["MySQL"]
  ELSE f.o = parse[Order[CHOOSE i \in Accepting : \A j \in Accepting : i <= j]]

Function == f.done => f.o = Force(parse)
NoTables == (f.done /\ f.o.k = "err") => f.o.tabs = << >>
Halts == <>f.done
=============================================================================
