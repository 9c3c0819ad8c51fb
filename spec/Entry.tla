------------------------------- MODULE Entry -------------------------------
(***************************************************************************)
(* The entry points of the library (P14).                                  *)
(*                                                                         *)
(* parse is the meaning of Parse for one text: an outcome per dialect.     *)
(* The entry points are defined by it.  ParseForce is a small machine that *)
(* tries the dialects in order and stops at the first that accepts.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Order == << "SQLite", "PostgreSQL", "MySQL" >>
Dialects == { Order[i] : i \in 1..Len(Order) }

ForceInit == [ tried |-> 0, done |-> FALSE, o |-> << >> ]

ForceStep(parse, f) ==
  LET o == parse[Order[f.tried + 1]] IN
  [ tried |-> f.tried + 1, done |-> o.k = "ok" \/ f.tried + 1 = Len(Order), o |-> o ]

RECURSIVE ForceRun(_, _)
ForceRun(parse, f) == IF f.done THEN f.o ELSE ForceRun(parse, ForceStep(parse, f))

Force(parse) == ForceRun(parse, ForceInit)

Direct(parse, d) == parse[d]
=============================================================================
