----------------------------- MODULE MC_Sessions -----------------------------
(***************************************************************************)
(* All interleavings of a few clients, with the call split into the three  *)
(* stages the library has (tokens, validated tokens, tables).  Each stage  *)
(* works on private state only; TLC checks that the staged calls refine    *)
(* the atomic calls of Sessions and that outcomes are functional and       *)
(* stable.                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Clients, Keys, Values, Idle, MaxCalls

VARIABLES meaning, running, held, stage, private

S == INSTANCE Sessions

mvars == << meaning, running, held, stage, private >>

Calls == LET n[C \in SUBSET Clients] ==
               IF C = {} THEN 0
               ELSE LET c == CHOOSE x \in C : TRUE IN Len(held[c]) + n[C \ {c}]
         IN n[Clients]

MCInit == /\ meaning \in [ Keys -> Values ]
          /\ S!SessionsInit
          /\ stage = [ c \in Clients |-> "none" ]
          /\ private = [ c \in Clients |-> <<>> ]

Start(c) == \E k \in Keys :
  /\ Calls + Cardinality({ x \in Clients : running[x] # Idle }) < MaxCalls
  /\ S!Begin(c, k)
  /\ stage' = [ stage EXCEPT ![c] = "lex" ]
  /\ private' = [ private EXCEPT ![c] = << k >> ]

Advance(c, from, to) ==
  /\ stage[c] = from
  /\ stage' = [ stage EXCEPT ![c] = to ]
  /\ private' = [ private EXCEPT ![c] = Append(@, from) ]
  /\ UNCHANGED << meaning, running, held >>

Finish(c) ==
  /\ stage[c] = "convert"
  /\ S!End(c, meaning[private[c][1]])
  /\ stage' = [ stage EXCEPT ![c] = "none" ]
  /\ private' = [ private EXCEPT ![c] = <<>> ]

Overwrite(c) == \E i \in 1..Len(held[c]) : S!Spoil(c, i) /\ UNCHANGED << stage, private >>

MCNext == \E c \in Clients :
  Start(c) \/ Advance(c, "lex", "validate") \/ Advance(c, "validate", "convert") \/ Finish(c) \/ Overwrite(c)

MCSpec == MCInit /\ [][MCNext]_mvars /\ \A c \in Clients : WF_mvars(Advance(c, "lex", "validate")
                                        \/ Advance(c, "validate", "convert") \/ Finish(c))

Functional == S!Functional
Private == \A c \in Clients : running[c] # Idle => private[c][1] = running[c]
Stable == S!Stable
Returns == \A c \in Clients : (running[c] # Idle) ~> (running[c] = Idle)
=============================================================================
