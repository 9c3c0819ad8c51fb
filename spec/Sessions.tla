------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Calls made by several clients, in sequence and concurrently (P16).      *)
(*                                                                         *)
(* A key stands for the arguments of a call (entry point and text), a      *)
(* value for its outcome.  meaning is the only thing outcomes depend on.   *)
(* Clients hold the results they were given, may overwrite them (spoil)    *)
(* and look at them again (reread).                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Clients, Keys, Values, Idle

VARIABLES meaning,    \* key -> value
          running,    \* client -> key of the call in progress, or Idle
          held        \* client -> sequence of results [k, o, spoiled]

svars == << meaning, running, held >>

SessionsInit == /\ running = [ c \in Clients |-> Idle ]
                /\ held = [ c \in Clients |-> <<>> ]

Begin(c, k) == /\ running[c] = Idle
               /\ running' = [ running EXCEPT ![c] = k ]
               /\ UNCHANGED << meaning, held >>

End(c, o) == /\ running[c] # Idle
             /\ o = meaning[running[c]]
             /\ held' = [ held EXCEPT ![c] = Append(@, [ k |-> running[c], o |-> o, spoiled |-> FALSE ]) ]
             /\ running' = [ running EXCEPT ![c] = Idle ]
             /\ UNCHANGED meaning

(* any number of calls in a row whose results are not kept; os their outcomes *)
Burst(c, k, os) == /\ running[c] = Idle
                   /\ \A o \in os : o = meaning[k]
                   /\ UNCHANGED svars

Spoil(c, i) == /\ i \in 1..Len(held[c]) /\ ~held[c][i].spoiled
               /\ held' = [ held EXCEPT ![c][i].spoiled = TRUE ]
               /\ UNCHANGED << meaning, running >>

Reread(c, i, o) == /\ i \in 1..Len(held[c]) /\ ~held[c][i].spoiled
                   /\ held[c][i].o = o
                   /\ UNCHANGED svars

(* What a user relies on *)
Functional ==      \* equal arguments, equal outcomes, whoever called and whenever
  \A c, e \in Clients : \A i \in 1..Len(held[c]), j \in 1..Len(held[e]) :
     held[c][i].k = held[e][j].k => held[c][i].o = held[e][j].o

Stable ==          \* a returned result is never changed by later calls
  [][ \A c \in Clients : \A i \in 1..Len(held[c]) :
        held'[c][i].k = held[c][i].k /\ held'[c][i].o = held[c][i].o ]_svars
=============================================================================
