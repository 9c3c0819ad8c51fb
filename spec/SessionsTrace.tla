---------------------------- MODULE SessionsTrace ----------------------------
(***************************************************************************)
(* Validation of recorded sessions.  TRACE holds the events of one process *)
(* (begin, end, burst, spoil, reread; c client, k key, i number of the call of    *)
(* the client, from 0, o outcome digest); SOLO holds the outcomes of the   *)
(* same calls made alone in a fresh process, one {"o"} per key.  A data    *)
(* race reported by the race detector is an event (race) that nothing      *)
(* explains.  A refused event is printed; a refused end is then taken as   *)
(* it was observed, so that the rest of the trace is examined.             *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Naturals, Integers, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)
Solo == ndJsonDeserialize(IOEnv.SOLO)

TheClients == { Trace[i].c : i \in 1..Len(Trace) }

VARIABLES meaning, running, held, line

S == INSTANCE Sessions WITH Clients <- TheClients, Keys <- 1..Len(Solo), Values <- {}, Idle <- 0

vars == << meaning, running, held, line >>

TraceInit == /\ S!SessionsInit
             /\ meaning = [ k \in 1..Len(Solo) |-> Solo[k].o ]
             /\ line = 1

Explained(e) ==
  \/ e.ev = "begin" /\ S!Begin(e.c, e.k + 1)
  \/ e.ev = "end" /\ running[e.c] = e.k + 1 /\ Len(held[e.c]) = e.i /\ S!End(e.c, e.o)
  \/ e.ev = "burst" /\ S!Burst(e.c, e.k + 1, { e.os[i] : i \in 1..Len(e.os) })
  \/ e.ev = "spoil" /\ S!Spoil(e.c, e.i + 1)
  \/ e.ev = "reread" /\ S!Reread(e.c, e.i + 1, e.o)

Refused(e) ==
  /\ PrintT("REFUSED " \o ToString(line))
  /\ IF e.ev = "end"
     THEN /\ held' = [ held EXCEPT ![e.c] = Append(@, [ k |-> e.k + 1, o |-> e.o, spoiled |-> FALSE ]) ]
          /\ running' = [ running EXCEPT ![e.c] = 0 ]
          /\ UNCHANGED meaning
     ELSE UNCHANGED << meaning, running, held >>

Event == /\ line <= Len(Trace)
         /\ LET e == Trace[line] IN
            IF ENABLED Explained(e) THEN Explained(e) ELSE Refused(e)
         /\ line' = line + 1

TraceSpec == TraceInit /\ [][Event]_vars

View == line

Examined == TLCGet("stats").distinct = Len(Trace) + 1
=============================================================================
