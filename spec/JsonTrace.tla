------------------------------ MODULE JsonTrace ------------------------------
(***************************************************************************)
(* Validation of recorded JSON forms: a line of TRACE holds the outcome o  *)
(* of a call, the JSON form j of its tables and the tables b that decoding *)
(* that form gives.                                                        *)
(***************************************************************************)
EXTENDS JsonForm, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES line, verdict
vars == << line, verdict >>

Allowed(e) == e.o.k = "ok" => IsForm(e.j, e.o.tabs) /\ e.b = e.o.tabs

JsonInit == line \in 1..Len(Trace) /\ verdict = "recorded"

Encoded == /\ verdict = "recorded"
           /\ verdict' = IF Allowed(Trace[line]) THEN "explained" ELSE "refused"
           /\ verdict' = "refused" => PrintT("REFUSED " \o ToString(line))
           /\ UNCHANGED line

JsonSpec == JsonInit /\ [][Encoded]_vars

Examined == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
