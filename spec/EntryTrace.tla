----------------------------- MODULE EntryTrace -----------------------------
(***************************************************************************)
(* Validation of recorded entry-point calls: a line of TRACE holds, for    *)
(* one text, the outcomes of Parse (parse), of ParseSQLite, ParsePostgreSQL*)
(* and ParseMySQL (direct), and of ParseForce (force).                     *)
(***************************************************************************)
EXTENDS Entry, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES line, verdict
vars == << line, verdict >>

Returned(o) == o.k = "ok" \/ (o.k = "err" /\ o.tabs = <<>> /\ o.l > 0)

Allowed(e) ==
  /\ \A d \in Dialects : e.direct[d] = Direct(e.parse, d)
  /\ e.force = Force(e.parse)
  /\ Returned(e.force)

EntryInit == line \in 1..Len(Trace) /\ verdict = "recorded"

Calls == /\ verdict = "recorded"
         /\ verdict' = IF Allowed(Trace[line]) THEN "explained" ELSE "refused"
         /\ verdict' = "refused" => PrintT("REFUSED " \o ToString(line))
         /\ UNCHANGED line

EntrySpec == EntryInit /\ [][Calls]_vars

Examined == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
