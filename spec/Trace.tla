------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded calls.  The file named by the environment        *)
(* variable TRACE holds one call of the real library per line: dialect d   *)
(* ("Force" for ParseForce), text x (a sequence of characters) and the     *)
(* observed outcome o.  A call is explained iff it is a call the           *)
(* specification allows, as far as the property named by PROPERTY can see. *)
(* Lines that are refused are printed; the postcondition asserts that      *)
(* every line of the trace was examined.                                   *)
(***************************************************************************)
EXTENDS Properties, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.PROPERTY

VARIABLES line, verdict
vars == << line, verdict >>

Specified(e) == IF Property \in {"P01", "P01light"} THEN << >>
                ELSE IF e.d = "Force" THEN ParseForce(e.x)
                ELSE Parse(e.d, e.x)

TraceInit == line \in 1..Len(Trace) /\ verdict = "recorded"

Call == /\ verdict = "recorded"
        /\ verdict' = IF Holds(Property, Trace[line], Specified(Trace[line]))
                      THEN "explained" ELSE "refused"
        /\ verdict' = "refused" => PrintT("REFUSED " \o ToString(line))
        /\ UNCHANGED line

TraceSpec == TraceInit /\ [][Call]_vars

Examined == TLCGet("stats").distinct = 2 * Len(Trace)

=============================================================================
