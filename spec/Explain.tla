------------------------------ MODULE Explain ------------------------------
(* Writes, for each line of TRACE, the outcome the specification computes. *)
EXTENDS Parser, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Specified(e) == IF e.d = "Force" THEN ParseForce(e.x) ELSE Parse(e.d, e.x)

ASSUME ndJsonSerialize(IOEnv.OUT, [ i \in 1..Len(Trace) |-> Specified(Trace[i]) ])

=============================================================================
