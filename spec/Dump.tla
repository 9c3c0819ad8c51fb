-------------------------------- MODULE Dump --------------------------------
(* Writes the grammar tables and word lists as JSON, for the input generators. *)
EXTENDS Grammar, Json, IOUtils

ASSUME JsonSerialize(IOEnv.OUT, [ grammar |-> Grammar, reserved |-> Reserved ])

=============================================================================
