-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Exploration of the pushdown machine of module Parser over all token     *)
(* sequences, and generation of sentences from it.                         *)
(*                                                                         *)
(* A state is a configuration of the machine that waits for its next       *)
(* token.  Feed appends one unit (a token; NOT comes together with the     *)
(* token after it, because the machine looks one token ahead there) and    *)
(* runs the machine until it has consumed it.  The view drops everything   *)
(* the future does not depend on (what has been built, the tokens read),   *)
(* so that TLC visits every reachable configuration once, by a shortest    *)
(* path.                                                                   *)
(*                                                                         *)
(* Checked in every configuration:                                         *)
(*   Viable     the prefix read so far can be completed to an accepted     *)
(*              text: an error is never reported late (P04), and the       *)
(*              grammar has no dead ends (P02)                             *)
(*   Prompt     between two tokens the machine makes boundedly many steps, *)
(*              so that it halts on every text (P01)                       *)
(*   Exact      a refused unit is refused at its own token (P03, P04)      *)
(*   Settled    where a statement may begin, nothing of the previous       *)
(*              statements is left on the stack (P13)                      *)
(*   Counted    there are as many tables as CREATE TABLE statements (P05)  *)
(* With EMIT, each configuration is printed with its prefix and, for each  *)
(* unit the machine accepts there, the unit, the configuration reached and *)
(* a completion: replaying them covers every transition of the machine,    *)
(* and every pair of consecutive transitions.                              *)
(***************************************************************************)
EXTENDS Parser, FiniteSets, Json, IOUtils, TLCExt

CONSTANTS MaxTags,       \* column constraint kinds on one column
          MaxDepth,      \* bracket nesting inside expressions
          Emit           \* print the configurations

-----------------------------------------------------------------------------
(* Vocabulary *)

RECURSIVE KwSyms(_), KwAlts(_)
KwSyms(r) == UNION { CASE r[i].k = "kw" -> r[i].w
                       [] r[i].k = "alts" -> KwAlts(r[i].a)
                       [] OTHER -> {} : i \in 1..Len(r) }
KwAlts(as) == UNION { as[j].w \cup KwSyms(as[j].r) : j \in 1..Len(as) }

Keywords(d) == UNION { KwAlts(Grammar[d][x]) : x \in DOMAIN Grammar[d] }

Samples == {"nm", "'s'", "\"q\"", "7", "-7", "0", "1.5", "+", "NULL", "TRUE", "CURRENT_DATE",
            "BEGIN", "END", "(", ")", ",", ".", ";", "="}

TokenOf(d, w) == Lex(d, Chars(w)).toks[1]

Vocabulary == [ d \in Dialects |->
  { TokenOf(d, w) : w \in Keywords(d) \cup Samples \cup (IF d = "PostgreSQL" THEN {} ELSE {"`q`"}) } ]

Units(d) == { << t >> : t \in { t \in Vocabulary[d] : t.k # "NOT" } }
       \cup { << TokenOf(d, "NOT"), t >> : t \in { t \in Vocabulary[d] : t.k # "NOT" } }

AllUnits == [ d \in Dialects |-> Units(d) ]

-----------------------------------------------------------------------------
(* A shortest way out of a configuration *)

RECURSIVE Finish(_, _), FinishAlts(_, _)
FinishAlts(d, as) ==
  LET eofs == { j \in 1..Len(as) : as[j].c = {"eof"} }
      j == IF eofs # {} THEN CHOOSE j \in eofs : TRUE
           ELSE IF as[Len(as)].c = {"any"} THEN Len(as) ELSE 1
  IN Finish(d, as[j].r)

FinishSym(d, s) ==
  CASE s.k = "kw" -> << CHOOSE w \in s.w : TRUE >>
    [] s.k = "name" -> << "nn" >>
    [] s.k = "str" -> << "'x'" >>
    [] s.k = "pos" -> << "3" >>
    [] s.k = "lit" -> << "5" >>
    [] s.k = "par" -> << "(", "e", ")" >>
    [] s.k = "inpar" -> [ i \in 1..s.depth |-> ")" ]
    [] s.k = "skip" -> << ";" >>
    [] s.k = "skipping" -> IF s.begun THEN << "END", ";" >> ELSE << ";" >>
    [] s.k = "alts" -> FinishAlts(d, s.a)
    [] s.k = "nt" -> FinishAlts(d, Grammar[d][s.n])
    [] OTHER -> <<>>

Finish(d, r) == FoldLeft(LAMBDA a, s : a \o FinishSym(d, s), <<>>, r)

-----------------------------------------------------------------------------
VARIABLES d, toks, p
vars == << d, toks, p >>

RECURSIVE Steps(_, _, _, _, _)               \* as StepsAt, counting
Steps(dd, ts, q, i, n) ==
  IF q.r # "run" \/ q.i > i THEN [ q |-> q, n |-> n ]
  ELSE Steps(dd, ts, ParseStep(dd, ts, q), i, n + 1)

Run(dd, ts, q) ==                            \* consume all of ts
  FoldLeft(LAMBDA a, i : StepsAt(dd, ts, a, i), q, [ i \in 1..Len(ts) |-> i ])

After(unit) == Run(d, toks \o unit, p)

Final(words) ==                              \* the outcome of toks followed by words
  ParseTokens(d, toks \o [ i \in 1..Len(words) |-> TokenOf(d, words[i]) ] \o << EofToken(1) >>)

Depth(q) == IF q.st # <<>> /\ q.st[1].k = "inpar" THEN q.st[1].depth ELSE 0

Small(q) == Cardinality(q.tags) <= MaxTags /\ Depth(q) <= MaxDepth

Init == d \in (IF IOEnv.DIALECT = "all" THEN Dialects ELSE {IOEnv.DIALECT}) /\ toks = <<>> /\ p = ParseInit

Feed == \E unit \in AllUnits[d] :
  LET q == After(unit) IN
  /\ q.r = "run" /\ Small(q)
  /\ toks' = toks \o unit
  /\ p' = q
  /\ UNCHANGED d

Spec == Init /\ [][Feed]_vars

(* The future depends on the stack, on the tags while a column is open, and on nothing else *)
InColumn(q) == \E i \in 1..Len(q.st) : q.st[i].k = "do" /\ q.st[i].n = "colend"
ViewOf(q) == << d, q.st, IF InColumn(q) THEN q.tags ELSE {} >>
View == ViewOf(p)

-----------------------------------------------------------------------------
Viable == Final(Finish(d, p.st)).k = "ok"

Prompt == \A unit \in AllUnits[d] :
  LET ts == toks \o unit IN
  Steps(d, ts, p, Len(toks) + 1, 0).n <= 40

Exact == \A unit \in AllUnits[d] :
  LET q == After(unit) IN
  q.r # "run" => q.r = "err" /\ q.i > Len(toks)

TableStatements ==
  Cardinality({ i \in 1..(Len(toks) - 1) : toks[i].k \in {"CREATE", "TEMP", "TEMPORARY"}
                                        /\ toks[i + 1].k = "TABLE" })
Settled == p.st = Start => p.i = Len(toks) + 1 /\ (toks = <<>> \/ toks[Len(toks)].k = ";")
Counted == p.st = Start => Len(p.tabs) = TableStatements

Words(ts) == [ i \in 1..Len(ts) |-> ts[i].t ]

Printed == Emit => PrintT("WALK " \o ToJson(
  [ d |-> d, at |-> TLCFP(View), prefix |-> Words(toks), finish |-> Finish(d, p.st),
    next |-> { LET q == After(unit) IN
               [ unit |-> Words(unit), to |-> TLCFP(ViewOf(q)), finish |-> Finish(d, q.st) ] :
               unit \in { u \in AllUnits[d] : After(u).r = "run" } } ]))
=============================================================================
