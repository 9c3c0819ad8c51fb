------------------------------ MODULE MC_Layout ------------------------------
(***************************************************************************)
(* Two tokenizers read two layouts of one text in step: a reads the text,  *)
(* b reads it with other separators (Vary = "layout": P10) or in another   *)
(* letter case (Vary = "case": P12).  Whatever the text, both see the same *)
(* tokens.                                                                 *)
(***************************************************************************)
EXTENDS Lexer, TLC

CONSTANTS MaxLen, MaxVar, Vary

Alphabet == IF Vary = "layout"
            THEN {"a", "1", "'", "\"", "`", "-", "/", "*", "#", "(", "."}
            ELSE {"a", "Z", "e", "1", "'", "`", "-", "/", "*", "#", "\n", " ", "("}

Quotes(dd) == IF dd = "PostgreSQL" THEN {"'", "\""} ELSE {"'", "\"", "`"}

(* Separators: blanks and comments with contents that would matter elsewhere *)
Seps(dd) == { << " " >>, << "\n" >>, << "\t", " " >>, << "\r", "\n" >>,
              << "-", "-", "'", "\n" >>, << "-", "-", "\n" >>,
              << "/", "*", "*", "/" >>, << "/", "*", "'", "\n", "*", "/" >>,
              << " ", "/", "*", "/", "*", "*", "*", "/" >> }
         \cup IF dd = "MySQL" THEN { << "#", "\"", "\n" >> } ELSE {}

VARIABLES d, a, b, n, v, pend
vars == << d, a, b, n, v, pend >>

LexAll(dd, s, cs) == FoldLeft(LAMBDA x, c : LexStep(dd, x, c), s, cs)

Init == d \in Dialects /\ a = LexInit /\ b = LexInit /\ n = 0 /\ v = 0 /\ pend = {}

InCode(s) == s.m \in {"code", "dash", "slash", "star", "dot", "quote2"}

(* The next character goes to both.  After a one-sided separator it must be one that does not  *)
(* need a separator on the other side (pend: the characters allowed).                         *)
Both == \E c \in Alphabet :
  /\ n < MaxLen /\ a.m # "error"
  /\ pend # {} => c \in pend
  /\ a' = LexStep(d, a, c)
  /\ b' = LexStep(d, b, IF Vary = "case" /\ InCode(a) /\ a.m # "quote2" THEN Up(c) ELSE c)
  /\ n' = n + 1 /\ pend' = {}
  /\ UNCHANGED << d, v >>

(* Glued to the last character, a separator must not form a mark of its own: "-" "--", "*" "/"  *)
Fits(s, y) == ~(s.m = "dash" /\ y[1] = "-") /\ ~(s.m = "star" /\ y[1] = "/")

(* a separator on both sides, not the same one *)
Replace == \E x, y \in Seps(d) :
  /\ Vary = "layout" /\ InCode(a) /\ n < MaxLen /\ v < MaxVar /\ pend = {}
  /\ Fits(a, x) /\ Fits(b, y)
  /\ a' = LexAll(d, a, x) /\ b' = LexAll(d, b, y)
  /\ n' = n + 1 /\ v' = v + 1 /\ pend' = {}
  /\ UNCHANGED d

(* a separator on one side, next to a token that ends or begins by itself *)
Insert == \E y \in Seps(d) :
  /\ Vary = "layout" /\ InCode(a) /\ v < MaxVar /\ pend = {} /\ Fits(b, y)
  /\ b' = LexAll(d, b, y)
  /\ v' = v + 1
  /\ pend' = IF a.m = "code" /\ a.t = "" THEN Alphabet
             ELSE IF a.m = "quote2" THEN Alphabet \ {a.q}
             ELSE (Symbols \cup Quotes(d)) \ (IF a.m = "code" /\ a.d = "i" THEN {"."} ELSE {})
  /\ UNCHANGED << d, a, n >>

Next == Both \/ Replace \/ Insert
Spec == Init /\ [][Next]_vars

Forget(s) == [ s EXCEPT !.l = 0, !.toks = [ i \in 1..Len(s.toks) |-> [ s.toks[i] EXCEPT !.l = 0 ] ] ]

Key(t) == << t.k, t.c, t.n, t.d, IF t.c = "w" THEN t.k ELSE t.u >>
Keys(s) == << s.m, s.near, [ i \in 1..Len(s.toks) |-> Key(s.toks[i]) ] >>

Same == pend = {} => IF Vary = "layout"
                     THEN Forget(LexEnd(a)).toks = Forget(LexEnd(b)).toks
                          /\ (LexEnd(a).m = "error" <=> LexEnd(b).m = "error")
                          /\ LexEnd(a).near = LexEnd(b).near
                     ELSE Keys(LexEnd(a)) = Keys(LexEnd(b))
=============================================================================
