----------------------------- MODULE MC_Numbers -----------------------------
(***************************************************************************)
(* Default literals (P17): every string over the characters of numbers up  *)
(* to a length.  Which of them are numbers, and their value, is said here  *)
(* declaratively and compared with what the machine makes of               *)
(* CREATE TABLE t (x1 T DEFAULT <string>).                                 *)
(***************************************************************************)
EXTENDS Parser

CONSTANTS MaxLen, Signs

VARIABLES d, cs
vars == << d, cs >>

Alphabet == {"0", "7", "9", ".", "e"} \cup Signs

Init == d \in Dialects /\ cs = <<>>
Next == \E c \in Alphabet : Len(cs) < MaxLen /\ cs' = Append(cs, c) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars

AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digits
Signed(s) == AllDigits(s) \/ (s # <<>> /\ s[1] \in {"+", "-"} /\ AllDigits(Tail(s)))

(* [+-] digits [ . digits ] [ e [+-] digits ] *)
IsReading(s, i, j) ==
  /\ Signed(SubSeq(s, 1, i))
  /\ j = i \/ (i < j - 1 /\ s[i + 1] = "." /\ AllDigits(SubSeq(s, i + 2, j)))
  /\ j = Len(s) \/ (s[j + 1] = "e" /\ Signed(SubSeq(s, j + 2, Len(s))))

Readings(s) == { << i, j >> \in (1..Len(s)) \X (1..Len(s)) : i <= j /\ IsReading(s, i, j) }

Count(ds) == FoldLeft(LAMBDA a, c : a * 10 + DigitVal[c], 0, ds)
IntVal(ds) == IF ds = <<>> THEN 0 ELSE IF ds[1] = "-" THEN 0 - Count(Tail(ds))
           ELSE IF ds[1] = "+" THEN Count(Tail(ds)) ELSE Count(ds)

(* mantissa as an integer, and the power of ten that goes with it *)
Meaning(s) == LET r == CHOOSE r \in Readings(s) : TRUE
                  i == r[1]
                  j == r[2]
                  whole == SubSeq(s, 1, i)
                  frac == IF j = i THEN <<>> ELSE SubSeq(s, i + 2, j)
                  ex == IF j = Len(s) THEN 0 ELSE IntVal(SubSeq(s, j + 2, Len(s)))
              IN << s[1] = "-", Count(Unsigned(whole) \o frac), ex - Len(frac) >>

(* the float nearest to it (module Floats, MC_Floats) *)
FloatOf(s) == LET v == Meaning(s) IN
  IF v[2] = 0 THEN "0"
  ELSE (IF v[1] THEN "-" ELSE "") \o Float64!FloatText(Float64!Nearest(
          [ i \in 1..Len(ToString(v[2])) |-> DigitVal[Chars(ToString(v[2]))[i]] ], v[3]))

Text == Str2(cs)
Outcome == Parse(d, Chars("CREATE TABLE t (x1 " \o (IF d = "SQLite" THEN "TEXT" ELSE "INT") \o " DEFAULT " \o Text \o ");"))

Small == \A r \in Readings(cs) : r[2] = Len(cs) \/ Len(cs) - r[2] <= 4      \* exponents up to 3 characters

Unambiguous == \A r, q \in Readings(cs) : r = q

Right == (cs # <<>> /\ Small) =>
  IF Readings(cs) # {}
  THEN \/ Outcome.k = "ok" /\ Outcome.tabs[1].c[1].df = [ k |-> "num", v |-> FloatOf(cs) ]
       \/ \E r \in Readings(cs) : r[2] < Len(cs) /\ IntVal(SubSeq(cs, r[2] + 2, Len(cs))) > 300
       \/ \E r \in Readings(cs) : r[2] < Len(cs) /\ IntVal(SubSeq(cs, r[2] + 2, Len(cs))) < 0 - 300
  ELSE Outcome.k = "err" \/ \E k \in 1..(Len(cs) - 1) : cs[k] = "-" /\ cs[k + 1] = "-"   \* a comment
=============================================================================
