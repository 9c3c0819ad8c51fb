------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* The binary floating-point number nearest to a decimal number, ties to   *)
(* the even one.  A float is m * 2^q with 0 <= m < 2^Bits and              *)
(* QMin <= q <= QMax, normalised: m >= 2^(Bits - 1) or q = QMin.           *)
(*                                                                         *)
(* TLC integers have 32 bits.  A non-negative number is held exactly in    *)
(* base 10000: the limbs i in front of the point and f behind it.  It is   *)
(* halved and doubled until the integer part has Bits bits; what is left   *)
(* behind the point decides the rounding.                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

CONSTANTS Bits, QLow, QMax

QMin == 0 - QLow

Base == 10000

RECURSIVE NoZeros(_)
NoZeros(ls) == IF ls # <<>> /\ ls[1] = 0 THEN NoZeros(Tail(ls)) ELSE ls

RECURSIVE NoEndZeros(_)
NoEndZeros(ls) == IF ls # <<>> /\ ls[Len(ls)] = 0 THEN NoEndZeros(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls

(* limbs of a sequence of decimal digits whose length is a multiple of 4 *)
Limbs(ds) == [ k \in 1..(Len(ds) \div 4) |->
               1000 * ds[4 * k - 3] + 100 * ds[4 * k - 2] + 10 * ds[4 * k - 1] + ds[4 * k] ]

Zeros(n) == [ k \in 1..n |-> 0 ]

(* the number  ds * 10^ex,  ds a sequence of decimal digits *)
Number(ds, ex) ==
  LET whole == IF ex >= 0 THEN ds \o Zeros(ex)
               ELSE SubSeq(ds, 1, IF Len(ds) + ex > 0 THEN Len(ds) + ex ELSE 0)
      part == IF ex >= 0 THEN <<>>
              ELSE IF Len(ds) + ex > 0 THEN SubSeq(ds, Len(ds) + ex + 1, Len(ds))
              ELSE Zeros(0 - (Len(ds) + ex)) \o ds
      up(n) == (4 - (n % 4)) % 4
  IN [ i |-> NoZeros(Limbs(Zeros(up(Len(whole))) \o whole)),
       f |-> NoEndZeros(Limbs(part \o Zeros(up(Len(part))))) ]

Two == << 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192 >>

(* times 2^k, 1 <= k <= 13 *)
Double(x, k) ==
  LET times(l, acc) == LET v == l * Two[k] + acc.c IN
                       [ c |-> v \div Base, ls |-> << v % Base >> \o acc.ls ]
      f == FoldRight(times, x.f, [ c |-> 0, ls |-> <<>> ])
      i == FoldRight(times, x.i, [ c |-> f.c, ls |-> <<>> ])
  IN [ i |-> IF i.c = 0 THEN i.ls ELSE << i.c >> \o i.ls, f |-> NoEndZeros(f.ls) ]

(* divided by 2^k, 1 <= k <= 13: four more limbs hold the result exactly *)
Halve(x, k) ==
  LET over(acc, l) == LET v == acc.r * Base + l IN
                      [ r |-> v % Two[k], ls |-> Append(acc.ls, v \div Two[k]) ]
      i == FoldLeft(over, [ r |-> 0, ls |-> <<>> ], x.i)
      f == FoldLeft(over, [ r |-> i.r, ls |-> <<>> ], x.f \o Zeros(4))
  IN [ i |-> NoZeros(i.ls), f |-> NoEndZeros(f.ls) ]

(* a < b for limbs without leading zeros *)
Less(a, b) == \/ Len(a) < Len(b)
              \/ /\ Len(a) = Len(b)
                 /\ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]

RECURSIVE PowerOfTwo(_)
PowerOfTwo(n) == IF n = 0 THEN << 1 >>
                 ELSE LET k == IF n > 13 THEN 13 ELSE n IN
                      Double([ i |-> PowerOfTwo(n - k), f |-> <<>> ], k).i

Low == PowerOfTwo(Bits - 1)
High == PowerOfTwo(Bits)

RECURSIVE Scaled(_, _)
Scaled(x, q) ==
  IF ~Less(x.i, High)
  THEN LET k == IF Len(x.i) >= Len(High) + 2 THEN 13 ELSE 1 IN Scaled(Halve(x, k), q + k)
  ELSE IF Less(x.i, Low) /\ q > QMin
  THEN LET far == Len(x.i) + 2 <= Len(Low)
           k == IF ~far THEN 1 ELSE IF q - QMin < 13 THEN q - QMin ELSE 13
       IN Scaled(Double(x, k), q - k)
  ELSE IF q < QMin THEN Scaled(Halve(x, 1), q + 1)
  ELSE [ i |-> x.i, f |-> x.f, q |-> q ]

AddOne(ls) == LET r == FoldRight(LAMBDA l, acc : [ c |-> (l + acc.c) \div Base, ls |-> << (l + acc.c) % Base >> \o acc.ls ],
                                 ls, [ c |-> 1, ls |-> <<>> ])
              IN IF r.c = 0 THEN r.ls ELSE << r.c >> \o r.ls

(* the nearest float as [ m |-> limbs, q ], or infinity *)
Infinity == [ m |-> <<>>, q |-> QMax + 1 ]
Zero == [ m |-> <<>>, q |-> QMin ]
Nearest(ds, ex) ==
  LET x == Scaled(Number(ds, ex), 0)
      odd == x.i # <<>> /\ x.i[Len(x.i)] % 2 = 1
      up == x.f # <<>> /\ (x.f[1] > 5000 \/ (x.f[1] = 5000 /\ (Len(x.f) > 1 \/ odd)))
      m == IF up THEN AddOne(x.i) ELSE x.i
      full == m = High
      q == IF full THEN x.q + 1 ELSE x.q
  IN IF m = <<>> THEN Zero
     ELSE IF q > QMax THEN Infinity
     ELSE [ m |-> IF full THEN Low ELSE m, q |-> q ]

Padded(l) == LET s == ToString(l) IN
  (IF l < 10 THEN "000" ELSE IF l < 100 THEN "00" ELSE IF l < 1000 THEN "0" ELSE "") \o s

LimbText(ls) == IF ls = <<>> THEN "0"
                ELSE FoldLeft(LAMBDA a, l : a \o Padded(l), ToString(ls[1]), Tail(ls))

FloatText(x) == LimbText(x.m) \o "p" \o ToString(x.q)
=============================================================================
