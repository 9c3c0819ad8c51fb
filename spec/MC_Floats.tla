------------------------------ MODULE MC_Floats ------------------------------
(***************************************************************************)
(* Rounding to the nearest float (P17), checked for small formats on every *)
(* decimal with few digits: no float of the format is nearer, and of two   *)
(* equally near ones the even one is taken.  Values are compared as        *)
(* integers, in units of 10^-MaxEx * 2^QMin.                               *)
(***************************************************************************)
EXTENDS Floats, FiniteSets

CONSTANTS MaxDigits, MaxEx

VARIABLES ds, ex
vars == << ds, ex >>

Init == ds \in { << k >> : k \in 0..9 } /\ ex \in (0 - MaxEx)..1
Next == \E k \in 0..9 : Len(ds) < MaxDigits /\ ds' = Append(ds, k) /\ UNCHANGED ex
Spec == Init /\ [][Next]_vars

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

Written == FoldLeft(LAMBDA a, k : 10 * a + k, 0, ds) * Pow(10, ex + MaxEx) * Pow(2, 0 - QMin)

FromLimbs(ls) == FoldLeft(LAMBDA a, l : Base * a + l, 0, ls)
Size(m, q) == m * Pow(2, q - QMin) * Pow(10, MaxEx)

Floats == ({ << m, q >> : m \in Pow(2, Bits - 1)..(Pow(2, Bits) - 1), q \in QMin..QMax }
           \cup { << m, QMin >> : m \in 0..(Pow(2, Bits - 1) - 1) })

Gap(a, b) == IF a < b THEN b - a ELSE a - b

Result == Nearest(ds, ex)

Right ==
  LET r == Result IN
  IF r = Infinity
  THEN Written >= Size(2 * Pow(2, Bits) - 1, QMax) \div 2
  ELSE LET me == << FromLimbs(r.m), r.q >> IN
       /\ me \in Floats
       /\ \A g \in Floats \ {me} :
            LET a == Gap(Written, Size(me[1], me[2]))
                b == Gap(Written, Size(g[1], g[2]))
            IN a < b \/ (a = b /\ me[1] % 2 = 0)
       /\ Written < Size(2 * Pow(2, Bits) - 1, QMax) \div 2 
=============================================================================
