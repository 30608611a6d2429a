------------------------------ MODULE FltTrace ------------------------------
(* Trace validation of floating point conversions.                         *)
EXTENDS Num, Flt, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k
r == Recs[i]
Init == i \in 1..Len(Recs) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, k>>
F == IF r.w = "f" THEN Float ELSE Double
Of(x) == k = 1 /\ r.kind = x
\* a number in the source gives the nearest value, with its sign; what is no number is refused
Parsed == Of("P") => LET n == Decimal(r.raw) IN
  /\ r.ok = n.ok
  /\ (n.ok /\ Len(n.d) <= 19) => /\ r.v.neg = n.neg /\ ~r.v.nan
                                 /\ r.v.inf \/ IsFloat(F, r.v)
                                 /\ Rounds(F, FromDigits(n.d), n.e, r.v)
\* a value is written as a shortest number that denotes it, and is read back from it
\* (not necessarily the closest one of this length)
Written == Of("W") => LET n == Decimal(r.raw) IN
  /\ n.ok /\ r.ok /\ n.neg = r.v.neg
  /\ LET d == FromDigits(n.d) IN Rounds(F, d, n.e, r.v) /\ Shortest(F, d, n.e, r.v)
=============================================================================
