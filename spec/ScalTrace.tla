----------------------------- MODULE ScalTrace -----------------------------
(* Trace validation of scalar conversions.                                 *)
EXTENDS Num, Str, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k
r == Recs[i]
\* the records are judged in the second state, so that all workers take part
Init == i \in 1..Len(Recs) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, k>>

Of(x) == k = 1 /\ r.kind = x
\* a string in the source means what its escapes say, wherever it stands
Decoded == Of("S") => r.ok /\ LET d == Decode(r.raw) IN \A j \in 1..Len(r.dec) : r.dec[j] = d
\* <lead> spelling <mid> spelling <tail>
Tv == <<91, 34>>                               \* ["
Ts == <<123, 34, 118, 34, 58, 34>>             \* {"v":"
Starts(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
Ends(b, p) == Len(b) >= Len(p) /\ SubSeq(b, Len(b) - Len(p) + 1, Len(b)) = p
Inner(b, a, z) == SubSeq(b, a + 1, Len(b) - z)
\* the spelling ends at the first quote that is not escaped
RECURSIVE Quote(_, _)
Quote(b, i0) == IF i0 > Len(b) THEN 0 ELSE IF b[i0] = 34 THEN i0 ELSE IF b[i0] = 92 THEN Quote(b, i0 + 2) ELSE Quote(b, i0 + 1)
Encoded == Of("E") =>
  /\ Starts(r.tv, Tv) /\ Ends(r.tv, <<34, 93>>) /\ Spells(Inner(r.tv, 2, 2), r.raw)
  /\ Starts(r.ts, Ts) /\ Ends(r.ts, <<34, 125>>) /\ Spells(Inner(r.ts, 6, 2), r.raw)
  /\ Starts(r.tm, <<123, 34>>) /\ Ends(r.tm, <<34, 125>>)
  /\ LET q == Quote(r.tm, 3)
     IN /\ q > 0 /\ SubSeq(r.tm, q, q + 2) = <<34, 58, 34>>
        /\ Spells(SubSeq(r.tm, 3, q - 1), r.raw)
        /\ Spells(SubSeq(r.tm, q + 3, Len(r.tm) - 2), r.raw)
  /\ r.back
IntOk(n, x) ==
  /\ x.ok = n.ok
  /\ n.ok => /\ x.v = ToInt(n, x.w, x.sg)
             /\ x.text = <<91>> \o IntText(x.v) \o <<93>>
             /\ x.back
Integers_ == Of("I") => LET n == Decimal(r.raw) IN \A j \in 1..Len(r.res) : IntOk(n, r.res[j])
=============================================================================
