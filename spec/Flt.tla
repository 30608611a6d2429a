-------------------------------- MODULE Flt --------------------------------
(* Binary floating point formats and decimal numbers, exactly.             *)
(*                                                                         *)
(* A natural number is a sequence of limbs, base 10^4, least significant   *)
(* first, no leading zero limbs (zero is empty).  A format F has F.p bits  *)
(* of significand; its finite values are m * 2^e with m < 2^p and          *)
(* F.emin <= e <= F.emax, and m >= 2^(p-1) unless e = emin.                *)
EXTENDS Integers, Sequences, TLC

Base == 10000
RECURSIVE NTrim(_)
NTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* a * s + c for small s
RECURSIVE NScale(_, _, _, _, _)
NScale(a, s, i, c, acc) == IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
                           ELSE LET x == a[i] * s + c IN NScale(a, s, i + 1, x \div Base, Append(acc, x % Base))
NMulS(a, s) == IF s = 0 THEN <<>> ELSE NScale(a, s, 1, 0, <<>>)
NAddS(a, s) == NScale(a, 1, 1, s, <<>>)
RECURSIVE NAddFrom(_, _, _, _, _)
NAddFrom(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET x == (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0) + c
       IN NAddFrom(a, b, i + 1, x \div Base, Append(acc, x % Base))
NAdd(a, b) == NAddFrom(a, b, 1, 0, <<>>)
RECURSIVE NDecFrom(_, _)     \* a - 1 for a > 0
NDecFrom(a, i) == IF a[i] > 0 THEN [a EXCEPT ![i] = @ - 1] ELSE NDecFrom([a EXCEPT ![i] = Base - 1], i + 1)
NDec(a) == NTrim(NDecFrom(a, 1))
\* a * b by the limbs of the short factor b
RECURSIVE NMulFrom(_, _, _)
NMulFrom(a, b, i) == IF i > Len(b) THEN <<>>
                     ELSE LET lo == NMulS(a, b[i]) hi == NMulFrom(a, b, i + 1)
                          IN NAdd(lo, IF hi = <<>> THEN <<>> ELSE <<0>> \o hi)
NMul(a, b) == NMulFrom(a, b, 1)
RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpFrom(a, b, Len(a))

\* powers of two up to what any comparison needs
MaxPow == 1200
RECURSIVE PowTab(_)
PowTab(t) == IF Len(t) > MaxPow THEN t ELSE PowTab(Append(t, NMulS(t[Len(t)], 2)))
\* TLC would compute the table anew at every use
ASSUME TLCSet(41, PowTab(<<<<1>>>>))
N2(j) == TLCGet(41)[j + 1]
ZeroLimbs(n) == [k \in 1..n |-> 0]
S10 == <<1, 10, 100, 1000>>
\* a * 10^n
NShift10(a, n) == IF a = <<>> THEN a ELSE ZeroLimbs(n \div 4) \o NMulS(a, S10[(n % 4) + 1])
\* digits, most significant first -> limbs
RECURSIVE NOf(_, _)
NOf(d, n) == IF n = 0 THEN <<>>
             ELSE LET at(k) == IF n - k >= 1 THEN d[n - k] ELSE 0
                  IN <<at(0) + 10 * at(1) + 100 * at(2) + 1000 * at(3)>> \o NOf(d, IF n > 4 THEN n - 4 ELSE 0)
FromDigits(d) == NTrim(NOf(d, Len(d)))

\* compare d * 10^q with k * 2^j
Cmp(d, q, k, j) ==
  IF d = <<>> \/ k = <<>> THEN (IF d = <<>> THEN (IF k = <<>> THEN 0 ELSE -1) ELSE 1)
  ELSE LET l == NShift10(d, IF q > 0 THEN q ELSE 0)
           r == NShift10(k, IF q < 0 THEN -q ELSE 0)
       IN NCmp(IF j < 0 THEN NMul(N2(-j), l) ELSE l, IF j > 0 THEN NMul(N2(j), r) ELSE r)

Float  == [p |-> 24, emin |-> -149, emax |-> 104]
Double == [p |-> 53, emin |-> -1074, emax |-> 971]

Odd(a) == a # <<>> /\ a[1] % 2 = 1
\* the midpoints to the neighbours of m * 2^e as k * 2^j
HiMid(f) == [k |-> NAddS(NMulS(f.m, 2), 1), j |-> f.e - 1]
LoMid(F, f) == IF f.m = N2(F.p - 1) /\ f.e > F.emin THEN [k |-> NDec(NMulS(f.m, 4)), j |-> f.e - 2]
               ELSE [k |-> NDec(NMulS(f.m, 2)), j |-> f.e - 1]
IsFloat(F, f) == /\ F.emin <= f.e /\ f.e <= F.emax
                 /\ NCmp(f.m, N2(F.p)) < 0
                 /\ f.e > F.emin => NCmp(f.m, N2(F.p - 1)) >= 0

(* Orders of magnitude beyond any format are decided without arithmetic.  *)
Mag(d, q) == (Len(d) - 1) * 4 + q          \* 10^Mag <= value < 10^(Mag + 4)
Huge(d, q) == d # <<>> /\ Mag(d, q) > 320
Tiny(d, q) == d # <<>> /\ Mag(d, q) < -360

(* f is the magnitude d * 10^q rounded to the nearest, ties to even.       *)
\* [m, e, inf]
Rounds(F, d, q, f) ==
  IF d = <<>> THEN ~f.inf /\ f.m = <<>>
  ELSE IF f.inf THEN Huge(d, q) \/ (~Tiny(d, q) /\ Cmp(d, q, NDec(NMulS(N2(F.p), 2)), F.emax - 1) >= 0)
  ELSE IF Huge(d, q) THEN FALSE
  ELSE IF Tiny(d, q) THEN f.m = <<>>
  ELSE /\ LET hi == HiMid(f) c == Cmp(d, q, hi.k, hi.j) IN c < 0 \/ (c = 0 /\ ~Odd(f.m))
       /\ f.m # <<>> => LET lo == LoMid(F, f) c == Cmp(d, q, lo.k, lo.j) IN c > 0 \/ (c = 0 /\ ~Odd(f.m))

RECURSIVE NDiv10(_, _, _, _)
NDiv10(a, i, r, acc) == IF i = 0 THEN NTrim(acc) ELSE LET x == r * Base + a[i] IN NDiv10(a, i - 1, x % 10, <<x \div 10>> \o acc)
Div10(a) == NDiv10(a, Len(a), 0, <<>>)
(* No decimal with fewer digits rounds to f: d * 10^q, with d not divisible *)
(* by 10, does, and the multiples of 10^(q+1) next to it do not.            *)
Shortest(F, d, q, f) == \/ d = <<>>
                        \/ Len(d) = 1 /\ d[1] < 10
                        \/ /\ ~Rounds(F, Div10(d), q + 1, f)
                           /\ ~Rounds(F, NAddS(Div10(d), 1), q + 1, f)
=============================================================================
