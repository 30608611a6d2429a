-------------------------------- MODULE Num --------------------------------
(* Decimal numbers as text: what a number means, how it is clamped to an   *)
(* integer type, how an integer is spelled.  Numbers are digit sequences,  *)
(* most significant digit first, so nothing is limited by TLC's integers.  *)
EXTENDS Integers, Sequences

IsDig(b) == b >= 48 /\ b <= 57
Spaces == {32, 9, 10, 11, 12, 13}

RECURSIVE DropZeros(_)
DropZeros(d) == IF d # <<>> /\ Head(d) = 0 THEN DropZeros(Tail(d)) ELSE d
RECURSIVE DropTrail(_)
DropTrail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN DropTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
Zeros(n) == [i \in 1..n |-> 0]

(* Position of the first byte at or after i that is not a digit.           *)
RECURSIVE DigEnd(_, _)
DigEnd(b, i) == IF i <= Len(b) /\ IsDig(b[i]) THEN DigEnd(b, i + 1) ELSE i
RECURSIVE SpEnd(_, _)
SpEnd(b, i) == IF i <= Len(b) /\ b[i] \in Spaces THEN SpEnd(b, i + 1) ELSE i
Dig(b, i, j) == [k \in 1..(j - i) |-> b[i + k - 1] - 48]     \* digits b[i..j-1]

\* an exponent of more than 8 digits is as good as one of 8
RECURSIVE ToNat(_, _)
ToNat(d, acc) == IF d = <<>> THEN acc ELSE ToNat(Tail(d), IF acc > 9999999 THEN 99999999 ELSE acc * 10 + Head(d))

(***************************************************************************)
(* Decimal(b): the number spelled by the bytes b, [ok, neg, d, e] with     *)
(* value (-1)^neg * d * 10^e; d has no leading and no trailing zeros       *)
(* (empty for zero).                                                       *)
(***************************************************************************)
Bad == [ok |-> FALSE, neg |-> FALSE, d |-> <<>>, e |-> 0]
Decimal(b) ==
  LET s  == SpEnd(b, 1)
      ng == s <= Len(b) /\ b[s] = 45
      i  == IF ng THEN s + 1 ELSE s
      j  == DigEnd(b, i)                       \* integral digits b[i..j-1]
      dt == j <= Len(b) /\ b[j] = 46
      k  == IF dt THEN DigEnd(b, j + 1) ELSE j
      int  == Dig(b, i, j)
      frac == IF dt THEN Dig(b, j + 1, k) ELSE <<>>
      ex == k <= Len(b) /\ b[k] \in {101, 69}
      sg == ex /\ k + 1 <= Len(b) /\ b[k + 1] \in {43, 45}
      x  == IF sg THEN k + 2 ELSE k + 1
      y  == IF ex THEN DigEnd(b, x) ELSE k
      ev == IF ~ex THEN 0 ELSE LET n == ToNat(Dig(b, x, y), 0) IN IF sg /\ b[k + 1] = 45 THEN -n ELSE n
      all == DropZeros(int \o frac)
      nz  == DropTrail(all)
  IN IF int \o frac = <<>> \/ (ex /\ x = y) \/ y # Len(b) + 1 THEN Bad
     ELSE [ok |-> TRUE, neg |-> ng, d |-> nz,
           e |-> IF nz = <<>> THEN 0 ELSE ev - Len(frac) + (Len(all) - Len(nz))]

(* Comparison of natural numbers without leading zeros. *)
RECURSIVE LessSame(_, _)
LessSame(a, b) == IF a = <<>> THEN FALSE
                  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LessSame(Tail(a), Tail(b))
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessSame(a, b))

RECURSIVE Dbl(_, _, _)   \* 2*d + carry, from the right
Dbl(d, c, acc) == IF d = <<>> THEN (IF c = 0 THEN acc ELSE <<c>> \o acc)
                  ELSE LET x == 2 * d[Len(d)] + c
                       IN Dbl(SubSeq(d, 1, Len(d) - 1), x \div 10, <<x % 10>> \o acc)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1>> ELSE Dbl(Pow2(n - 1), 0, <<>>)
RECURSIVE Dec(_)         \* d - 1 for d > 0
Dec(d) == LET l == d[Len(d)] p == SubSeq(d, 1, Len(d) - 1)
          IN IF l > 0 THEN DropZeros(Append(p, l - 1)) ELSE Append(Dec(p), 9)

(* Largest magnitude of an integer type with `bits' bits. *)
Limits == [w \in {8, 16, 32, 64, 128} |->
             [smax |-> Dec(Pow2(w - 1)), smin |-> Pow2(w - 1), umax |-> Dec(Pow2(w))]]
MaxMag(w, signed, neg) ==
  IF ~signed THEN (IF neg THEN <<>> ELSE Limits[w].umax)
  ELSE IF neg THEN Limits[w].smin ELSE Limits[w].smax

(* The integer a decimal number is converted to: truncated, then clamped.  *)
IntVal(neg, d) == IF d = <<>> THEN [neg |-> FALSE, d |-> <<0>>] ELSE [neg |-> neg, d |-> d]
ToInt(n, w, signed) ==
  LET len == Len(n.d) + n.e                      \* number of integral digits
      lim == MaxMag(w, signed, n.neg)
  IN IF n.d = <<>> \/ len <= 0 THEN IntVal(FALSE, <<>>)
     ELSE IF len > 45 THEN IntVal(n.neg, lim)    \* more digits than any type has
     ELSE LET ip == IF n.e >= 0 THEN n.d \o Zeros(n.e) ELSE SubSeq(n.d, 1, len)
          IN IF Less(lim, ip) THEN IntVal(n.neg, lim) ELSE IntVal(n.neg, ip)

IntText(v) == (IF v.neg THEN <<45>> ELSE <<>>) \o [i \in 1..Len(v.d) |-> v.d[i] + 48]
=============================================================================
