------------------------------- MODULE NumMC -------------------------------
(* Num.tla against a second, naive reading of numbers: every short byte    *)
(* string over the characters that matter.                                 *)
EXTENDS Num, FiniteSets, TLC
CONSTANTS MaxLen
VARIABLES b
Alphabet == {48, 49, 53, 57, 45, 43, 46, 101, 32}
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E c \in Alphabet : b' = Append(b, c)
Spec == Init /\ [][Next]_b

\* -- which texts are numbers: blanks, sign, mantissa, exponent, by splitting at every place
All(x, S) == \A j \in 1..Len(x) : x[j] \in S
Digits == 48..57
IsMant(x) == /\ All(x, Digits \cup {46})
             /\ Cardinality({j \in 1..Len(x) : x[j] = 46}) <= 1
             /\ \E j \in 1..Len(x) : x[j] \in Digits
IsExp(x) == x = <<>> \/ (x[1] = 101 /\ LET y == Tail(x) z == IF y # <<>> /\ y[1] \in {43, 45} THEN Tail(y) ELSE y IN z # <<>> /\ All(z, Digits))
Cut(x, j) == SubSeq(x, 1, j)
Rest(x, j) == SubSeq(x, j + 1, Len(x))
IsNumber == \E s \in 0..Len(b) : \E m \in s..Len(b) :
              /\ All(Cut(b, s), {32})
              /\ LET body == SubSeq(b, s + 1, m) neg == body # <<>> /\ body[1] = 45
                 IN IsMant(IF neg THEN Tail(body) ELSE body)
              /\ IsExp(Rest(b, m))
Recognised == Decimal(b).ok <=> IsNumber

\* -- what they mean, for exponents that stay within TLC's integers: value * 10^4
RECURSIVE Horner(_, _)
Horner(d, acc) == IF d = <<>> THEN acc ELSE Horner(Tail(d), acc * 10 + Head(d))
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
Scale == 4
Value4(n) == LET m == Horner(n.d, 0) IN IF n.e + Scale >= 0 THEN m * P10(n.e + Scale) ELSE -1
DigVal(x) == Horner([j \in 1..Len(x) |-> x[j] - 48], 0)
Naive4 ==   \* mantissa without the dot, exponent, number of fractional digits
  LET t == SelectSeq(b, LAMBDA c : c # 32)
      u == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t
      es == {j \in 1..Len(u) : u[j] = 101}
      m == IF es = {} THEN u ELSE SubSeq(u, 1, (CHOOSE j \in es : TRUE) - 1)
      x == IF es = {} THEN <<>> ELSE SubSeq(u, (CHOOSE j \in es : TRUE) + 1, Len(u))
      ev == IF x = <<>> THEN 0 ELSE IF x[1] = 45 THEN -DigVal(Tail(x)) ELSE IF x[1] = 43 THEN DigVal(Tail(x)) ELSE DigVal(x)
      ds == {j \in 1..Len(m) : m[j] = 46}
      fr == IF ds = {} THEN 0 ELSE Len(m) - (CHOOSE j \in ds : TRUE)
      e == ev - fr + Scale
      mv == DigVal(SelectSeq(m, LAMBDA c : c # 46))
  IN IF e >= 0 /\ e <= 6 THEN mv * P10(e) ELSE -1
Meaning == LET n == Decimal(b) IN (n.ok /\ Naive4 # -1) => Value4(n) = Naive4 /\ n.neg = (\E j \in 1..Len(b) : b[j] = 45 /\ (j = 1 \/ b[j - 1] = 32))

\* -- conversion to 8 bit integers, against TLC's integers
Small == LET n == Decimal(b) x == Naive4 \div 10000 y == IF n.neg THEN -x ELSE x
             clamp(lo, hi) == IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
             num(v) == IF v.neg THEN -Horner(v.d, 0) ELSE Horner(v.d, 0)
         IN (n.ok /\ Naive4 # -1) => /\ num(ToInt(n, 8, TRUE)) = clamp(-128, 127)
                                     /\ num(ToInt(n, 8, FALSE)) = clamp(0, 255)
                                     /\ num(ToInt(n, 16, TRUE)) = clamp(-32768, 32767)
\* -- an integer's text means the integer
Spelled == LET n == Decimal(b) IN n.ok => LET v == ToInt(n, 32, TRUE) IN ToInt(Decimal(IntText(v)), 32, TRUE) = v
=============================================================================
