------------------------------- MODULE FltMC -------------------------------
(* Flt.tla on a toy format, against rational arithmetic in TLC's integers. *)
EXTENDS Flt, FiniteSets
CONSTANT MaxD
F == [p |-> 3, emin |-> -4, emax |-> 1]
VARIABLES d, q
Init == d = 0 /\ q \in -3..1
Next == d < MaxD /\ d' = d + 1 /\ UNCHANGED q
Spec == Init /\ [][Next]_<<d, q>>
RECURSIVE P(_, _)
P(b, n) == IF n = 0 THEN 1 ELSE b * P(b, n - 1)
N(x) == IF x = 0 THEN <<>> ELSE <<x>>
Floats == {[m |-> N(m), e |-> F.emin, inf |-> FALSE] : m \in 0..7} \cup {[m |-> N(m), e |-> e, inf |-> FALSE] : m \in 4..7, e \in (F.emin + 1)..F.emax}
\* values scaled by 10^3 * 2^4
Val(f) == (IF f.m = <<>> THEN 0 ELSE f.m[1]) * P(2, f.e + 4) * 1000
X == d * P(10, q + 3) * 16
Abs(x) == IF x < 0 THEN -x ELSE x
Max == 7 * P(2, F.emax + 4) * 1000
Top == 8 * P(2, F.emax + 4) * 1000            \* what would come next
Nearest(f) == /\ \A g \in Floats : Abs(X - Val(f)) <= Abs(X - Val(g))
              /\ \A g \in Floats : (g # f /\ Abs(X - Val(f)) = Abs(X - Val(g))) => ~Odd(f.m)
              /\ 2 * X < Max + Top             \* 7 is odd: the tie goes up
Wellformed == \A f \in Floats : IsFloat(F, f)
Agree == \A f \in Floats : Rounds(F, N(d), q, f) <=> Nearest(f)
Inf == Rounds(F, N(d), q, [m |-> <<>>, e |-> 0, inf |-> TRUE]) <=> 2 * X >= Max + Top
Unique == Cardinality({f \in Floats : Rounds(F, N(d), q, f)}) <= 1
\* shortest: no decimal with fewer digits rounds to the same value
Len10(x) == IF x < 10 THEN 1 ELSE IF x < 100 THEN 2 ELSE IF x < 1000 THEN 3 ELSE 4
Short == \A f \in Floats : (d % 10 # 0 /\ d > 0 /\ q < 1 /\ Rounds(F, N(d), q, f)) =>
            (Shortest(F, N(d), q, f) <=> ~\E x \in 1..99 : \E s \in q..(q+2) : Len10(x) < Len10(d) /\ Rounds(F, N(x), s, f))
\* limbs
Arith == /\ NMul(<<d, 3>>, <<7, 1>>) = NAdd(NMulS(<<d, 3>>, 7), <<0>> \o <<d, 3>>)
         /\ NCmp(NMul(N2(40), N2(27)), N2(67)) = 0
         /\ Div10(NShift10(<<d + 1, 5>>, 1)) = <<d + 1, 5>>
         /\ NDec(NAddS(<<d, 1>>, 1)) = <<d, 1>>
         /\ FromDigits(<<1, 2, 3, 4, 5>>) = <<2345, 1>>
=============================================================================
