-------------------------------- MODULE Diff --------------------------------
(* The difference between two documents, given as token lists.  Every      *)
(* token of the second document gets a mark:                               *)
(*   "="  same as in the base       "V" another value     "T" another type *)
(*   "N"  new member                "A" new array item                     *)
(*   "m"  an object with members missing, "a" an array with items missing  *)
(*   "R"  roots of different types  "E" roots that are neither             *)
(* (and "?" where the model leaves open whether two numbers are the same,  *)
(* because that depends on rounding).  Members match by name, array items  *)
(* by position; strings and names are compared as they are written.        *)
EXTENDS Meta, Num, Flt

(***************************************************************************)
(* Numbers: o.fuzzy tells whether numbers closer than 10^-o.k are the      *)
(* same (o.k < 0: no tolerance).                                           *)
(***************************************************************************)
Small(x) == x.e > -500 /\ x.e < 500 /\ Len(x.d) < 60
NumMark(av, bv, o) ==
  LET A == Decimal(av)
      B == Decimal(bv)
      tol == o.fuzzy /\ o.k >= 0
      m == LET lo == IF A.e < B.e THEN A.e ELSE B.e IN (IF tol /\ -o.k < lo THEN -o.k ELSE lo) - 16
      a == NShift10(FromDigits(A.d), A.e - m)
      b == NShift10(FromDigits(B.d), B.e - m)
      aBig == NCmp(a, b) >= 0
      hi == IF aBig THEN a ELSE b
      lo == IF aBig THEN b ELSE a
      \* the distance is |lhs - rhs|
      lhs == IF A.neg = B.neg THEN hi ELSE NAdd(hi, lo)
      rhs == IF A.neg = B.neg THEN lo ELSE <<>>
      \* what converting to binary may change
      noise == IF aBig THEN NShift10(FromDigits(A.d), A.e - m - 14) ELSE NShift10(FromDigits(B.d), B.e - m - 14)
      eps(c) == IF tol THEN NMulS(NShift10(<<1>>, -o.k - m - 2), c) ELSE <<>>
  IN IF A.d = B.d /\ A.e = B.e /\ (A.neg = B.neg \/ A.d = <<>>) THEN "="
     ELSE IF ~Small(A) \/ ~Small(B) THEN "?"
     ELSE IF NCmp(lhs, NAdd(NAdd(rhs, noise), eps(101))) > 0 THEN "V"
     ELSE IF tol /\ NCmp(NAdd(lhs, noise), NAdd(rhs, eps(99))) < 0 THEN "="
     ELSE "?"

ScalarMark(s, t, o) == IF s.vt # t.vt THEN "T"
                       ELSE IF s.vt = "N" THEN NumMark(s.v, t.v, o)
                       ELSE IF s.v = t.v THEN "=" ELSE "V"

(***************************************************************************)
(* DiffAt: the marks of the value at q of d against the value at p of b,   *)
(* and what is missing where, in order: [at, tk].                          *)
(***************************************************************************)
AllMark(d, q, c) == [m |-> [j \in 1..(Last_(d, q) - q + 1) |-> c], x |-> <<>>]
SameName(s, t) == s.n = t.n
Tokens(b, p) == SubSeq(b, p, Last_(b, p))
RECURSIVE Flat(_, _)
Flat(b, ps) == IF ps = <<>> THEN <<>> ELSE Tokens(b, Head(ps)) \o Flat(b, Tail(ps))
RECURSIVE Join(_)
Join(rs) == IF rs = <<>> THEN [m |-> <<>>, x |-> <<>>]
            ELSE LET t == Join(Tail(rs)) IN [m |-> Head(rs).m \o t.m, x |-> Head(rs).x \o t.x]
RECURSIVE DiffAt(_, _, _, _, _)
DiffAt(b, p, d, q, o) ==
  IF b[p].vt # d[q].vt THEN AllMark(d, q, "T")
  ELSE IF ~Opens(d[q]) THEN [m |-> <<ScalarMark(b[p], d[q], o)>>, x |-> <<>>]
  ELSE LET bk == Kids(b, p)
           dk == Kids(d, q)
           obj == d[q].vt = "{"
           partner(j) == IF obj THEN LET S == SelectSeq(bk, LAMBDA i : SameName(b[i], d[dk[j]])) IN IF S = <<>> THEN 0 ELSE S[1]
                         ELSE IF j <= Len(bk) THEN bk[j] ELSE 0
           kid(j) == LET i == partner(j) IN IF i = 0 THEN AllMark(d, dk[j], IF obj THEN "N" ELSE "A") ELSE DiffAt(b, i, d, dk[j], o)
           gone == IF obj THEN SelectSeq(bk, LAMBDA i : ~ \E j \in 1..Len(dk) : SameName(b[i], d[dk[j]]))
                   ELSE SubSeq(bk, Len(dk) + 1, Len(bk))
           in == Join([j \in 1..Len(dk) |-> kid(j)])
       IN [m |-> <<IF gone = <<>> THEN "=" ELSE IF obj THEN "m" ELSE "a">> \o in.m \o <<"=">>,
           x |-> (IF gone = <<>> THEN <<>> ELSE <<[at |-> q, tk |-> Flat(b, gone)]>>) \o in.x]

Nothing == [m |-> <<>>, x |-> <<>>]
DiffOf(b, d, o) ==
  IF d = <<>> THEN Nothing
  ELSE IF b = <<>> THEN AllMark(d, 1, CASE d[1].vt = "{" -> "N" [] d[1].vt = "[" -> "A" [] OTHER -> "E")
  ELSE IF b[1].vt # d[1].vt THEN AllMark(d, 1, "R")
  ELSE IF ~Opens(d[1]) THEN AllMark(d, 1, "E")
  ELSE DiffAt(b, 1, d, 1, o)

\* how often a difference is counted: every marked and every missing token
RECURSIVE Missing(_)
Missing(x) == IF x = <<>> THEN 0 ELSE Len(Head(x).tk) + Missing(Tail(x))
Count(r) == Cardinality({j \in 1..Len(r.m) : r.m[j] \notin {"=", "m", "a"}}) + Missing(r.x)
=============================================================================
