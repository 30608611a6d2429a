-------------------------------- MODULE Err --------------------------------
(* Error reports: a report quotes lines of the input and marks a place in  *)
(* one of them.                                                            *)
(*   rep = [lines, line, char]: the quoted lines, the number of the marked *)
(*   line (from 0), the column of the mark (from 0).                       *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Joined(_, _)
Joined(ls, i) == IF i > Len(ls) THEN <<>> ELSE ls[i] \o (IF i = Len(ls) THEN <<>> ELSE <<10>>) \o Joined(ls, i + 1)
RECURSIVE LenTo(_, _)
LenTo(ls, i) == IF i = 0 THEN 0 ELSE Len(ls[i]) + 1 + LenTo(ls, i - 1)

(* The places (offsets from 0) in text the mark can stand for: the quoted  *)
(* lines are consecutive pieces of the text, whole lines except perhaps at *)
(* the two ends.                                                           *)
OccursAt(text, p, b) == p + Len(b) <= Len(text) /\ \A j \in 1..Len(b) : text[p + j] = b[j]
Places(rep, text) ==
  LET q == Joined(rep.lines, 1)
      m == LenTo(rep.lines, rep.line) + rep.char
  IN {p + m : p \in {x \in 0..(Len(text) - Len(q)) : OccursAt(text, x, q)}}
WellFormed(rep) == /\ rep.line < Len(rep.lines)
                   /\ \A i \in 1..Len(rep.lines) : \A j \in 1..Len(rep.lines[i]) : rep.lines[i][j] # 10
                   /\ rep.char <= Len(rep.lines[rep.line + 1])

(* The mark is at the byte the input was rejected at (offset at), right    *)
(* behind it, or in the blanks before it.                                  *)
BlankByte(b) == b \in {9, 10, 13, 32}
Near(text, m, at) == m <= at + 1 /\ \A j \in (m + 1)..(at - 1) : j < 0 \/ j >= Len(text) \/ BlankByte(text[j + 1])
PointsAt(rep, text, at) == WellFormed(rep) /\ \E m \in Places(rep, text) : Near(text, m, at)

(* The report as text: every line, and below the marked one the mark.      *)
Blanks(n) == [i \in 1..n |-> 32]
RECURSIVE Shown(_, _)
Shown(rep, i) == IF i > Len(rep.lines) THEN <<>>
                 ELSE rep.lines[i] \o <<10>> \o (IF i = rep.line + 1 THEN Blanks(rep.char) \o <<94, 10>> ELSE <<>>) \o Shown(rep, i + 1)
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Contains(s, t) == \E p \in 0..(Len(s) - Len(t)) : OccursAt(s, p, t)

(* A reference for the whole report: all lines within L lines and W bytes  *)
(* of the place, or, when there is only one, the bytes within R of it.     *)
RECURSIVE Split(_, _, _)
Split(text, i, cur) == IF i > Len(text) THEN <<cur>>
                       ELSE IF text[i] = 10 THEN <<cur>> \o Split(text, i + 1, <<>>) ELSE Split(text, i + 1, Append(cur, text[i]))
Lines(text) == Split(text, 1, <<>>)
RefReport(text, at, L, W, R) ==
  LET lo0 == IF at > W THEN at - W ELSE 0                                 \* window
      hi0 == IF at + W < Len(text) THEN at + W ELSE Len(text)
      nlB == {j \in (lo0 + 1)..at : text[j] = 10}                         \* newlines before and behind the place
      nlF == {j \in (at + 1)..hi0 : text[j] = 10}
      lo  == IF L > 0 /\ Cardinality(nlB) >= L THEN (CHOOSE j \in nlB : Cardinality({x \in nlB : x >= j}) = L) ELSE lo0
      hi  == IF L > 0 /\ Cardinality(nlF) >= L THEN (CHOOSE j \in nlF : Cardinality({x \in nlF : x <= j}) = L) - 1 ELSE hi0
      ls  == Lines(SubSeq(text, lo + 1, hi))
      k   == Cardinality({j \in nlB : j > lo})
      st  == IF k = 0 THEN lo ELSE CHOOSE j \in nlB : \A x \in nlB : x <= j
      l   == at - st
      one == ls[1]
      a   == IF l > R THEN l - R ELSE 0
      b   == IF l + R < Len(one) THEN l + R ELSE Len(one)
  IN IF Len(ls) > 1 THEN [lines |-> ls, line |-> k, char |-> l]
     ELSE [lines |-> <<SubSeq(one, a + 1, b)>>, line |-> 0, char |-> l - a]
=============================================================================
