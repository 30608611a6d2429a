------------------------------ MODULE TokTable ------------------------------
(* Exports the finite control of Tok.tla as JSON, for the table-driven     *)
(* conformance harness.                                                    *)
EXTENDS Tok, Json, TLC, IOUtils, SequencesExt

Ms == {"N", "D", "V", "E"}
Ss == {"start", "str", "esc", "num", "asc", "slash", "com"}
Ts == {"-", "S", "N", "A", "B", "Z"}

\* control states that make sense: D and E have no lexeme in progress
Legal(q) == /\ q.m \in {"N", "E"} => q.t = "-"
            /\ q.m = "D" => q.t # "-"
            /\ q.m = "V" => q.t \in {"S", "A"} /\ ~q.x
            /\ q.m \in {"D", "E"} => q.s \in {"start", "slash", "com"}
QSeq == SetToSeq({q \in { Q(m, s, x, t) : m \in Ms, s \in Ss, x \in BOOLEAN, t \in Ts } : Legal(q)})
OSeq == SetToSeq(Options)
TopSeq == <<"-", "O", "A">>
CSeq == SetToSeq(Classes)
KSeq == <<"A", "B", "Z">>

Table ==
  LET qs == QSeq os == OSeq cs == CSeq
  IN [opts |-> os, qs |-> qs, tops |-> TopSeq, cs |-> cs, kws |-> KSeq, q0 |-> Q0,
      classes |-> [b \in 1..255 |-> ClassOf(b)],
      \* d[o][q][top][c][kw]
      d |-> [i \in 1..Len(os) |-> [j \in 1..Len(qs) |-> [t \in 1..3 |-> [c \in 1..Len(cs) |->
              [k \in 1..(IF qs[j].s = "asc" THEN 3 ELSE 1) |->
                  Delta(os[i], qs[j], TopSeq[t], cs[c], KSeq[k])]]]]]]

ASSUME JsonSerialize(IOEnv.OUT, Table)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
