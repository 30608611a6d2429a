------------------------------ MODULE ErrTrace ------------------------------
(* Validation of error reports of real parses.                             *)
EXTENDS Err, Bind, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k
vars == <<i, k>>
r == Recs[i]
Init == i \in 1..Len(Recs) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
rep == [lines |-> r.lines, line |-> r.line, char |-> r.char]
\* type 1: vector of integers, type 2: integer
cfg == [am |-> TRUE, au |-> TRUE, tr |-> TRUE]
IntElem(p) == r.tk[p].vt = "]" \/ Read(cfg, 2, DefaultTab[2], [tk |-> r.tk, pos |-> r.pos, txt |-> r.doc], p).ok
\* the token a vector of integers cannot take, 0: the text ends or is rejected before
BadTok == IF r.tk = <<>> THEN 0 ELSE IF r.tk[1].vt # "[" THEN 1
          ELSE LET S == {p \in 2..Len(r.tk) : ~IntElem(p) /\ \A q \in 2..(p - 1) : r.tk[q].vt # "]"} IN IF S = {} THEN 0 ELSE CHOOSE p \in S : \A q \in S : p <= q
Done1 == r.tk # <<>> /\ r.tk[1].vt = "[" /\ \E p \in 2..Len(r.tk) : r.tk[p].vt = "]" /\ \A q \in 2..(p - 1) : IntElem(q) /\ r.tk[q].vt # "]"
\* the offset (from 0) of the last byte read before the error
StopAt == CASE r.mode = "t" -> r.at - 1
        [] r.mode = "v" -> IF BadTok # 0 THEN r.pos[BadTok] - 1 ELSE r.at - 1
        [] OTHER -> 0
Text == SubSeq(r.doc, r.base + 1, r.base + r.n)
Rejected1 == k = 1 /\ ~r.ok /\ ~r.more
\* is the input rejected at all
Outcome == (k = 1 /\ r.mode = "t" /\ ~r.ok) => r.more = ~r.lf
OutcomeV == (k = 1 /\ r.mode = "v") => r.ok = Done1
\* the kind of error is named
MissingKind == <<77, 105, 115, 115, 105, 110, 103, 80, 114, 111, 112, 101, 114, 116, 121, 77, 101, 109, 98, 101, 114>>
UnassignedKind == <<85, 110, 97, 115, 115, 105, 103, 110, 101, 100, 82, 101, 113, 117, 105, 114, 101, 100, 77, 101, 109, 98, 101, 114>>
Kinds == {MissingKind, UnassignedKind}
Named == Rejected1 =>
                \/ r.ename \in Kinds \/ r.ename = <<>>
                \/ /\ r.cname = r.ename
                   /\ LET h == Len(r.told) - Len(Shown(rep, 1)) IN h > 0 /\ Contains(SubSeq(r.told, 1, h), r.ename)
\* without an error nothing is told about one, whatever was reported before
NoErrorName == <<78, 111, 69, 114, 114, 111, 114>>
Fresh == (k = 1 /\ r.mode = "t" /\ (r.ok \/ r.more)) => r.cname = NoErrorName /\ r.lines = <<>>
\* the names that are at fault are all told
NamesTold == Rejected1 =>
                    /\ (r.ename = MissingKind) => (r.mi # <<>> /\ \A j \in 1..Len(r.mi) : Contains(r.told, r.mi[j]))
                    /\ (r.ename = UnassignedKind) => (r.un # <<>> /\ \A j \in 1..Len(r.un) : Contains(r.told, r.un[j]))
\* the report as text is made of the quoted lines and the mark
AsText == (Rejected1 /\ r.ename \notin Kinds) => EndsWith(r.told, Shown(rep, 1))
\* it points at the place
HasSlash == \E j \in 1..Len(Text) : Text[j] = 47
Marked == (Rejected1 /\ r.mode \in {"t", "v"} /\ r.found) =>
            /\ WellFormed(rep)
            /\ \E m \in Places(rep, Text) : \/ Near(Text, m, StopAt - r.base)
                                            \/ r.o.c /\ HasSlash /\ m <= StopAt - r.base + 1
\* of a list of tokens, the token at fault is quoted
MarkedToken == (Rejected1 /\ r.mode = "k" /\ r.lines # <<>>) =>
                                                           /\ WellFormed(rep)
                                                           /\ BadTok # 0 /\ Places(rep, r.tk[BadTok].v \o (IF IsOpen(r.tk[BadTok].vt) THEN TextOf([quote |-> TRUE], r.tk[BadTok].vt, <<>>) ELSE <<>>)) # {}
KeptToken == (k = 1 /\ r.mode = "k" /\ BadTok # 0) => ~r.ok /\ (BadTok < Len(r.tk) => r.lines # <<>>)
=============================================================================
