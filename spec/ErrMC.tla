------------------------------- MODULE ErrMC -------------------------------
(* The reference report quotes the text around the place and marks exactly *)
(* it, for all texts over a few bytes and all settings.                    *)
EXTENDS Err, TLC
CONSTANT Size
VARIABLES text, at, set
Init == /\ text \in UNION {[1..n -> {97, 10, 32}] : n \in 0..Size}
        /\ at \in 0..Len(text)
        /\ set \in {<<l, w, r>> : l \in 0..2, w \in {1, 3, 9}, r \in {0, 1, 4}}
Next == UNCHANGED <<text, at, set>>
Spec == Init /\ [][Next]_<<text, at, set>>
rep == RefReport(text, at, set[1], set[2], set[3])
\* the mark stands for the place
Marks == WellFormed(rep) /\ at \in Places(rep, text)
Accepted == PointsAt(rep, text, at) /\ PointsAt(rep, text, at + 1) /\ (at > 0 => PointsAt(rep, text, at - 1))
\* settings are respected
Limits == /\ set[1] > 0 => Len(rep.lines) <= 2 * set[1]
          /\ Len(Joined(rep.lines, 1)) <= 2 * set[2]
\* shown as text, the mark is the only line of the report with it, below the right line
ShownOk == Len(Lines(Shown(rep, 1))) = Len(rep.lines) + 2
=============================================================================
