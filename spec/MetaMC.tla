------------------------------- MODULE MetaMC -------------------------------
(* All token lists up to a length: the single pass and the definition      *)
(* agree, and the entries let a reader step over containers.               *)
EXTENDS Meta, TLC
CONSTANT MaxLen
VARIABLES tk, w, open
vars == <<tk, w, open>>
Init == tk = <<>> /\ w = W0_ /\ open = <<>>
Put(vt) == LET t == [vt |-> vt] IN tk' = Append(tk, t) /\ w' = WStep(w, t, Len(tk) + 1)
Next == /\ Len(tk) < MaxLen
        /\ \/ \E vt \in {"{", "["} : Put(vt) /\ open' = Append(open, vt)
           \/ \E vt \in {"N"} : Put(vt) /\ UNCHANGED open
           \/ /\ open # <<>>
              /\ Put(IF open[Len(open)] = "{" THEN "}" ELSE "]")
              /\ open' = SubSeq(open, 1, Len(open) - 1)
Spec == Init /\ [][Next]_vars
Whole == open = <<>>
Agree == Whole => w.m = MetaOf(tk)
\* stepping by size and skip visits exactly the children
Stepping == Whole => \A j \in 1..Len(w.m) :
  LET e == w.m[j]
      RECURSIVE walk(_, _, _)
      walk(p, n, acc) == IF Closes(tk[p]) THEN acc
                         ELSE IF n <= Len(w.m) /\ w.m[n].position = p - 1 THEN walk(p + w.m[n].size, n + w.m[n].skip, Append(acc, p))
                         ELSE walk(p + 1, n, Append(acc, p))
  IN walk(e.position + 2, j + 1, <<>>) = Kids(tk, e.position + 1)
Counts == Whole => \A j \in 1..Len(w.m) :
  LET e == w.m[j] IN /\ e.has_data <=> (e.children > e.complex_children \/ FirstWithData(w.m, j) >= 0)
                     /\ e.size >= e.children + 2 /\ e.skip >= e.complex_children + 1
=============================================================================
