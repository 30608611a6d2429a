------------------------------- MODULE MapMC -------------------------------
(* The token list of Members.tla behaves like a function from names to     *)
(* values: for all histories of sets (and absent values) from all small    *)
(* documents, duplicates and escaped names included.                       *)
EXTENDS Members, TLC
CONSTANT Depth
VARIABLES tk, f, n
vars == <<tk, f, n>>
Names == {<<97>>, <<98>>, <<>>}
\* spellings of names
Raw == {<<97>>, <<92, 117, 48, 48, 54, 49>>, <<98>>, <<>>}
T_(nt, nm, vt, v) == [nt |-> nt, n |-> nm, vt |-> vt, v |-> v]
Vals == {<<T_("S", <<>>, "N", <<49>>)>>, <<T_("S", <<>>, "[", <<>>), T_("A", <<>>, "]", <<>>)>>,
         <<T_("S", <<>>, "{", <<>>), T_("S", <<97>>, "N", <<50>>), T_("A", <<>>, "}", <<>>)>>}
Named(nm, v) == [v EXCEPT ![1].n = nm]
Unnamed(v) == [v EXCEPT ![1].n = <<>>]
Docs == {<<Empty[1]>> \o x \o <<Empty[2]>> : x \in {<<>>} \cup {Named(a, v) : a \in Raw, v \in Vals}
          \cup {Named(a, v) \o Named(b, w) : a \in Raw, b \in Raw, v \in Vals, w \in Vals}}
None == <<>>
Of(t, nm) == LET p == Lookup(t, nm) IN IF p = 0 THEN None ELSE Unnamed(Value_(t, p))
Init == tk \in Docs /\ f = [nm \in Names |-> Of(tk, nm)] /\ n = 0
Set == \E nm \in Names, v \in Vals \cup {None} :
         /\ tk' = Put_(tk, nm, IF v = None THEN None ELSE Named(nm, v))
         /\ f' = [f EXCEPT ![nm] = v]
Next == n < Depth /\ n' = n + 1 /\ Set
Spec == Init /\ [][Next]_vars
\* every query is answered with the latest value
Answers == \A nm \in Names : Of(tk, nm) = f[nm]
\* the list stays that of one object
OneObject == CloseAt(tk, 1, 0) = Len(tk)
=============================================================================
