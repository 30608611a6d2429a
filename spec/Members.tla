------------------------------ MODULE Members ------------------------------
(* The members of an object given as a token list: looking up, removing    *)
(* and adding them by (decoded) name.                                      *)
EXTENDS Meta, Str
Empty == <<[nt |-> "A", n |-> <<>>, vt |-> "{", v |-> <<>>], [nt |-> "A", n |-> <<>>, vt |-> "}", v |-> <<>>]>>
\* the first member with this name; 0 if there is none
Lookup(tk, nm) == LET S == SelectSeq(Kids(tk, 1), LAMBDA p : Decode(tk[p].n) = nm) IN IF S = <<>> THEN 0 ELSE S[1]
Value_(tk, p) == SubSeq(tk, p, Last_(tk, p))
RECURSIVE Without(_, _)
Without(tk, nm) == LET p == Lookup(tk, nm)
                   IN IF p = 0 THEN tk ELSE Without(SubSeq(tk, 1, p - 1) \o SubSeq(tk, Last_(tk, p) + 1, Len(tk)), nm)
\* add: the tokens of the new member, none if the value is absent
Put_(tk, nm, add) == LET b == Without(tk, nm) IN SubSeq(b, 1, Len(b) - 1) \o add \o <<b[Len(b)]>>
=============================================================================
