-------------------------------- MODULE Meta --------------------------------
(* The metadata of a token list: one entry per object or array, in the     *)
(* order of their opening tokens.  MetaOf says what an entry is; Walk is   *)
(* one pass over the tokens with a stack of the open containers.           *)
EXTENDS Integers, Sequences, FiniteSets
Opens(t) == t.vt \in {"{", "["}
Closes(t) == t.vt \in {"}", "]"}

\* the token closing the container opened at p; 0 if it is not there
RECURSIVE CloseAt(_, _, _)
CloseAt(tk, p, d) == IF p > Len(tk) THEN 0
                     ELSE LET e == IF Opens(tk[p]) THEN d + 1 ELSE IF Closes(tk[p]) THEN d - 1 ELSE d
                          IN IF e = 0 THEN p ELSE CloseAt(tk, p + 1, e)
Last_(tk, p) == IF Opens(tk[p]) THEN CloseAt(tk, p, 0) ELSE p

\* positions of the direct children of the container opened at p
RECURSIVE KidsFrom(_, _)
KidsFrom(tk, p) == IF Closes(tk[p]) THEN <<>> ELSE <<p>> \o KidsFrom(tk, Last_(tk, p) + 1)
Kids(tk, p) == KidsFrom(tk, p + 1)

Entry(tk, p) ==
  LET e == CloseAt(tk, p, 0)
      kids == Kids(tk, p)
  IN [position |-> p - 1, size |-> e - p + 1,
      skip |-> Cardinality({q \in p..e : Opens(tk[q])}),
      children |-> Len(kids),
      complex_children |-> Cardinality({q \in 1..Len(kids) : Opens(tk[kids[q]])}),
      is_array |-> tk[p].vt = "[",
      has_data |-> \E q \in p..e : ~Opens(tk[q]) /\ ~Closes(tk[q])]
RECURSIVE OpenPos(_, _)
OpenPos(tk, p) == IF p > Len(tk) THEN <<>> ELSE (IF Opens(tk[p]) THEN <<p>> ELSE <<>>) \o OpenPos(tk, p + 1)
MetaOf(tk) == LET o == OpenPos(tk, 1) IN [j \in 1..Len(o) |-> Entry(tk, o[j])]

(* One pass: m the entries so far, st the indices of the open ones.        *)
W0_ == [m |-> <<>>, st |-> <<>>]
WStep(w, t, p) ==
  LET in(j) == \E q \in 1..Len(w.st) : w.st[q] = j
      top(j) == w.st # <<>> /\ w.st[Len(w.st)] = j
      upd == [j \in 1..Len(w.m) |->
        [w.m[j] EXCEPT !.size = IF in(j) THEN @ + 1 ELSE @,
                       !.children = IF top(j) /\ ~Closes(t) THEN @ + 1 ELSE @,
                       !.complex_children = IF top(j) /\ Opens(t) THEN @ + 1 ELSE @,
                       !.skip = IF in(j) /\ Opens(t) THEN @ + 1 ELSE @,
                       !.has_data = @ \/ (in(j) /\ ~Opens(t) /\ ~Closes(t))]]
  IN IF Opens(t) THEN [m |-> Append(upd, [position |-> p - 1, size |-> 1, skip |-> 1, children |-> 0, complex_children |-> 0, is_array |-> t.vt = "[", has_data |-> FALSE]),
                       st |-> Append(w.st, Len(w.m) + 1)]
     ELSE IF Closes(t) THEN [m |-> upd, st |-> SubSeq(w.st, 1, Len(w.st) - 1)]
     ELSE [m |-> upd, st |-> w.st]

\* the first child container that has data, counted among the containers from 0; -1 if none
FirstWithData(m, j) ==
  LET RECURSIVE go(_, _)
      go(c, n) == IF c >= m[j].complex_children THEN -1
                  ELSE IF m[n].has_data THEN c ELSE go(c + 1, n + m[n].skip)
  IN IF ~m[j].has_data THEN -1 ELSE go(0, j + 1)
=============================================================================
