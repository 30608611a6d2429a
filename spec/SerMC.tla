------------------------------- MODULE SerMC -------------------------------
(* What the serializer writes is what the tokenizer reads: every document- *)
(* shaped token sequence up to a bound, in every style.                    *)
EXTENDS Layout, Tok, TLC

CONSTANTS MaxTok, Styles, Scalars, Names
FewScalars == {[vt |-> "N", v |-> <<49>>], [vt |-> "S", v |-> <<92, 34, 44>>], [vt |-> "A", v |-> <<119>>]}
FewNames == {[nt |-> "S", n |-> <<>>], [nt |-> "A", n |-> <<107>>]}
AllScalars == {[vt |-> "N", v |-> <<49>>], [vt |-> "S", v |-> <<>>], [vt |-> "S", v |-> <<92, 34, 44>>], [vt |-> "A", v |-> <<119>>],
            [vt |-> "B", v |-> True], [vt |-> "Z", v |-> Null]}
AllNames == {[nt |-> "S", n |-> <<>>], [nt |-> "S", n |-> <<58, 125>>], [nt |-> "A", n |-> <<107>>]}
AllStyles == {[pretty |-> p, shift |-> h, quote |-> q, delim |-> TRUE, base |-> 0] : p \in BOOLEAN, h \in {0, 1, 2}, q \in BOOLEAN}

FewStyles == {[pretty |-> p, shift |-> 1, quote |-> q, delim |-> TRUE, base |-> 0] : p, q \in BOOLEAN}
VARIABLES s, w, tks, text
vars == <<s, w, tks, text>>
InObj == w.stk # <<>> /\ w.stk[Len(w.stk)] = "{"
Init == s \in Styles /\ w = W0 /\ tks = <<>> /\ text = <<>>
Put(t) == /\ Len(tks) < MaxTok /\ CanWrite(s, w, t)
          /\ tks' = Append(tks, t) /\ text' = text \o Piece(s, w, t) /\ w' = Push(w, t) /\ UNCHANGED s
Anon(x) == [nt |-> "A", n |-> <<>>, vt |-> x.vt, v |-> x.v]
Memb(m, x) == [nt |-> m.nt, n |-> m.n, vt |-> x.vt, v |-> x.v]
Opens == {[vt |-> "{", v |-> <<>>], [vt |-> "[", v |-> <<>>]}
Next == \/ w.stk = <<>> /\ \E x \in Opens : Put(Anon(x))
        \/ InObj /\ \E m \in Names, x \in Opens \cup Scalars : Put(Memb(m, x))
        \/ InObj /\ Put(Anon([vt |-> "}", v |-> <<>>]))
        \/ w.stk # <<>> /\ ~InObj /\ \E x \in Opens \cup Scalars : Put(Anon(x))
        \/ w.stk # <<>> /\ ~InObj /\ Put(Anon([vt |-> "]", v |-> <<>>]))
Spec == Init /\ [][Next]_vars

\* what is read back: unquoted words have become strings if they are written as such
Become(t) == IF s.quote THEN [t EXCEPT !.vt = IF @ = "A" THEN "S" ELSE @, !.nt = IF @ = "A" /\ t.n # <<>> THEN "S" ELSE @] ELSE t
Expect == [i \in 1..Len(tks) |-> Become(tks[i])]
\* a number or word at the very end may still go on
Lag(st) == Len(Expect) - Len(st.out)
ReadBack == LET st == Run([Strict EXCEPT !.a = ~s.quote], text)
            IN /\ ~Failed(st)
               /\ Lag(st) \in {0, 1}
               /\ st.out = SubSeq(Expect, 1, Len(st.out))
               /\ (tks # <<>> /\ w.stk = <<>>) => Complete(st) /\ Lag(st) = 0
IsWs(b) == b \in {32, 10}
\* outside strings: the strings of this instance contain neither blanks nor line breaks
CompactNoWs == ~s.pretty => \A i \in 1..Len(text) : ~IsWs(text[i])
Lines == Len(SelectSeq(text, LAMBDA b : b = 10)) + 1
PrettyLines == (s.pretty /\ tks # <<>>) => Lines = Len(tks)
\* laying out is a function of the tokens; writing what was read gives the same text
Canonical == LET st == Run([Strict EXCEPT !.a = ~s.quote], text)
             IN Lag(st) = 0 => Lay(s, st.out) = text
=============================================================================
