------------------------------- MODULE TokMC -------------------------------
(* Exhaustive check of Tok.tla against TokGrammar.tla: every input over an *)
(* alphabet up to a length, for every option set, pruned at the first      *)
(* error (an error is final).                                              *)
EXTENDS TokGrammar, TLC

CONSTANTS Alphabet,   \* set of fragments (byte sequences)
          MaxLen,     \* number of fragments
          Opts

Bytes1(S) == {<<b>> : b \in S}
\* { } [ ] , : " \ 1 n space
ByteFrags == Bytes1({123, 125, 91, 93, 44, 58, 34, 92, 49, 110, 32})
\* the same with / newline . for the relaxations, no backslash
RelaxBytes == Bytes1({123, 125, 91, 93, 44, 58, 34, 47, 49, 97, 10})
\* { } [ ] , : "k" 1 true w space
LexFrags == Bytes1({123, 125, 91, 93, 44, 58, 49, 119, 32}) \cup {<<34, 107, 34>>, True}
\* ... with newline and a comment
RelaxFrags == Bytes1({123, 125, 91, 93, 44, 58, 49, 119, 10}) \cup {<<34, 34>>, <<47, 47, 120, 10>>, <<47>>}
StrictOnly == {Strict}
AllOpts == Options
VARIABLES o, w, st, n
vars == <<o, w, st, n>>

Init == o \in Opts /\ w = <<>> /\ st = St0 /\ n = 0
Eat(f) == /\ n < MaxLen /\ ~Failed(st)
          /\ w' = w \o f
          /\ st' = RunFrom(o, st, f, 1)
          /\ n' = n + 1
          /\ UNCHANGED o
Next == \E f \in Alphabet : Eat(f)
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A i \in 1..Len(st.stk) : st.stk[i] \in {"O", "A"}
          /\ Failed(st) <=> st.q.m = "X"

(* Accepted exactly when the grammar accepts, with the grammar's tokens.   *)
Agrees == LET r == Parse(o, w) IN
          /\ Complete(st) <=> r.ok
          /\ r.ok => st.out = r.ts

(* Without newline delimiters, switching relaxations on changes nothing    *)
(* for an input that is acceptable without them.                           *)
Conservative ==
  (~Failed(st) /\ o = Strict) =>
     \A a, s, c \in BOOLEAN : LET o2 == [a |-> a, n |-> FALSE, s |-> s, c |-> c] IN
        Run(o2, w).out = st.out /\ ~Failed(Run(o2, w))

(* Brackets are always balanced: what has been emitted is a prefix of a    *)
(* well-bracketed sequence and the stack is its open part.                 *)
RECURSIVE Open1(_, _, _)
Open1(ts, i, s) ==
  IF i > Len(ts) THEN s
  ELSE LET k == ts[i].vt IN
       CASE k = "{" -> Open1(ts, i + 1, Append(s, "O"))
         [] k = "[" -> Open1(ts, i + 1, Append(s, "A"))
         [] k = "}" -> IF Top(s) = "O" THEN Open1(ts, i + 1, SubSeq(s, 1, Len(s) - 1)) ELSE <<"bad">>
         [] k = "]" -> IF Top(s) = "A" THEN Open1(ts, i + 1, SubSeq(s, 1, Len(s) - 1)) ELSE <<"bad">>
         [] OTHER -> Open1(ts, i + 1, s)
Balanced == Open1(st.out, 1, <<>>) = st.stk

(* Tokens are never taken back. *)
AppendOnly == [][Len(st'.out) >= Len(st.out) /\ SubSeq(st'.out, 1, Len(st.out)) = st.out]_vars
=============================================================================
