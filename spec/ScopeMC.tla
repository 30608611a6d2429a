------------------------------ MODULE ScopeMC ------------------------------
(***************************************************************************)
(* The scopes of Scope.tla, run next to scopes kept as counters of one     *)
(* bracket type, which only the innermost one updates -- a description of  *)
(* how such a thing is usually implemented.  Both must agree on which      *)
(* tokens are handed out, for every well-formed token stream and every     *)
(* history.                                                                *)
(***************************************************************************)
EXTENDS Scope
CONSTANTS MaxTok, MaxScope
VARIABLES vt, stk, p, sc, ct
vars == <<vt, stk, p, sc, ct>>
\* a token stream is chosen first (vt grows until it is closed), then it is read
Growing == p = 0 /\ sc = <<>>
Init == vt = <<>> /\ stk = <<>> /\ p = 0 /\ sc = <<>> /\ ct = <<>>
Grow == /\ Growing /\ Len(vt) < MaxTok
        /\ \/ \E b \in {"{", "["} : vt' = Append(vt, b) /\ stk' = Append(stk, b)
           \/ stk # <<>> /\ vt' = Append(vt, "N") /\ UNCHANGED stk
           \/ stk # <<>> /\ vt' = Append(vt, IF stk[Len(stk)] = "{" THEN "}" ELSE "]") /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
        /\ UNCHANGED <<p, sc, ct>>
CloseOfType(t) == IF t = "{" THEN "}" ELSE "]"
\* the counters: [t, d]
Handle(c, v) == IF c.t \notin {"{", "["} THEN [c EXCEPT !.d = @ - 1]
                ELSE IF v = c.t THEN [c EXCEPT !.d = @ + 1] ELSE IF v = CloseOfType(c.t) THEN [c EXCEPT !.d = @ - 1] ELSE c
HandleTop(cs, v) == IF cs = <<>> THEN cs ELSE [cs EXCEPT ![Len(cs)] = Handle(@, v)]
Next1 == LET r == NextRes(vt, "more", p, sc) IN
         /\ r.r = "tok" /\ p' = r.p /\ ct' = HandleTop(ct, vt[r.p]) /\ UNCHANGED <<vt, stk, sc>>
DoPush == /\ CanPush(vt, p) /\ Len(sc) < MaxScope /\ ~Ended(p, sc)
          /\ sc' = Push(vt, p, sc) /\ ct' = Append(ct, [t |-> vt[p], d |-> IF IsOpenV(vt[p]) THEN 1 ELSE 0]) /\ UNCHANGED <<vt, stk, p>>
DoPop == /\ CanPop(p, sc) /\ sc' = Pop(sc)
         /\ LET c == ct[Len(ct)] rest == SubSeq(ct, 1, Len(ct) - 1)
            IN ct' = IF IsOpenV(c.t) THEN HandleTop(rest, CloseOfType(c.t)) ELSE rest
         /\ UNCHANGED <<vt, stk, p>>
Next == Grow \/ Next1 \/ DoPush \/ DoPop
Spec == Init /\ [][Next]_vars
\* the innermost counter is zero exactly when the scope has ended
Agree == sc # <<>> => (ct[Len(ct)].d = 0) = Ended(p, sc)
\* scopes are nested: an outer one never ends before an inner one
Nested == \A i \in 1..Len(sc) - 1 : sc[i] >= sc[i + 1]
\* nothing is read past the end of any scope
Inside == \A i \in 1..Len(sc) : p <= sc[i]
=============================================================================
