------------------------------- MODULE Scope -------------------------------
(***************************************************************************)
(* Reading a token stream with scopes: pushScope, nextToken,               *)
(* goToEndOfScope, popScope.                                               *)
(*                                                                         *)
(* A scope is opened at the token just read and ends with the token that   *)
(* closes it (a scalar ends where it begins).  Position p is the number of *)
(* tokens read; scopes is the stack of positions at which scopes end       *)
(* (Never, if the stream stops before).                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
IsOpenV(v) == v \in {"{", "["}
IsCloseV(v) == v \in {"}", "]"}
Never == 1000000

\* position of the token that closes the container opened at p; vt: the value types of the tokens
RECURSIVE CloseAt(_, _, _)
CloseAt(vt, p, d) ==
  IF p > Len(vt) THEN Never
  ELSE LET e == IF IsOpenV(vt[p]) THEN d + 1 ELSE IF IsCloseV(vt[p]) THEN d - 1 ELSE d
       IN IF e = 0 THEN p ELSE CloseAt(vt, p + 1, e)
EndAt(vt, p) == IF IsOpenV(vt[p]) THEN CloseAt(vt, p, 0) ELSE p

Top(sc) == sc[Len(sc)]
Ended(p, sc) == sc # <<>> /\ Top(sc) = p
\* end: what a read beyond the last token gives, "more" or "fail"
NextRes(vt, end, p, sc) ==
  IF Ended(p, sc) THEN [r |-> "ended", p |-> p]
  ELSE IF p < Len(vt) THEN [r |-> "tok", p |-> p + 1]
  ELSE [r |-> end, p |-> p]
\* to the end of the innermost scope; the last token read is the one that ends it
GoRes(vt, end, p, sc) ==
  IF Top(sc) # Never THEN [r |-> "ok", p |-> Top(sc)]
  ELSE [r |-> end, p |-> Len(vt)]
CanPush(vt, p) == p > 0 /\ ~IsCloseV(vt[p])
Push(vt, p, sc) == Append(sc, EndAt(vt, p))
CanPop(p, sc) == Ended(p, sc)
Pop(sc) == SubSeq(sc, 1, Len(sc) - 1)
=============================================================================
