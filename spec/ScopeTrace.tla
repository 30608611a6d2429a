---------------------------- MODULE ScopeTrace ----------------------------
(* Trace validation of reading with scopes.  A record has the value types  *)
(* of the tokens of the input according to Tok (vt), the outcome behind    *)
(* them (end), and the operations performed with what each returned:       *)
(* res, and the number (1-based) of the token returned, found by its       *)
(* position in the stream (tok: token contents, compared with tk).         *)
EXTENDS Scope, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k, p, sc, bad
vars == <<i, k, p, sc, bad>>
r == Recs[i]
vt == [j \in 1..Len(r.tk) |-> r.tk[j].vt]
Init == i \in 1..Len(Recs) /\ k = 0 /\ p = 0 /\ sc = <<>> /\ bad = FALSE
Do ==
  /\ k < Len(r.ops) /\ ~bad
  /\ k' = k + 1 /\ UNCHANGED i
  /\ LET op == r.ops[k + 1]
         e == CASE op.op = "n" -> NextRes(vt, r.end, p, sc)
                [] op.op = "g" -> GoRes(vt, r.end, p, sc)
                [] OTHER -> [r |-> "none", p |-> p]
     IN /\ p' = e.p
        /\ sc' = CASE op.op = "p" -> Push(vt, p, sc) [] op.op = "o" -> Pop(sc) [] OTHER -> sc
        /\ bad' = ~(op.res = e.r /\ (e.r \in {"tok", "ok"} => op.tok = r.tk[e.p]) /\ (op.op = "o" => CanPop(p, sc)))
Next == Do
Spec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
