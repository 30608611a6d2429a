----------------------------- MODULE RelTrace -----------------------------
(***************************************************************************)
(* Which buffer is given back when.  An input arrives in buffers 1..N;     *)
(* det[k] is the number of tokens that are determined by the first k of    *)
(* them (computed with Tok), errb the buffer with the byte that makes the  *)
(* input malformed (0: none).  A buffer is given back exactly when all     *)
(* tokens it determines were handed out and something beyond it is needed. *)
(* When the input is replaced by another one ("reset") all buffers of the  *)
(* old one are given back, in order, and reading starts afresh.            *)
(*   p      which input is being read (a record has one or two parts)      *)
(*   added  buffers handed to the tokenizer      rel  given back           *)
(*   n      tokens handed out                    off  the input is replaced *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, p, k, added, rel, n, off, bad
vars == <<i, p, k, added, rel, n, off, bad>>
r == Recs[i].parts[p]
Det(b) == IF b = 0 THEN 0 ELSE r.det[b]
Init == i \in 1..Len(Recs) /\ p = 1 /\ k = 0 /\ added = 0 /\ rel = 0 /\ n = 0 /\ off = FALSE /\ bad = FALSE
CanTok(t) == n < Det(added) /\ t = r.tk[n + 1] /\ n >= Det(rel)
CanRel(b) == b = rel + 1 /\ b <= added /\ n = Det(b) /\ (r.errb = 0 \/ b < r.errb)
CanMore == rel = added /\ n = Det(added)
CanFail == r.errb # 0 /\ added >= r.errb /\ rel = r.errb - 1 /\ n = Len(r.tk)
Held(e) == e.nb = added - rel
Do == /\ k < Len(r.ev) /\ ~bad /\ k' = k + 1 /\ UNCHANGED <<i, p>>
      /\ LET e == r.ev[k + 1] IN
         /\ added' = IF e.e = "add" THEN added + 1 ELSE added
         /\ rel' = IF e.e = "rel" THEN e.b ELSE rel
         /\ n' = IF e.e = "tok" THEN n + 1 ELSE n
         /\ off' = (off \/ e.e = "reset")
         /\ bad' = ~CASE off -> e.e = "rel" /\ e.b = rel + 1 /\ e.b <= added
                      [] e.e \in {"add", "reset"} -> TRUE
                      [] e.e = "tok" -> CanTok(e.tok) /\ Held(e)
                      [] e.e = "rel" -> CanRel(e.b)
                      [] e.e = "more" -> CanMore /\ Held(e)
                      [] e.e = "fail" -> CanFail /\ Held(e)
                      [] OTHER -> FALSE
Switch == /\ k = Len(r.ev) /\ ~bad /\ p < Len(Recs[i].parts)
          /\ p' = p + 1 /\ k' = 0 /\ added' = 0 /\ rel' = 0 /\ n' = 0 /\ off' = FALSE /\ UNCHANGED i
          /\ bad' = ~(off /\ rel = added)
Next == Do \/ Switch
Spec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
