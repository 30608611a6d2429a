------------------------------ MODULE SerTrace ------------------------------
(* Trace validation of the serializer and of reformat.                     *)
EXTENDS Layout, Tok, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k, w, len, ok, same
vars == <<i, k, w, len, ok, same>>
r == Recs[i]
Tks  == IF r.kind = "W" THEN r.tks ELSE r.in.tk
Text == IF r.kind = "W" THEN r.text ELSE r.out

Init == i \in 1..Len(Recs) /\ k = 0 /\ w = W0 /\ len = 0 /\ ok = TRUE /\ same = TRUE
\* one call of Serializer::write; with a buffer that cannot be replaced only as much as fits
Write == /\ k < Len(Tks) /\ same /\ (ok \/ r.room < 0)
         /\ LET t == Tks[k + 1]
                can == CanWrite(r.s, w, t)
                new == IF can THEN Piece(r.s, w, t) ELSE <<>>
                fits == r.room < 0 \/ len + Len(new) <= r.room
                put == IF fits THEN new ELSE SubSeq(new, 1, r.room - len)
            IN /\ same' = At(Text, len, put)
               /\ len' = len + Len(put)
               /\ ok' = (can /\ fits)
               /\ w' = IF can THEN Push(w, t) ELSE w
         /\ k' = k + 1 /\ UNCHANGED i
Spec == Init /\ [][Write]_vars

Result == (r.kind = "W" /\ k > 0) => r.res[k] = ok
Length == (r.kind = "W" /\ k > 0 /\ ok) => r.len[k] = len
Final == k = Len(Tks) \/ (~ok /\ r.room >= 0)
Laid == same /\ (Final => len = Len(Text))
\* and the text means the tokens that were written
Become(t) == IF r.s.quote THEN [t EXCEPT !.vt = IF @ = "A" THEN "S" ELSE @, !.nt = IF @ = "A" /\ t.n # <<>> THEN "S" ELSE @] ELSE t
WrittenTokens == LET good == SelectSeq([j \in 1..Len(r.tks) |-> [t |-> r.tks[j], ok |-> r.res[j]]], LAMBDA x : x.ok)
                 IN [j \in 1..Len(good) |-> Become(good[j].t)]
ReadBack == (r.kind = "W" /\ Final /\ r.room < 0 /\ r.s.delim /\ r.s.base = 0 /\ k > 0 /\ w.stk = <<>> /\ IsOpen(r.tks[1].vt)) => r.back.cm /\ r.back.tk = WrittenTokens

Lexed == (r.lx /\ Final) => LET st == Run([Strict EXCEPT !.a = ~r.s.quote], Text)
                 IN st.out = r.back.tk /\ Complete(st) = r.back.cm
(* reformat *)
RF == r.kind = "R" /\ k = 0
Same(a, b) == [j \in 1..Len(a) |-> Become(a[j])] = b
Reformatted == RF => r.ok = ~r.in.lf
OnlyLayout == RF /\ r.in.cm => r.back.cm /\ Same(r.in.tk, r.back.tk)
Idempotent == RF /\ r.ok /\ r.in.cm => r.ok2 /\ (r.s.quote => r.again = r.out)
PathIndependent == RF /\ r.in.cm /\ r.s.quote => r.comp = r.cdir
FromTokens == RF /\ r.in.tk # <<>> => r.via = r.out
=============================================================================
