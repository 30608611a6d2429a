------------------------------ MODULE TokTrace ------------------------------
(* Trace validation of the real tokenizer against Tok.tla.  Each record is *)
(* one execution: options, input, where the input was cut into buffers,    *)
(* the tokens that came out, how it ended.  One step per buffer.           *)
EXTENDS Tok, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i, k, st
vars == <<i, k, st>>

r == Recs[i]
\* buffer k of record i is input[Lo(k)..Hi(k)]
NBuf == Len(r.cuts) + 1
Lo(j) == IF j = 1 THEN 1 ELSE r.cuts[j - 1] + 1
Hi(j) == IF j = NBuf THEN Len(r.in) ELSE r.cuts[j]

Init == i \in 1..Len(Recs) /\ k = 0 /\ st = St0
Feed == /\ k < NBuf
        /\ k' = k + 1
        /\ st' = RunFrom(r.o, st, SubSeq(r.in, Lo(k + 1), Hi(k + 1)), 1)
        /\ UNCHANGED i
Next == Feed
Spec == Init /\ [][Next]_vars

\* While the input is arriving, what the specification has emitted is a prefix of what was
\* observed; a recorded hand-out count is exact.
Prefix == /\ Len(st.out) <= Len(r.toks)
          /\ SubSeq(r.toks, 1, Len(st.out)) = st.out
Mark   == (k < NBuf /\ ~Failed(st) /\ Len(r.marks) > k) => r.marks[k + 1] = Len(st.out)
Done1  == k = NBuf => /\ r.toks = st.out
                      /\ r.failed = Failed(st)
Conforms == Prefix /\ Mark /\ Done1
=============================================================================
