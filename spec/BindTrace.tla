----------------------------- MODULE BindTrace -----------------------------
(* Trace validation of typed parsing and serializing.  A record is a       *)
(* history of one C++ object: documents parsed into it one after the       *)
(* other, then the object serialized and parsed back.                      *)
EXTENDS Bind, TLC

Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i, k, val, res
vars == <<i, k, val, res>>
r == Recs[i]

NoRes == [ok |-> TRUE, p |-> 0, mi |-> <<>>, un |-> <<>>]
Init == i \in 1..Len(Recs) /\ k = 0 /\ val = DefaultTab[r.ty] /\ res = NoRes
Parse == /\ k < Len(r.steps) /\ res.ok
         /\ LET s == r.steps[k + 1]
                src == [tk |-> s.tk, pos |-> s.pos, txt |-> s.doc]
                x == Read(r.cfg, r.ty, val, src, 1)
            IN /\ val' = x.v
               /\ res' = [ok |-> x.ok, p |-> x.p, mi |-> x.mi, un |-> x.un]
         /\ k' = k + 1 /\ UNCHANGED i
Next == Parse
Spec == Init /\ [][Next]_vars

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in {a[j] : j \in 1..Len(a)} \cup {b[j] : j \in 1..Len(b)} :
                      Cardinality({j \in 1..Len(a) : a[j] = x}) = Cardinality({j \in 1..Len(b) : b[j] = x})

s == r.steps[k]
\* the outcome of the parse
Outcome == k > 0 => s.ok = res.ok
\* the value of the object, inside it nothing else changed
Value == (k > 0 /\ res.ok /\ s.ok) => s.val = val
\* what is reported about names
Reported == k > 0 => SameBag(s.mi, res.mi) /\ SameBag(s.un, res.un)
\* where the parser is afterwards: exactly behind the value
Position == (k > 0 /\ res.ok /\ s.ok) => /\ s.rest = SubSeq(s.tk, res.p + 1, Len(s.tk))
                                         /\ s.rfail = s.lf
Last == k = Len(r.steps) /\ res.ok
\* the text the object is serialized to
TextOk(w) ==
  LET ty == T(r.ty)
  IN /\ w.cm
     /\ IF ty.unord THEN LET b == Read([am |-> FALSE, au |-> TRUE, tr |-> FALSE], r.ty, DefaultTab[r.ty], [tk |-> w.tk, pos |-> <<>>, txt |-> w.text], 1)
                         IN b.ok /\ (ty.rt => b.v = val)
        ELSE AllMatch(Ser(r.ty, val, Anon), w.tk)
     /\ ~ty.raw => LaidOut(Style(w.pretty, w.shift), w.tk, w.text)
Written == Last => \A j \in 1..Len(r.ser) : TextOk(r.ser[j])
\* and back: the same value; values that have no text of their own (a member that was never captured, data behind a
\* null) need only be written the same way again
Back(w) == /\ T(r.ty).rs => w.bok
           /\ T(r.ty).rt => w.back = val
           /\ T(r.ty).rs /\ ~T(r.ty).unord => Ser(r.ty, w.back, Anon) = Ser(r.ty, val, Anon)
RoundTrip == Last => \A j \in 1..Len(r.ser) : Back(r.ser[j])
(* The tokens in a record were computed with the exported control table of *)
(* Tok; for records marked lx TLC computes them itself.                    *)
Lexed == r.lx => /\ k > 0 => LET src == Source(r.o, s.doc) IN src.tk = s.tk /\ src.pos = s.pos /\ src.failed = s.lf
                 /\ Last => \A j \in 1..Len(r.ser) : LET st == Run(Strict, r.ser[j].text) IN st.out = r.ser[j].tk /\ Complete(st) = r.ser[j].cm
=============================================================================
