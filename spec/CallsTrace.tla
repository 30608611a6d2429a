----------------------------- MODULE CallsTrace -----------------------------
(* Trace validation: documents executed one after the other with one       *)
(* context.  A step of the behaviour is one document.                      *)
EXTENDS Calls
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k, c
vars == <<i, k, c>>
r == Recs[i]
opt == [cls |-> r.cls, cfg |-> r.cfg, miss |-> r.miss, stop |-> r.stop]
src == [tk |-> r.tk, pos |-> r.pos, txt |-> r.doc, lf |-> r.lf]
Init == i \in 1..Len(Recs) /\ k = 0 /\ c = Ctx0
Next == /\ k < Len(r.runs) /\ c.st = "idle"
        /\ c' = Execute(opt, c, src) /\ k' = k + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in {a[j] : j \in 1..Len(a)} \cup {b[j] : j \in 1..Len(b)} :
                      Cardinality({j \in 1..Len(a) : a[j] = x}) = Cardinality({j \in 1..Len(b) : b[j] = x})
q == r.runs[k]
\* what is returned
Returned == k > 0 /\ c.st # "open" => q.ok = (c.st = "idle")
\* the functions called, in order, with their arguments
Called == k > 0 => IF c.st = "open" THEN IsPrefix(c.log, q.log) ELSE q.log = c.log
\* what is recorded about every member of all documents so far
Same(a, b) == a.n = b.n /\ a.kind = b.kind /\ SameBag(a.mi, b.mi) /\ SameBag(a.un, b.un) /\ a.msg = b.msg /\ a.told = (b.kind # "ok")
Listed == k > 0 => /\ IF c.st = "open" THEN Len(q.ex) >= Len(c.ex) ELSE Len(q.ex) = Len(c.ex)
                   /\ \A j \in 1..Len(c.ex) : Same(q.ex[j], c.ex[j])
                   /\ q.who
Bracketed == k > 0 => q.before = k /\ q.after = k
\* as many documents as there are
Ends == k > 0 /\ k = Len(r.runs) => c.st # "idle" \/ k = 8
\* the results
AtEnd == k > 0 /\ k = Len(r.runs)
Results == AtEnd => IF c.st = "open" THEN r.w.cm /\ Len(r.w.tk) > Len(c.out) /\ AllMatch(c.out, SubSeq(r.w.tk, 1, Len(c.out))) /\ LaidOut(Style(r.pretty, r.shift), r.w.tk, r.text)
                    ELSE IF c.out = <<>> THEN r.text = <<>>
                    ELSE AllMatch(c.out, r.w.tk) /\ LaidOut(Style(r.pretty, r.shift), r.w.tk, r.text)
Lexed == r.lx /\ AtEnd => /\ LET s == Source(r.o, r.doc) IN s.tk = r.tk /\ s.pos = r.pos /\ s.failed = r.lf
                          /\ Run(Strict, r.text).out = r.w.tk
=============================================================================
