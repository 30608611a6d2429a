------------------------------ MODULE DiffTrace ------------------------------
(* Trace validation of histories of a diff context: a base, documents      *)
(* compared with it, changes of the base and of the options.               *)
EXTENDS Diff, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k, base, ds, o
vars == <<i, k, base, ds, o>>
r == Recs[i]
Init == i \in 1..Len(Recs) /\ k = 0 /\ base = 0 /\ ds = <<>> /\ o = [fuzzy |-> TRUE, k |-> 6]
Opt(x) == [fuzzy |-> x.fuzzy, k |-> x.k]
Tk(j) == IF j = 0 THEN <<>> ELSE r.docs[j]
Empty(j) == Tk(j) = <<>>
Next == /\ k < Len(r.ops) /\ k' = k + 1 /\ UNCHANGED i
        /\ LET x == r.ops[k + 1] IN
           CASE x.op = "B" -> base' = x.doc /\ ds' = <<>> /\ o' = Opt(x)
             [] x.op = "D" -> base' = base /\ ds' = (IF Empty(x.doc) THEN ds ELSE Append(ds, x.doc)) /\ o' = o
             [] x.op = "C" -> base' = ds[x.pos + 1] /\ ds' = [ds EXCEPT ![x.pos + 1] = base] /\ o' = o
             [] x.op = "I" -> base' = base /\ ds' = ds /\ o' = Opt(x)
Spec == Init /\ [][Next]_vars
op == r.ops[k]
Fits(a, e) == a = e \/ (e = "?" /\ a \in {"=", "V"})
Same(a, b) == a.vt = b.vt /\ a.v = b.v /\ a.n = b.n
AllSame(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Same(a[j], b[j])
\* obs: what the diff of document j says
Judge(obs, j) == LET e == DiffOf(Tk(base), Tk(j), o)
                 IN /\ Len(obs.m) = Len(e.m) /\ \A q \in 1..Len(e.m) : Fits(obs.m[q], e.m[q])
                    /\ Len(obs.x) = Len(e.x) /\ \A q \in 1..Len(e.x) : obs.x[q].at = e.x[q].at /\ AllSame(obs.x[q].tk, e.x[q].tk)
                    /\ IF Empty(j) /\ ~Empty(base) THEN obs.count > 0 ELSE obs.count = Count([m |-> obs.m, x |-> e.x])
Added == (k > 0 /\ op.op = "D") => IF Empty(op.doc) THEN op.pos = -1 /\ op.err
                                   ELSE /\ op.pos = Len(ds) - 1 /\ ~op.err /\ Len(op.obs) = 1 /\ Judge(op.obs[1], op.doc)
Redone == (k > 0 /\ op.op \in {"C", "I"}) => Len(op.obs) = Len(ds) /\ \A q \in 1..Len(ds) : Judge(op.obs[q], ds[q])
=============================================================================
