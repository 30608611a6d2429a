------------------------------ MODULE MapTrace ------------------------------
(* Trace validation of histories of a map, and of metadata.  The model of  *)
(* a map is the token list of the document it stands for (Members.tla).    *)
EXTENDS Bind, Members, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, k, tk
vars == <<i, k, tk>>
r == Recs[i]
ops == IF r.kind = "H" THEN r.ops ELSE <<>>
Changes(op) == op \in {"D", "S", "A"}
Init == i \in 1..Len(Recs) /\ k = 0 /\ tk = <<>>
\* the spelling of what is set is up to the code, so the next state is what was observed; Right says what it has to be
Next == /\ k < (IF r.kind = "H" THEN Len(ops) ELSE 1)
        /\ k' = k + 1 /\ UNCHANGED i
        /\ tk' = IF r.kind = "H" /\ Changes(ops[k + 1].op) /\ ops[k + 1].ok THEN ops[k + 1].obs ELSE tk
Spec == Init /\ [][Next]_vars
op == ops[k]
H(x) == r.kind = "H" /\ k > 0 /\ op.op = x

Same(a, b) == a.vt = b.vt /\ a.v = b.v /\ a.n = b.n /\ (a.n # <<>> => a.nt = b.nt)
AllSame(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Same(a[j], b[j])
Kept(t) == IF t = <<>> THEN Empty ELSE t

\* what the map holds after the step
Parsed == H("D") => LET e == End(op.tk, 1) IN op.ok = (e > 0) /\ (op.ok => AllSame(op.obs, SubSeq(op.tk, 1, e)))
\* (checked on the transition: tk is the state before)
SetRight == [][LET x == ops[k'] IN (r.kind = "H" /\ x.op \in {"S", "A"}) =>
    /\ x.ok
    /\ LET new == Ser(x.ty, x.val, IF x.op = "A" THEN Anon ELSE DecName(x.name))
           base == IF x.op = "A" THEN <<>> ELSE Without(Kept(tk), x.name)
           n == IF x.op = "A" THEN 0 ELSE Len(base) - 1
       IN /\ Len(x.obs) = (IF x.op = "A" THEN Len(new) ELSE Len(base) + Len(new))
          /\ \A j \in 1..n : Same(x.obs[j], base[j])
          /\ AllMatch(new, SubSeq(x.obs, n + 1, n + Len(new)))
          /\ x.op = "S" => x.obs[Len(x.obs)].vt = "}"]_vars
\* a copy and a moved map hold the same
Copied == (H("Y") \/ H("V")) => AllSame(op.obs, tk)
\* the index is that of the tokens; iterating visits the members
IndexRight == (r.kind = "H" /\ k > 0 /\ op.op \in {"D", "S", "A", "Y", "V"} /\ (op.op = "D" => op.ok) /\ op.obs # <<>>) =>
    /\ op.meta = MetaOf(op.obs)
    /\ Opens(op.obs[1]) => SelectSeq(op.it, LAMBDA p : p < Len(op.obs)) = Kids(op.obs, 1)
\* queries
Found == (H("F") /\ (tk = <<>> \/ tk[1].vt = "{")) => op.at = (IF tk = <<>> THEN 0 ELSE Lookup(tk, op.name))
Cfg == [am |-> TRUE, au |-> TRUE, tr |-> TRUE]
AsRead(p) == LET x == Read(Cfg, op.ty, DefaultTab[op.ty], [tk |-> tk, pos |-> <<>>, txt |-> <<>>], p)
             IN op.ok = x.ok /\ (x.ok => op.val = x.v)
Cast == H("C") => /\ op.ok = op.pok
                  /\ IF tk = <<>> \/ tk[1].vt # "{" THEN ~op.ok
                     ELSE LET p == Lookup(tk, op.name) IN IF p = 0 THEN op.nf ELSE ~op.nf /\ AsRead(p)
Whole == (H("W") /\ tk # <<>>) => op.ok = op.pok /\ AsRead(1)
Written == H("X") => /\ op.cm /\ LaidOut(Style(op.pretty, op.shift), op.tk, op.text)
                     /\ AllSame(op.tk, Kept(tk))
\* metadata of a token list
MetaRight == (r.kind = "M" /\ k = 1 /\ r.whole) => /\ r.meta = MetaOf(r.tk)
                                        /\ r.first = [j \in 1..Len(r.meta) |-> FirstWithData(r.meta, j)]
Lexed == (r.kind = "M" /\ k = 1 /\ r.lx) => Run(Strict, r.doc).out = r.tk
=============================================================================
