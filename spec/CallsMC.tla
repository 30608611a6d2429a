------------------------------ MODULE CallsMC -------------------------------
(* All documents of up to Size members over a fixed set of functions: the  *)
(* rules of Calls stated again, one by one, over whole executions.         *)
EXTENDS Calls
CONSTANT Size
VARIABLES doc, opt
\* values: a number, a text, an object that is complete or breaks off
Tkn(nt, n, vt, v) == [nt |-> nt, n |-> n, vt |-> vt, v |-> v]
Vals(nm) == {<<Tkn("S", nm, "N", <<53>>)>>, <<Tkn("S", nm, "S", <<120>>)>>,
             <<Tkn("S", nm, "[", <<91>>), Tkn("A", <<>>, "N", <<54>>), Tkn("A", <<>>, "]", <<93>>)>>}
Cut(nm) == {<<Tkn("S", nm, "[", <<91>>), Tkn("A", <<>>, "N", <<54>>)>>}
AllNames == {Fn(f).n : f \in 1..Len(World.fns)} \cup UNION {{Fn(f).al[j] : j \in 1..Len(Fn(f).al)} : f \in 1..Len(World.fns)} \cup {<<122, 122>>}
Mems == UNION {Vals(nm) : nm \in AllNames}
Tail1 == UNION {Cut(nm) : nm \in AllNames} \cup {<<Tkn("A", <<>>, "}", <<125>>)>>, <<>>}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Init == /\ doc \in UNION {{[m |-> m, t |-> t] : m \in [1..n -> Mems], t \in Tail1} : n \in 0..Size}
        /\ opt \in {[cls |-> c, cfg |-> [am |-> TRUE, au |-> TRUE, tr |-> TRUE], miss |-> x, stop |-> y] : c \in 1..Len(World.cls), x \in BOOLEAN, y \in BOOLEAN}
Next == UNCHANGED <<doc, opt>>
Spec == Init /\ [][Next]_<<doc, opt>>
toks == <<Tkn("A", <<>>, "{", <<123>>)>> \o Flat(doc.m) \o doc.t
end == Execute(opt, Ctx0, [tk |-> toks, pos |-> <<>>, txt |-> <<>>, lf |-> FALSE])
\* every member that is looked at leaves one entry, in order; nothing is left out before the end
Members1 == Flat(doc.m) \o doc.t
Heads == [j \in 1..Len(doc.m) |-> doc.m[j][1].n]
OneEntryEach == LET all == IF doc.t # <<>> /\ doc.t[1].vt = "[" THEN Append(Heads, doc.t[1].n) ELSE Heads
                IN /\ \A j \in 1..Len(end.ex) : end.ex[j].n = all[j]
                   /\ end.st = "idle" => Len(end.ex) = Len(doc.m)
                   /\ ~opt.stop /\ Len(toks) > 1 => Len(end.ex) = Len(all)
\* a call is made for exactly the entries that are not missing and whose argument could be read
OneCallEach == /\ Len(end.log) = Cardinality({j \in 1..Len(end.ex) : end.ex[j].kind \in {"ok", "user"}})
               /\ end.n = Len(end.log)
\* the function called has that name, or that alias and no function has that name
NamesFit == LET S == SelectSeq(end.ex, LAMBDA e : e.kind \in {"ok", "user"})
            IN \A j \in 1..Len(S) : LET f == Fn(end.log[j].f) IN
                 \/ f.n = S[j].n
                 \/ /\ \E a \in 1..Len(f.al) : f.al[a] = S[j].n
                    /\ \A x \in 1..Len(TLCGet(43)[opt.cls]) : Fn(TLCGet(43)[opt.cls][x]).n # S[j].n
\* the results: brackets, and one value per entry without error whose function returns something
Balanced == LET d == [j \in 1..Len(end.out) |-> IF IsOpen(end.out[j].vt) THEN 1 ELSE IF IsClose(end.out[j].vt) THEN -1 ELSE 0]
                RECURSIVE sum(_) sum(j) == IF j = 0 THEN 0 ELSE d[j] + sum(j - 1)
            IN sum(Len(d)) = 0 /\ \A j \in 1..(Len(d) - 1) : sum(j) > 0
\* an error ends the execution only when asked to, and then it is the last entry
StopsOnly == /\ end.st = "idle" => (opt.stop => \A j \in 1..Len(end.ex) : end.ex[j].kind = "ok" \/ (end.ex[j].kind = "missing" /\ opt.miss))
             /\ \A j \in 1..(Len(end.ex) - 1) : opt.stop => (end.ex[j].kind = "ok" \/ (end.ex[j].kind = "missing" /\ opt.miss))
             /\ (~opt.stop /\ doc.t # <<>> /\ doc.t[1].vt = "}") => end.st = "idle"
\* the other members are not affected by one that fails: without it the calls are the same (functions that never fail by themselves)
Drop(j) == [doc EXCEPT !.m = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]
Quiet == \A f \in 1..Len(World.fns) : Fn(f).mod = 0
Independent == (~opt.stop /\ Quiet /\ doc.t # <<>>) => \A j \in 1..Len(doc.m) : (j <= Len(end.ex) /\ end.ex[j].kind \in {"missing", "parse"}) =>
   LET e2 == Execute(opt, Ctx0, [tk |-> <<Tkn("A", <<>>, "{", <<123>>)>> \o Flat(Drop(j).m) \o doc.t, pos |-> <<>>, txt |-> <<>>, lf |-> FALSE])
   IN e2.log = end.log /\ e2.out = end.out
=============================================================================
