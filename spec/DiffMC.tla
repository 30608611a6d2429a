------------------------------- MODULE DiffMC -------------------------------
(* The marks of Diff.tla against equality of documents as values, for all  *)
(* pairs of documents up to a size.                                        *)
EXTENDS Diff
CONSTANT Size
VARIABLES b, d, n
vars == <<b, d, n>>
Tk(nm, vt, v) == [nt |-> "S", n |-> nm, vt |-> vt, v |-> v]
Names == {<<97>>, <<98>>}
Scalars == {<<"N", <<49>>>>, <<"N", <<49, 46, 48>>>>, <<"N", <<50>>>>, <<"S", <<49>>>>, <<"Z", <<>>>>}
Named(nm, v) == [v EXCEPT ![1].n = nm]
RECURSIVE Vals(_), Lists(_), Mems(_, _)
\* values, sequences of items, and sequences of members with distinct names, of exactly k tokens
Vals(k) == IF k = 1 THEN {<<Tk(<<>>, s[1], s[2])>> : s \in Scalars}
           ELSE {<<Tk(<<>>, "[", <<>>)>> \o l \o <<Tk(<<>>, "]", <<>>)>> : l \in Lists(k - 2)}
             \cup {<<Tk(<<>>, "{", <<>>)>> \o l \o <<Tk(<<>>, "}", <<>>)>> : l \in Mems(k - 2, Names)}
Lists(k) == IF k = 0 THEN {<<>>} ELSE UNION {{v \o l : v \in Vals(j), l \in Lists(k - j)} : j \in 1..k}
Mems(k, N) == IF k = 0 THEN {<<>>} ELSE UNION {{Named(nm, v) \o l : v \in Vals(j), l \in Mems(k - j, N \ {nm})} : nm \in N, j \in 1..k}
Docs == UNION {{v \in Vals(k) : Opens(v[1])} : k \in 2..Size}
O == [fuzzy |-> FALSE, k |-> -1]

Init == b \in Docs /\ d = <<>> /\ n = 0
Next == n = 0 /\ n' = 1 /\ d' \in Docs /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

(* a document as a value: objects are functions from names *)
RECURSIVE Val_(_, _)
Val_(t, p) == CASE t[p].vt = "{" -> <<"o", [nm \in {t[q].n : q \in {Kids(t, p)[i] : i \in 1..Len(Kids(t, p))}} |->
                                     LET q == CHOOSE q \in {Kids(t, p)[i] : i \in 1..Len(Kids(t, p))} : t[q].n = nm IN Val_(t, q)]>>
               [] t[p].vt = "[" -> <<"a", [i \in 1..Len(Kids(t, p)) |-> Val_(t, Kids(t, p)[i])]>>
               [] t[p].vt = "N" -> <<"n", LET x == Decimal(t[p].v) IN <<x.d, x.e>>>>
               [] OTHER -> <<t[p].vt, t[p].v>>
r == DiffOf(b, d, O)
s == DiffOf(d, b, O)
\* no difference exactly when the values are equal
Exact == n = 1 => (Count(r) = 0) = (Val_(b, 1) = Val_(d, 1))
Total == n = 1 => Len(r.m) = Len(d) /\ (Count(r) = 0 <=> \A j \in 1..Len(d) : r.m[j] = "=")
Itself == n = 1 => LET z == DiffOf(d, d, O) IN Count(z) = 0
\* what is new one way is missing the other way
New(x) == Cardinality({j \in 1..Len(x.m) : x.m[j] \in {"N", "A"}})
Mirror == n = 1 => New(r) = Missing(s.x)
\* where a mark says unchanged, the base has that value: the marks of a value are all "=" exactly when its partner equals it
Known == n = 1 => (\A j \in 1..Len(r.m) : r.m[j] \in {"=", "V", "T", "N", "A", "m", "a", "R"})
=============================================================================
