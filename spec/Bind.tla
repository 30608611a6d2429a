-------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* What parsing a document into a C++ value means, and what serializing    *)
(* the value means.                                                        *)
(*                                                                         *)
(* Types is a table of type descriptions (records with a field k); types   *)
(* refer to each other by index, so they may be recursive.  A value is a   *)
(* record whose shape depends on its type.  Read consumes tokens produced  *)
(* by the tokenizer model; src holds the tokens, the source text and the   *)
(* position of each token in it, for types that capture source text.       *)
(***************************************************************************)
EXTENDS Tok, Num, Str, Layout, FiniteSets, Json, IOUtils

\* the type table (a definition, so that TLC evaluates it once)
Types == JsonDeserialize(IOEnv.TYPES)
T(i) == Types[i]

(* Does a member of this type have to be present? *)
Optionals == {"opt", "optc", "sopt", "up", "sils", "silv", "silp"}

---------------------------------------------------------------------------
(* Values *)
RECURSIVE Default(_)
RECURSIVE FieldDefaults(_)
Default(ty) ==
  LET t == T(ty) IN
  CASE t.k = "int" -> [neg |-> FALSE, d |-> <<0>>]
    [] t.k = "enumv" -> [neg |-> FALSE, d |-> <<0>>]
    [] t.k = "flt" -> [neg |-> FALSE, d |-> <<>>, e |-> 0]
    [] t.k = "bool" -> [b |-> FALSE]
    [] t.k \in {"str", "sils"} -> [s |-> <<>>]
    [] t.k = "enum" -> [en |-> 0]
    [] t.k = "time" -> [neg |-> FALSE, d |-> <<0>>]
    [] t.k \in {"jobj", "jarr", "joa", "robj", "rarr", "roa"} -> [s |-> <<>>]
    [] t.k = "jtok" -> [t |-> <<>>]
    [] t.k \in {"vec", "set", "uset", "one", "avc", "silv"} -> [l |-> <<>>]
    [] t.k \in {"arr", "sarr"} -> [l |-> [i \in 1..t.n |-> Default(t.t)]]
    [] t.k \in {"tup", "stup"} -> [l |-> [i \in 1..Len(t.ts) |-> Default(t.ts[i])]]
    [] t.k \in {"map", "umap"} -> [kv |-> <<>>]
    [] t.k \in {"nul", "opt"} -> Default(t.t)
    [] t.k = "nulc" -> [null |-> TRUE, v |-> Default(t.t)]
    [] t.k = "optc" -> [asg |-> FALSE, v |-> Default(t.t)]
    [] t.k \in {"sopt", "up", "sp", "silp"} -> [has |-> FALSE]
    [] t.k = "struct" -> [m |-> FieldDefaults(ty)]

(***************************************************************************)
(* Fields of a struct: its own members in order, then those of its super   *)
(* classes, the last super class first.  pre: how a missing member is      *)
(* reported.                                                               *)
(***************************************************************************)
RECURSIVE FieldsOf(_, _)
RECURSIVE SuperFields(_, _)
FieldsOf(ty, pre) ==
  LET t == T(ty) IN
  [i \in 1..Len(t.ms) |-> [n |-> t.ms[i].n, al |-> t.ms[i].al, t |-> t.ms[i].t, pre |-> pre]] \o SuperFields(t.su, Len(t.su))
SuperFields(su, i) == IF i = 0 THEN <<>> ELSE FieldsOf(su[i].t, su[i].n \o <<58, 58>>) \o SuperFields(su, i - 1)
\* (computed once per type)
FieldTab == [i \in 1..Len(Types) |-> IF T(i).k = "struct" THEN FieldsOf(i, <<>>) ELSE <<>>]
Fields(ty) == FieldTab[ty]
FieldDefaults(ty) == LET f == Fields(ty) IN [i \in 1..Len(f) |-> Default(f[i].t)]

DefaultTab == [i \in 1..Len(Types) |-> Default(i)]
\* The field a JSON name belongs to: by its name first, then by an alias; 0 if none.
Find(f, nm) ==
  LET prim == {i \in 1..Len(f) : f[i].n = nm}
      alia == {i \in 1..Len(f) : \E j \in 1..Len(f[i].al) : f[i].al[j] = nm}
      pick(S) == CHOOSE i \in S : \A j \in S : j <= i
  IN IF prim # {} THEN pick(prim) ELSE IF alia # {} THEN pick(alia) ELSE 0

---------------------------------------------------------------------------
(* Tokens with the byte position at which each of them was complete.       *)
RECURSIVE Lex(_, _, _, _, _)
Lex(o, st, pos, bytes, i) ==
  IF i > Len(bytes) \/ st.err # "-" THEN [st |-> st, pos |-> pos]
  ELSE LET s == Step(o, st, ClassOf(bytes[i]), bytes[i], Slash)
       IN Lex(o, s, pos \o [j \in 1..(Len(s.out) - Len(pos)) |-> i], bytes, i + 1)
Source(o, bytes) == LET r == Lex(o, St0, <<>>, bytes, 1)
                    IN [tk |-> r.st.out, pos |-> r.pos, txt |-> bytes, failed |-> Failed(r.st)]

\* the token closing the container opened by token p; p itself for a scalar; 0 if it is not there
RECURSIVE CloseOf(_, _, _)
CloseOf(tk, p, depth) ==
  IF p > Len(tk) THEN 0
  ELSE LET d == IF IsOpen(tk[p].vt) THEN depth + 1 ELSE IF IsClose(tk[p].vt) THEN depth - 1 ELSE depth
       IN IF d = 0 THEN p ELSE CloseOf(tk, p + 1, d)
End(tk, p) == IF p > Len(tk) THEN 0 ELSE IF IsOpen(tk[p].vt) THEN CloseOf(tk, p, 0) ELSE p

---------------------------------------------------------------------------
(***************************************************************************)
(* Read(cfg, ty, prev, src, p): the value of type ty at token p, where     *)
(* prev is the value before.  Result: ok, v the new value, p the last      *)
(* token consumed, mi the names that matched nothing, un the required      *)
(* members without a value.                                                *)
(* cfg = [am, au, tr]: are unknown members and missing required members    *)
(* allowed, are they collected.                                            *)
(***************************************************************************)
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p, mi |-> <<>>, un |-> <<>>]
No(v) == [ok |-> FALSE, v |-> v, p |-> 0, mi |-> <<>>, un |-> <<>>]
With(r, a) == [r EXCEPT !.mi = a.mi \o @, !.un = a.un \o @]

BytesLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN a[i] < b[i]

\* entries sorted by key
RECURSIVE PutKV(_, _, _)
PutKV(kv, key, v) ==
  IF kv = <<>> THEN <<[k |-> key, v |-> v]>>
  ELSE IF Head(kv).k = key THEN <<[k |-> key, v |-> v]>> \o Tail(kv)
  ELSE IF BytesLess(key, Head(kv).k) THEN <<[k |-> key, v |-> v]>> \o kv
  ELSE <<Head(kv)>> \o PutKV(Tail(kv), key, v)

\* order of set elements: integers by value, strings by bytes
IntLess(a, b) == IF a.neg # b.neg THEN a.neg ELSE IF a.neg THEN Less(b.d, a.d) ELSE Less(a.d, b.d)
ElemLess(ty, a, b) == IF T(ty).k = "int" THEN IntLess(a, b) ELSE BytesLess(a.s, b.s)
RECURSIVE PutSorted(_, _, _)
PutSorted(ty, l, x) == IF l = <<>> THEN <<x>>
                       ELSE IF ElemLess(ty, x, Head(l)) THEN <<x>> \o l
                       ELSE <<Head(l)>> \o PutSorted(ty, Tail(l), x)

Capture(src, p, e) == SubSeq(src.txt, src.pos[p], src.pos[e])
TextTrue == <<116, 114, 117, 101>>
TextFalse == <<102, 97, 108, 115, 101>>
TextNull == <<110, 117, 108, 108>>

(* Point in time, in nanoseconds: the number of digits tells the unit.     *)
TimeNs(n) == \* n: digits of a natural number
  LET le(d, z) == ~Less(<<1>> \o Zeros(z), d)     \* d <= 10^z
      scale == IF le(n, 11) THEN 9 ELSE IF le(n, 14) THEN 6 ELSE IF le(n, 17) THEN 3 ELSE 0
  IN IF n = <<0>> THEN <<0>> ELSE n \o Zeros(scale)

RECURSIVE Read(_, _, _, _, _)
RECURSIVE ReadMembers(_, _, _, _, _, _, _)
RECURSIVE ReadElems(_, _, _, _, _, _)
RECURSIVE ReadFixed(_, _, _, _, _, _)
RECURSIVE ReadMap(_, _, _, _, _)
RECURSIVE ReadSet(_, _, _, _, _)

Read(cfg, ty, prev, src, p) ==
  IF p > Len(src.tk) THEN No(prev)
  ELSE
  LET t == T(ty)
      k == src.tk[p]
      scalar == k.vt \notin {"{", "}", "[", "]"}
      num == Decimal(k.v)
      inner(pv) == Read(cfg, t.t, pv, src, p)
      wrap(r, f(_)) == [r EXCEPT !.v = f(@)]
  IN
  CASE t.k \in {"int", "enumv"} ->
         IF scalar /\ num.ok THEN Ok(ToInt(num, t.w, t.s), p) ELSE No(prev)
    [] t.k = "flt" ->
         IF scalar /\ num.ok THEN Ok([neg |-> num.neg, d |-> num.d, e |-> num.e], p) ELSE No(prev)
    [] t.k = "time" ->
         IF scalar /\ num.ok THEN Ok([neg |-> FALSE, d |-> TimeNs(ToInt(num, 64, FALSE).d)], p) ELSE No(prev)
    [] t.k = "bool" ->
         IF scalar /\ k.v \in {TextTrue, TextFalse} THEN Ok([b |-> k.v = TextTrue], p) ELSE No(prev)
    [] t.k \in {"str", "sils"} ->
         IF IsClose(k.vt) THEN No(prev)
         ELSE IF scalar THEN Ok([s |-> Decode(k.v)], p)
         ELSE LET e == End(src.tk, p) IN IF e = 0 THEN No(prev) ELSE Ok([s |-> <<>>], e)
    [] t.k = "enum" ->
         IF k.vt = "S" THEN
           LET S == {i \in 1..Len(t.names) : t.names[i] = k.v}
           IN IF S = {} THEN No(prev) ELSE Ok([en |-> (CHOOSE i \in S : TRUE) - 1], p)
         ELSE IF k.vt = "N" /\ num.ok THEN
           LET v == ToInt(num, 32, TRUE)
           IN IF v.neg \/ Len(v.d) > 3 \/ ToNat(v.d, 0) >= Len(t.names) THEN No(prev) ELSE Ok([en |-> ToNat(v.d, 0)], p)
         ELSE No(prev)
    [] t.k \in {"jobj", "robj", "jarr", "rarr", "joa", "roa"} ->
         LET want == CASE t.k \in {"jobj", "robj"} -> {"{"} [] t.k \in {"jarr", "rarr"} -> {"["} [] OTHER -> {"{", "["}
             e == End(src.tk, p)
         IN IF k.vt \notin want \/ e = 0 THEN No(prev) ELSE Ok([s |-> Capture(src, p, e)], e)
    [] t.k = "jtok" ->
         LET e == End(src.tk, p)
         IN IF IsClose(k.vt) \/ e = 0 THEN No(prev) ELSE Ok([t |-> SubSeq(src.tk, p, e)], e)
    [] t.k \in {"vec", "silv"} ->
         IF k.vt # "[" THEN No(prev) ELSE ReadElems(cfg, t.t, <<>>, src, p + 1, 999999)
    [] t.k = "avc" ->
         IF k.vt # "[" THEN No(prev) ELSE ReadElems(cfg, t.t, <<>>, src, p + 1, t.n)
    [] t.k = "one" ->
         IF k.vt = "[" THEN ReadElems(cfg, t.t, <<>>, src, p + 1, 999999)
         ELSE LET r == inner(DefaultTab[t.t]) IN wrap(r, LAMBDA x : [l |-> <<x>>])
    [] t.k \in {"arr", "sarr"} ->
         IF k.vt # "[" THEN No(prev) ELSE ReadFixed(cfg, [i \in 1..t.n |-> t.t], prev.l, 1, src, p + 1)
    [] t.k \in {"tup", "stup"} ->
         IF k.vt # "[" THEN No(prev) ELSE ReadFixed(cfg, t.ts, prev.l, 1, src, p + 1)
    [] t.k \in {"set", "uset"} ->
         IF k.vt # "[" THEN No(prev) ELSE ReadSet(cfg, t.t, <<>>, src, p + 1)
    [] t.k \in {"map", "umap"} ->
         IF k.vt # "{" THEN No(prev) ELSE ReadMap(cfg, t.t, prev.kv, src, p + 1)
    [] t.k = "nul" -> IF k.vt = "Z" THEN Ok(prev, p) ELSE inner(prev)
    [] t.k = "nulc" ->
         IF k.vt = "Z" THEN Ok([null |-> TRUE, v |-> prev.v], p)
         ELSE wrap(inner(prev.v), LAMBDA x : [null |-> FALSE, v |-> x])
    [] t.k = "opt" -> inner(prev)
    [] t.k = "optc" -> wrap(inner(prev.v), LAMBDA x : [asg |-> TRUE, v |-> x])
    [] t.k = "sopt" -> wrap(inner(DefaultTab[t.t]), LAMBDA x : [has |-> TRUE, v |-> x])
    [] t.k \in {"up", "sp", "silp"} ->
         IF k.vt = "Z" THEN Ok([has |-> FALSE], p)
         ELSE wrap(inner(IF prev.has THEN prev.v ELSE DefaultTab[t.t]), LAMBDA x : [has |-> TRUE, v |-> x])
    [] t.k = "struct" ->
         IF k.vt # "{" THEN No(prev)
         ELSE LET f == Fields(ty) IN ReadMembers(cfg, f, prev.m, [i \in 1..Len(f) |-> FALSE], <<>>, src, p + 1)

(* members of an object; vals: the fields' values; asg: which were assigned; *)
(* acc: mi/un collected so far                                              *)
ReadMembers(cfg, f, vals, asg, acc0, src, p) ==
  LET acc == IF acc0 = <<>> THEN [mi |-> <<>>, un |-> <<>>] ELSE acc0 IN
  IF p > Len(src.tk) THEN With(No([m |-> vals]), acc)
  ELSE LET k == src.tk[p] IN
  IF k.vt = "}" THEN
    LET lack == SelectSeq([i \in 1..Len(f) |-> IF asg[i] \/ T(f[i].t).k \in Optionals THEN 0 ELSE i], LAMBDA x : x # 0)
        un == IF cfg.tr THEN [i \in 1..Len(lack) |-> f[lack[i]].pre \o f[lack[i]].n] ELSE <<>>
        r == With(Ok([m |-> vals], p), acc)
    IN [r EXCEPT !.ok = (lack = <<>> \/ cfg.au), !.un = @ \o un]
  ELSE LET j == Find(f, k.n) IN
    IF j = 0 THEN
      LET acc2 == IF cfg.tr THEN [acc EXCEPT !.mi = Append(@, k.n)] ELSE acc
          e == End(src.tk, p)
      IN IF ~cfg.am \/ e = 0 THEN With(No([m |-> vals]), acc2)
         ELSE ReadMembers(cfg, f, vals, asg, acc2, src, e + 1)
    ELSE LET r == Read(cfg, f[j].t, vals[j], src, p)
             acc2 == [mi |-> acc.mi \o r.mi, un |-> acc.un \o r.un]
         IN IF ~r.ok THEN With(No([m |-> vals]), acc2)
            ELSE ReadMembers(cfg, f, [vals EXCEPT ![j] = r.v], [asg EXCEPT ![j] = TRUE], acc2, src, r.p + 1)

(* elements of an array, at most n of them *)
ReadElems(cfg, et, l, src, p, n) ==
  IF p > Len(src.tk) THEN No([l |-> l])
  ELSE IF src.tk[p].vt = "]" THEN Ok([l |-> l], p)
  ELSE IF n = 0 THEN No([l |-> l])
  ELSE LET r == Read(cfg, et, DefaultTab[et], src, p)
       IN IF ~r.ok THEN [No([l |-> l]) EXCEPT !.mi = r.mi, !.un = r.un]
          ELSE With(ReadElems(cfg, et, Append(l, r.v), src, r.p + 1, n - 1), r)

(* exactly one element per type in ts *)
ReadFixed(cfg, ts, l, i, src, p) ==
  IF p > Len(src.tk) THEN No([l |-> l])
  ELSE IF i > Len(ts) THEN (IF src.tk[p].vt = "]" THEN Ok([l |-> l], p) ELSE No([l |-> l]))
  ELSE IF src.tk[p].vt = "]" THEN No([l |-> l])
  ELSE LET r == Read(cfg, ts[i], l[i], src, p)
       IN IF ~r.ok THEN [No([l |-> l]) EXCEPT !.mi = r.mi, !.un = r.un]
          ELSE With(ReadFixed(cfg, ts, [l EXCEPT ![i] = r.v], i + 1, src, r.p + 1), r)

ReadSet(cfg, et, l, src, p) ==
  IF p > Len(src.tk) THEN No([l |-> l])
  ELSE IF src.tk[p].vt = "]" THEN Ok([l |-> l], p)
  ELSE LET r == Read(cfg, et, DefaultTab[et], src, p)
       IN IF ~r.ok \/ \E i \in 1..Len(l) : l[i] = r.v THEN No([l |-> l])
          ELSE With(ReadSet(cfg, et, PutSorted(et, l, r.v), src, r.p + 1), r)

ReadMap(cfg, et, kv, src, p) ==
  IF p > Len(src.tk) THEN No([kv |-> kv])
  ELSE IF src.tk[p].vt = "}" THEN Ok([kv |-> kv], p)
  ELSE LET r == Read(cfg, et, DefaultTab[et], src, p)
       IN IF ~r.ok THEN [No([kv |-> kv]) EXCEPT !.mi = r.mi, !.un = r.un]
          ELSE With(ReadMap(cfg, et, PutKV(kv, Decode(src.tk[p].n), r.v), src, r.p + 1), r)

---------------------------------------------------------------------------
(***************************************************************************)
(* Ser(ty, v, nm): the tokens a value is written as, under the name nm.    *)
(* Names and strings are given by their contents (types "s" and "n"); how  *)
(* they are spelled is decided by Matches.  "f": a floating point number.  *)
(***************************************************************************)
SX(nm, vt, v) == [nm |-> nm, vt |-> vt, v |-> v]
Anon == [k |-> "none", b |-> <<>>]
RawName(b) == [k |-> "raw", b |-> b]
DecName(b) == [k |-> "dec", b |-> b]

RECURSIVE Ser(_, _, _)
RECURSIVE SerList(_, _, _)
RECURSIVE SerFields(_, _, _)
RECURSIVE SerKV(_, _, _)
TokX(tk, nm) == [i \in 1..Len(tk) |-> SX(IF i = 1 THEN nm ELSE IF tk[i].nt = "A" /\ tk[i].n = <<>> THEN Anon ELSE RawName(tk[i].n), tk[i].vt, tk[i].v)]
List(nm, ts, l) == <<SX(nm, "[", <<>>)>> \o SerList(ts, l, 1) \o <<SX(Anon, "]", <<>>)>>
TimeText(ns) ==  \* factors of 1000 are dropped as long as more than 10^10 remains
  LET RECURSIVE f(_)
      f(d) == IF Less(<<1>> \o Zeros(10), d) /\ Len(d) > 3 /\ \A i \in 0..2 : d[Len(d) - i] = 0
              THEN f(SubSeq(d, 1, Len(d) - 3)) ELSE d
  IN f(ns)
Ser(ty, v, nm) ==
  LET t == T(ty)
      null == <<SX(nm, "Z", TextNull)>>
  IN
  CASE t.k \in {"int", "enumv"} -> <<SX(nm, "N", IntText(v))>>
    [] t.k = "time" -> <<SX(nm, "N", IntText([neg |-> FALSE, d |-> TimeText(v.d)]))>>
    [] t.k = "flt" -> <<SX(nm, "f", v)>>
    [] t.k = "bool" -> <<SX(nm, "B", IF v.b THEN TextTrue ELSE TextFalse)>>
    [] t.k = "str" -> <<SX(nm, "s", v.s)>>
    [] t.k = "sils" -> IF v.s = <<>> THEN <<>> ELSE <<SX(nm, "s", v.s)>>
    [] t.k = "enum" -> <<SX(nm, "S", t.names[v.en + 1])>>
    [] t.k \in {"jobj", "robj", "jarr", "rarr", "joa", "roa"} ->
         IF v.s = <<>> THEN (IF t.k \in {"jarr", "rarr"} THEN <<SX(nm, "[", <<>>), SX(Anon, "]", <<>>)>>
                             ELSE <<SX(nm, "{", <<>>), SX(Anon, "}", <<>>)>>)
         ELSE TokX(Run(Strict, v.s).out, nm)
    [] t.k = "jtok" -> TokX(v.t, nm)
    [] t.k \in {"vec", "set", "uset", "avc"} -> List(nm, [i \in 1..Len(v.l) |-> t.t], v.l)
    [] t.k = "silv" -> IF v.l = <<>> THEN <<>> ELSE List(nm, [i \in 1..Len(v.l) |-> t.t], v.l)
    [] t.k = "one" -> IF v.l = <<>> THEN <<>> ELSE IF Len(v.l) = 1 THEN Ser(t.t, v.l[1], nm)
                      ELSE List(nm, [i \in 1..Len(v.l) |-> t.t], v.l)
    [] t.k \in {"arr", "sarr"} -> List(nm, [i \in 1..t.n |-> t.t], v.l)
    [] t.k \in {"tup", "stup"} -> List(nm, t.ts, v.l)
    [] t.k \in {"map", "umap"} -> <<SX(nm, "{", <<>>)>> \o SerKV(t.t, v.kv, 1) \o <<SX(Anon, "}", <<>>)>>
    [] t.k \in {"nul", "opt"} -> Ser(t.t, v, nm)
    [] t.k = "nulc" -> IF v.null THEN null ELSE Ser(t.t, v.v, nm)
    [] t.k = "optc" -> IF v.asg THEN Ser(t.t, v.v, nm) ELSE <<>>
    [] t.k \in {"sopt", "silp"} -> IF v.has THEN Ser(t.t, v.v, nm) ELSE <<>>
    [] t.k \in {"up", "sp"} -> IF v.has THEN Ser(t.t, v.v, nm) ELSE null
    [] t.k = "struct" -> <<SX(nm, "{", <<>>)>> \o SerFields(Fields(ty), v.m, 1) \o <<SX(Anon, "}", <<>>)>>
SerList(ts, l, i) == IF i > Len(l) THEN <<>> ELSE Ser(ts[i], l[i], Anon) \o SerList(ts, l, i + 1)
SerFields(f, m, i) == IF i > Len(f) THEN <<>> ELSE Ser(f[i].t, m[i], RawName(f[i].n)) \o SerFields(f, m, i + 1)
SerKV(et, kv, i) == IF i > Len(kv) THEN <<>> ELSE Ser(et, kv[i].v, DecName(kv[i].k)) \o SerKV(et, kv, i + 1)

(* Does the token tk, found in the output, stand for x? *)
NameMatches(nm, tk) ==
  CASE nm.k = "none" -> tk.nt = "A" /\ tk.n = <<>>
    [] nm.k = "raw" -> tk.nt = "S" /\ tk.n = nm.b
    [] nm.k = "dec" -> tk.nt = "S" /\ Spells(tk.n, nm.b)
Matches(x, tk) ==
  /\ NameMatches(x.nm, tk)
  /\ CASE x.vt = "s" -> tk.vt = "S" /\ Spells(tk.v, x.v)
       [] x.vt = "f" -> tk.vt = "N" /\ LET n == Decimal(tk.v) IN n.ok /\ n.neg = x.v.neg /\ n.d = x.v.d /\ n.e = x.v.e
       [] OTHER -> tk.vt = x.vt /\ tk.v = x.v
AllMatch(xs, tk) == Len(xs) = Len(tk) /\ \A i \in 1..Len(xs) : Matches(xs[i], tk[i])
=============================================================================
