------------------------------- MODULE Calls -------------------------------
(* Documents that call functions of an object: an object whose members     *)
(* name functions, the values being their arguments.                       *)
(*   A function: [n, al, arg, ret, ctx, mod, tag, msg]                     *)
(*     n, al  its name and its aliases                                     *)
(*     arg    type of its argument, 0 if it has none                       *)
(*     ret    "" | "echo" (returns its argument) | "tag" (returns tag)     *)
(*     ctx, mod  it can report an error, and does so (with the text msg)   *)
(*            when the number of calls so far is a multiple of mod         *)
(*   A class: its functions and the classes it inherits from.              *)
EXTENDS Bind, TLC, SequencesExt

World == JsonDeserialize(IOEnv.CALLS)
Fn(i) == World.fns[i]

(* Lookup: names come before aliases, wherever they are declared; within   *)
(* either, the last declared function first, then the classes inherited    *)
(* from, the last one first.                                               *)
RECURSIVE Order(_), OrderSu(_, _)
Order(c) == Reverse(World.cls[c].f) \o OrderSu(World.cls[c].su, Len(World.cls[c].su))
OrderSu(su, i) == IF i = 0 THEN <<>> ELSE Order(su[i]) \o OrderSu(su, i - 1)
ASSUME TLCSet(43, [c \in 1..Len(World.cls) |-> Order(c)])
FirstIn(s, P(_)) == LET S == {i \in 1..Len(s) : P(s[i])} IN IF S = {} THEN 0 ELSE s[CHOOSE i \in S : \A j \in S : i <= j]
Lookup(c, nm) ==
  LET ord == TLCGet(43)[c]
      a == FirstIn(ord, LAMBDA f : Fn(f).n = nm)
      b == FirstIn(ord, LAMBDA f : \E i \in 1..Len(Fn(f).al) : Fn(f).al[i] = nm)
  IN IF a # 0 THEN a ELSE b

(* The state of a context: position p behind which the document is read,   *)
(* number of calls, the calls made, results written, what was recorded     *)
(* about each member.  st: "idle" between documents, "run" within one,     *)
(* "fail": the document could not be executed to its end; "open": the      *)
(* tokenizer rejected something inside an argument, whether and where the  *)
(* execution goes on behind it is left open.                               *)
Ctx0 == [st |-> "idle", p |-> 0, n |-> 0, log |-> <<>>, out |-> <<>>, ex |-> <<>>]
CtxEntry(nm, kind, mi, un, msg) == [n |-> nm, kind |-> kind, mi |-> mi, un |-> un, msg |-> msg]
CtxClose(c, st) == [c EXCEPT !.st = st, !.out = Append(@, SX(Anon, "]", <<>>))]
\* stopped where the next token is needed
CtxNext(c, tk, p) == IF p + 1 > Len(tk) THEN CtxClose([c EXCEPT !.p = p], "fail") ELSE [c EXCEPT !.p = p]
CtxOpen(c, tk) ==
  LET p == c.p + 1 IN
  IF p > Len(tk) THEN [c EXCEPT !.st = "fail", !.log = <<>>]
  ELSE IF tk[p].vt # "{" \/ p + 1 > Len(tk) THEN [c EXCEPT !.st = "fail", !.log = <<>>]
  ELSE [c EXCEPT !.st = "run", !.p = p, !.log = <<>>, !.out = Append(@, SX(Anon, "[", <<>>))]

(* One member.  opt = [cls, cfg, miss, stop]: the class, the parser's      *)
(* settings, may functions be missing, does an error end the execution.    *)
CtxResult(f, v) == CASE Fn(f).ret = "" -> <<>> [] Fn(f).ret = "echo" -> Ser(Fn(f).arg, v, Anon) [] OTHER -> Ser(World.str, [s |-> Fn(f).tag], Anon)
CtxMember(opt, c, src) ==
  LET p == c.p + 1
      k == src.tk[p]
      f == Lookup(opt.cls, k.n)
      e == End(src.tk, p)
      x == IF Fn(f).arg = 0 THEN (IF e = 0 THEN No(0) ELSE Ok(0, e)) ELSE Read(opt.cfg, Fn(f).arg, DefaultTab[Fn(f).arg], src, p)
      n == c.n + 1
      err == Fn(f).ctx /\ Fn(f).mod > 0 /\ n % Fn(f).mod = 0
      called == [c EXCEPT !.n = n, !.log = Append(@, IF Fn(f).arg = 0 THEN [f |-> f] ELSE [f |-> f, v |-> x.v]),
                          !.ex = Append(@, CtxEntry(k.n, IF err THEN "user" ELSE "ok", x.mi, x.un, IF err THEN Fn(f).msg ELSE <<>>)),
                          !.out = IF err THEN @ ELSE @ \o CtxResult(f, x.v)]
      after == IF f = 0 THEN [c EXCEPT !.ex = Append(@, CtxEntry(k.n, "missing", <<>>, <<>>, <<>>))]
               ELSE IF ~x.ok THEN [c EXCEPT !.ex = Append(@, CtxEntry(k.n, "parse", x.mi, x.un, <<>>))]
               ELSE called
      bad == IF f = 0 THEN ~opt.miss ELSE ~x.ok \/ err
  IN IF opt.stop /\ bad THEN CtxClose(after, "fail")
     ELSE IF e = 0 THEN (IF src.lf /\ f # 0 THEN [after EXCEPT !.st = "open"] ELSE CtxClose(after, "fail"))
     ELSE CtxNext(after, src.tk, e)
CtxFinish(c) == CtxClose([c EXCEPT !.p = @ + 1], "idle")
\* one document executed to its end
RECURSIVE CtxMembers(_, _, _)
CtxMembers(opt, c, src) == IF c.st # "run" THEN c
                        ELSE IF src.tk[c.p + 1].vt = "}" THEN CtxFinish(c)
                        ELSE CtxMembers(opt, CtxMember(opt, c, src), src)
Execute(opt, c, src) == CtxMembers(opt, CtxOpen(c, src.tk), src)
=============================================================================
