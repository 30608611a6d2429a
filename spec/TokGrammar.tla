----------------------------- MODULE TokGrammar -----------------------------
(***************************************************************************)
(* What the input language is, independently of how Tok.tla recognises it: *)
(* the JSON grammar as a recursive-descent definition over the complete    *)
(* input, parameterised by the four relaxations, producing the token list  *)
(* in document order.  Tok.tla is checked against this on every input up   *)
(* to a bound (TokMC.tla).                                                  *)
(*                                                                         *)
(* Numbers are recognised by their alphabet only (their spelling is judged *)
(* when they are converted), strings may contain any byte, and what        *)
(* follows a backslash is not judged here either.                          *)
(***************************************************************************)
EXTENDS Tok
CONSTANT StrictCommas

No == [ok |-> FALSE, p |-> 0, ts |-> <<>>]
Yes(p, ts) == [ok |-> TRUE, p |-> p, ts |-> ts]

At(w, p) == IF p <= Len(w) THEN ClassOf(w[p]) ELSE "end"

(* End of the line that contains p: the position of its newline; 0 if the  *)
(* input ends first.                                                       *)
RECURSIVE Nl(_, _)
Nl(w, p) == CASE At(w, p) = "end" -> 0 [] At(w, p) = "nl" -> p [] OTHER -> Nl(w, p + 1)

Comment(o, w, p) == o.c /\ At(w, p) = "sl" /\ At(w, p + 1) = "sl"

(* White space and comments in front of a name, an element or a value; 0   *)
(* if a comment does not end.                                              *)
RECURSIVE Gap(_, _, _)
Gap(o, w, p) ==
  IF At(w, p) \in {"ws", "nl"} THEN Gap(o, w, p + 1)
  ELSE IF Comment(o, w, p) THEN (IF Nl(w, p) = 0 THEN 0 ELSE Gap(o, w, Nl(w, p) + 1))
  ELSE p

(* The same behind a name, an element or a member: stops in front of a     *)
(* newline that is a delimiter, including the one that ends a comment.     *)
RECURSIVE Tail1(_, _, _)
Tail1(o, w, p) ==
  IF At(w, p) = "ws" \/ (At(w, p) = "nl" /\ ~o.n) THEN Tail1(o, w, p + 1)
  ELSE IF Comment(o, w, p) THEN (IF Nl(w, p) = 0 THEN 0 ELSE Tail1(o, w, Nl(w, p)))
  ELSE p

(* Lexemes: [ok, p (behind it), ty, tx] *)
NoLex == [ok |-> FALSE, p |-> 0, ty |-> "-", tx |-> <<>>]
RECURSIVE StrEnd(_, _)
StrEnd(w, p) == CASE At(w, p) = "end" -> 0
                  [] At(w, p) = "q" -> p
                  [] At(w, p) = "bs" -> IF At(w, p + 1) = "end" THEN 0 ELSE StrEnd(w, p + 2)
                  [] OTHER -> StrEnd(w, p + 1)
RECURSIVE While(_, _, _)
While(w, p, S) == IF At(w, p) \in S THEN While(w, p + 1, S) ELSE p
Lex(o, w, p) ==
  LET c == At(w, p) IN
  CASE c = "q" -> LET e == StrEnd(w, p + 1) IN
                  IF e = 0 THEN NoLex ELSE [ok |-> TRUE, p |-> e + 1, ty |-> "S", tx |-> SubSeq(w, p + 1, e - 1)]
    [] c \in NumStart -> LET e == While(w, p, NumCont) IN
                  [ok |-> TRUE, p |-> e, ty |-> "N", tx |-> SubSeq(w, p, e - 1)]
    [] (c \in Letters \/ (o.a /\ c \in AscExtra)) /\ ~Comment(o, w, p) ->
                  LET e == While(w, p, AscCont)
                      x == SubSeq(w, p, e - 1)
                  IN [ok |-> TRUE, p |-> e, ty |-> KwOf(x), tx |-> x]
    [] OTHER -> NoLex

RECURSIVE Members(_, _, _, _, _), Elements(_, _, _, _, _)
(* A container whose opening bracket is at p, opened by token tk. *)
Container(o, w, p, tk) ==
  LET c == At(w, p)
      g == Gap(o, w, p + 1)
      t == <<[tk EXCEPT !.vt = c]>>
  IN IF g = 0 THEN No
     ELSE IF c = "{" THEN (IF At(w, g) = "}" THEN Yes(g + 1, Append(t, Tk("A", <<>>, "}", <<>>)))
                           ELSE Members(o, w, g, t, FALSE))
     ELSE (IF At(w, g) = "]" THEN Yes(g + 1, Append(t, Tk("A", <<>>, "]", <<>>)))
           ELSE Elements(o, w, g, t, FALSE))

(* One value at p carried by token tk; sc: it is a scalar. *)
Value(o, w, p, tk) ==
  IF At(w, p) \in {"{", "["}
  THEN LET r == Container(o, w, p, tk) IN [ok |-> r.ok, p |-> r.p, ts |-> r.ts, sc |-> FALSE]
  ELSE LET x == Lex(o, w, p) IN
       IF ~x.ok \/ (x.ty = "A" /\ ~o.a) THEN [ok |-> FALSE, p |-> 0, ts |-> <<>>, sc |-> TRUE]
       ELSE [ok |-> TRUE, p |-> x.p, ts |-> <<[tk EXCEPT !.vt = x.ty, !.v = x.tx]>>, sc |-> TRUE]

(* Behind a member or an element that ended at p.                          *)
(* Returns how the container goes on: [k |-> "close"/"more"/"no", p]       *)
(* `lenient': a comma may precede the closing bracket.                     *)
Next1(o, w, p, close, lenient) ==
  LET d == Tail1(o, w, p) IN
  IF d = 0 THEN [k |-> "no", p |-> 0]
  ELSE IF At(w, d) = close THEN [k |-> "close", p |-> d]
  ELSE IF At(w, d) = "," \/ (o.n /\ At(w, d) = "nl")
       THEN LET g == Gap(o, w, d + 1) IN
            IF g = 0 THEN [k |-> "no", p |-> 0]
            ELSE IF At(w, g) # close THEN [k |-> "more", p |-> g]
            ELSE IF At(w, d) = "," /\ ~lenient THEN [k |-> "no", p |-> 0]
            ELSE [k |-> "close", p |-> g]
  ELSE [k |-> "no", p |-> 0]

Members(o, w, p, ts, dummy) ==
  LET n == Lex(o, w, p) IN
  IF ~n.ok \/ ~(n.ty = "S" \/ (o.a /\ n.ty = "A")) THEN No
  ELSE LET c == Tail1(o, w, n.p) IN
  IF c = 0 \/ At(w, c) # ":" THEN No
  ELSE LET g == Gap(o, w, c + 1) IN
  IF g = 0 THEN No
  ELSE LET v == Value(o, w, g, Tk(n.ty, n.tx, "-", <<>>)) IN
  IF ~v.ok THEN No
  ELSE LET x == Next1(o, w, v.p, "}", o.s)
           t == ts \o v.ts
  IN CASE x.k = "no" -> No
       [] x.k = "close" -> Yes(x.p + 1, Append(t, Tk("A", <<>>, "}", <<>>)))
       [] x.k = "more" -> Members(o, w, x.p, t, FALSE)

(* Known deviation of json_struct (known_findings.txt): a comma behind a   *)
(* scalar array element may precede the closing bracket without the        *)
(* superfluous-comma option.  StrictCommas = TRUE is what it should be.    *)
Elements(o, w, p, ts, dummy) ==
  LET v == Value(o, w, p, Tk("A", <<>>, "-", <<>>)) IN
  IF ~v.ok THEN No
  ELSE LET x == Next1(o, w, v.p, "]", o.s \/ (v.sc /\ ~StrictCommas))
           t == ts \o v.ts
  IN CASE x.k = "no" -> No
       [] x.k = "close" -> Yes(x.p + 1, Append(t, Tk("A", <<>>, "]", <<>>)))
       [] x.k = "more" -> Elements(o, w, x.p, t, FALSE)

(* A stream of documents. *)
RECURSIVE Docs(_, _, _, _)
Docs(o, w, p, ts) ==
  LET g == Gap(o, w, p) IN
  IF g = 0 \/ At(w, g) \notin {"{", "["} THEN No
  ELSE LET r == Container(o, w, g, Tk("A", <<>>, "-", <<>>)) IN
       IF ~r.ok THEN No
       ELSE IF r.p = Len(w) + 1 THEN Yes(r.p, ts \o r.ts)
       ELSE Docs(o, w, r.p, ts \o r.ts)
Parse(o, w) == Docs(o, w, 1, <<>>)
=============================================================================
