------------------------------- MODULE Layout -------------------------------
(* The serializer: how a token sequence is laid out as text.               *)
(*   s = [pretty, shift, quote, delim, base]: style, indentation width,    *)
(*   are unquoted words written as strings, are commas written, depth at   *)
(*   which the text starts.                                                *)
EXTENDS Integers, Sequences

IsOpen(vt)  == vt \in {"{", "["}
IsClose(vt) == vt \in {"}", "]"}
Spc(n) == [i \in 1..n |-> 32]
Quoted(b) == <<34>> \o b \o <<34>>
TextOf(s, ty, b) == CASE ty = "S" -> Quoted(b)
                      [] ty = "A" -> IF s.quote THEN Quoted(b) ELSE b
                      [] ty = "Z" -> <<110, 117, 108, 108>>
                      [] ty = "{" -> <<123>> [] ty = "}" -> <<125>>
                      [] ty = "[" -> <<91>> [] ty = "]" -> <<93>>
                      [] OTHER -> b

(* State of the serializer: the open containers, whether something was     *)
(* written before, whether the last token opened a container.              *)
W0 == [stk |-> <<>>, first |-> TRUE, open |-> FALSE]
Depth(s, w) == s.base + Len(w.stk)
\* a closing token needs something to close
CanWrite(s, w, t) == IsClose(t.vt) => Depth(s, w) > 0
Push(w, t) == [stk |-> IF IsClose(t.vt) THEN SubSeq(w.stk, 1, Len(w.stk) - 1)
                       ELSE IF IsOpen(t.vt) THEN Append(w.stk, t.vt) ELSE w.stk,
               first |-> FALSE, open |-> IsOpen(t.vt)]
Piece(s, w, t) ==
  LET cl == IsClose(t.vt)
      depth == IF cl THEN Depth(s, w) - 1 ELSE Depth(s, w)
      \* documents that follow each other at the top level have no comma between them
      comma == IF ~w.first /\ ~cl /\ ~w.open /\ s.delim /\ depth > 0 THEN <<44>> ELSE <<>>
      line  == IF s.pretty THEN (IF w.first THEN <<>> ELSE <<10>>) \o Spc(depth * s.shift) ELSE <<>>
      named == ~cl /\ w.stk # <<>> /\ w.stk[Len(w.stk)] = "{"
      name  == IF named THEN TextOf(s, t.nt, t.n) \o (IF s.pretty THEN <<58, 32>> ELSE <<58>>) ELSE <<>>
  IN comma \o line \o name \o TextOf(s, t.vt, t.v)

RECURSIVE LayFrom(_, _, _, _, _)
LayFrom(s, tk, i, w, acc) ==
  IF i > Len(tk) THEN acc ELSE LayFrom(s, tk, i + 1, Push(w, tk[i]), acc \o Piece(s, w, tk[i]))
Style(pretty, shift) == [pretty |-> pretty, shift |-> shift, quote |-> TRUE, delim |-> TRUE, base |-> 0]
Lay(s, tk) == LayFrom(s, tk, 1, W0, <<>>)
\* the bytes of text behind position p start with b
At(text, p, b) == p + Len(b) <= Len(text) /\ \A j \in 1..Len(b) : text[p + j] = b[j]
RECURSIVE LaidFrom(_, _, _, _, _, _)
LaidFrom(s, tk, i, w, text, p) ==
  IF i > Len(tk) THEN p = Len(text)
  ELSE LET b == Piece(s, w, tk[i]) IN At(text, p, b) /\ LaidFrom(s, tk, i + 1, Push(w, tk[i]), text, p + Len(b))
LaidOut(s, tk, text) == LaidFrom(s, tk, 1, W0, text, 0)      \* Lay(s, tk) = text
=============================================================================
