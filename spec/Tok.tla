-------------------------------- MODULE Tok --------------------------------
(***************************************************************************)
(* The json_struct tokenizer as a pushdown transducer that consumes one    *)
(* input character at a time.                                              *)
(*                                                                         *)
(* There is no notion of an input buffer here: a buffer boundary between   *)
(* two characters is a stuttering step.  That the real tokenizer, which    *)
(* does work buffer by buffer, produces the same tokens for every          *)
(* segmentation is therefore exactly conformance to this module.           *)
(*                                                                         *)
(* Control is finite: `Delta' maps (options, control, top of the container *)
(* stack, character class, "is the current lexeme a keyword") to a new     *)
(* control and a list of actions; `Apply' interprets the actions on the    *)
(* unbounded part of the state (stack, lexemes, emitted tokens).  The      *)
(* finite part is exported by TokTable.tla and drives the conformance      *)
(* harness.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

(* Character classes.  NUL is not a character of this model.               *)
Classes == {"ws",     \* space, tab, carriage return
            "nl",     \* newline
            "{", "}", "[", "]", ",", ":",
            "q",      \* "
            "bs",     \* \
            "sl",     \* /
            "dig",    \* 0-9
            "plus",   \* +
            "minus",  \* -
            "dot",    \* .
            "e",      \* e E
            "let",    \* the other ASCII letters
            "hat",    \* ^ _ `
            "oth"}    \* everything else, including all bytes above 0x7f

NumStart  == {"dig", "plus", "minus"}
NumCont   == {"dig", "plus", "minus", "dot", "e"}
Letters   == {"let", "e"}
AscExtra  == {"hat", "dot", "sl"}           \* may also start an unquoted string
AscCont   == Letters \cup AscExtra \cup {"dig", "minus"}

(* Options: a = unquoted strings, n = newline as delimiter,                *)
(*          s = superfluous commas, c = comments.                          *)
Options == [a : BOOLEAN, n : BOOLEAN, s : BOOLEAN, c : BOOLEAN]
Strict  == [a |-> FALSE, n |-> FALSE, s |-> FALSE, c |-> FALSE]

(***************************************************************************)
(* Control state                                                           *)
(*  m : "N" looking for a name / an array element / a closing bracket      *)
(*      "D" a name or an array element is complete, looking for what       *)
(*          follows it                                                     *)
(*      "V" a name and a colon are complete, looking for the value         *)
(*      "E" a member or a container is complete, looking for , or close    *)
(*      "X" failed                                                         *)
(*  s : where inside that                                                  *)
(*  x : a comma was seen and something has to follow                       *)
(*  t : type of the completed name in modes D and V                        *)
(***************************************************************************)
Q(m, s, x, t) == [m |-> m, s |-> s, x |-> x, t |-> t]
Q0 == Q("N", "start", FALSE, "-")

Res(q, acts, again) == [q |-> q, acts |-> acts, again |-> again, err |-> "-"]
Fail(q, e) == [q |-> Q("X", "start", q.x, "-"), acts |-> <<>>, again |-> FALSE, err |-> e]

\* appending to the lexeme being collected
Col(q) == IF q.m = "N" THEN "n+" ELSE "v+"

(* A container bracket closes or opens while looking for a name/element.   *)
Open(o, q, top, c) ==
  IF top = "O" THEN Fail(q, "ExpectedPropertyName")
  ELSE Res(Q("N", "start", FALSE, "-"), IF c = "{" THEN <<"open{">> ELSE <<"open[">>, FALSE)

Close(o, q, top, c) ==
  IF q.x /\ ~o.s THEN Fail(q, "ExpectedDataToken")
  ELSE IF c = "}" /\ top # "O" THEN Fail(q, "UnexpectedObjectEnd")
  ELSE IF c = "]" /\ top # "A" THEN Fail(q, "UnexpectedArrayEnd")
  ELSE Res(Q("E", "start", q.x, "-"), IF c = "}" THEN <<"close}">> ELSE <<"close]">>, FALSE)

(* First character of a name, an element or a value. *)
Start(o, q, top, c) ==
  CASE c \in {"ws", "nl"} -> Res(q, <<>>, FALSE)
    [] c = "q" -> Res([q EXCEPT !.s = "str"], <<>>, FALSE)
    [] c \in NumStart -> Res([q EXCEPT !.s = "num"], <<Col(q)>>, FALSE)
    [] c = "sl" /\ o.c -> Res([q EXCEPT !.s = "slash"], <<>>, FALSE)
    [] c \in Letters \/ (o.a /\ c \in AscExtra) -> Res([q EXCEPT !.s = "asc"], <<Col(q)>>, FALSE)
    [] c \in {"{", "["} ->
         IF q.m = "N" THEN Open(o, q, top, c)
         ELSE Res(Q("N", "start", FALSE, "-"),
                  IF c = "{" THEN <<"mopen{">> ELSE <<"mopen[">>, FALSE)
    [] c \in {"}", "]"} ->
         IF q.m = "N" THEN Close(o, q, top, c) ELSE Fail(q, "ExpectedDataToken")
    [] OTHER -> Fail(q, "EncounteredIllegalChar")

(* The lexeme of type ty is complete; `again' tells whether c belongs to   *)
(* what follows.                                                           *)
Done(o, q, ty, acts, again) ==
  IF q.m = "N" THEN Res(Q("D", "start", q.x, ty), acts, again)
  ELSE IF ty = "A" /\ ~o.a THEN Fail(q, "IllegalDataValue")
  ELSE Res(Q("E", "start", q.x, "-"), acts \o <<CASE ty = "S" -> "membS" [] ty = "N" -> "membN"
                                                  [] ty = "A" -> "membA" [] ty = "B" -> "membB"
                                                  [] ty = "Z" -> "membZ">>, again)

AfterComment(o, q, c) ==
  IF c # "nl" THEN Res(q, <<>>, FALSE)
  ELSE Res([q EXCEPT !.s = "start"], <<>>, o.n)  \* a newline delimiter also ends the comment

(* kw: what the current lexeme is if it is an unquoted one: "B" for true   *)
(* and false, "Z" for null, "A" for anything else.                         *)
InNV(o, q, top, c, kw) ==
  CASE q.s = "start" -> Start(o, q, top, c)
    [] q.s = "str" ->
         IF c = "q" THEN Done(o, q, "S", <<>>, FALSE)
         ELSE IF c = "bs" THEN Res([q EXCEPT !.s = "esc"], <<Col(q)>>, FALSE)
         ELSE Res(q, <<Col(q)>>, FALSE)
    [] q.s = "esc" -> Res([q EXCEPT !.s = "str"], <<Col(q)>>, FALSE)
    [] q.s = "num" -> IF c \in NumCont THEN Res(q, <<Col(q)>>, FALSE) ELSE Done(o, q, "N", <<>>, TRUE)
    [] q.s = "asc" -> IF c \in AscCont THEN Res(q, <<Col(q)>>, FALSE) ELSE Done(o, q, kw, <<>>, TRUE)
    [] q.s = "slash" ->
         IF c = "sl" THEN Res([q EXCEPT !.s = "com"], <<>>, FALSE)
         ELSE IF o.a THEN Res([q EXCEPT !.s = "asc"], <<IF q.m = "N" THEN "n/" ELSE "v/">>, TRUE)
         ELSE Fail(q, "EncounteredIllegalChar")
    [] q.s = "com" -> AfterComment(o, q, c)

(* An array element is complete. *)
Elem(o, q, again) ==
  IF q.t = "A" /\ ~o.a THEN Fail(q, "IllegalDataValue")
  ELSE Res(Q("N", "start", FALSE, "-"),
           <<CASE q.t = "S" -> "elemS" [] q.t = "N" -> "elemN" [] q.t = "A" -> "elemA"
               [] q.t = "B" -> "elemB" [] q.t = "Z" -> "elemZ">>, again)

InD(o, q, top, c) ==
  IF top = "-" THEN Fail(q, "IllegalPropertyType")     \* a document is an object or an array
  ELSE CASE q.s = "slash" -> IF c = "sl" THEN Res([q EXCEPT !.s = "com"], <<>>, FALSE)
                             ELSE Fail(q, "ExpectedDelimiter")
    [] q.s = "com" -> AfterComment(o, q, c)
    [] OTHER ->
       CASE c = ":" -> IF top # "O" THEN Fail(q, "ExpectedDelimiter")
                       ELSE IF q.t = "S" \/ (o.a /\ q.t = "A") THEN Res(Q("V", "start", FALSE, q.t), <<>>, FALSE)
                       ELSE Fail(q, "IllegalPropertyName")
         [] c = "," \/ (o.n /\ c = "nl") -> IF top = "A" THEN Elem(o, q, FALSE) ELSE Fail(q, "ExpectedDelimiter")
         [] c = "]" -> IF top = "A" THEN Elem(o, q, TRUE) ELSE Fail(q, "ExpectedDelimiter")
         [] c = "sl" /\ o.c -> Res([q EXCEPT !.s = "slash"], <<>>, FALSE)
         [] c \in {"ws", "nl"} -> Res(q, <<>>, FALSE)
         [] OTHER -> Fail(q, "ExpectedDelimiter")

InE(o, q, top, c) ==
  IF top = "-" THEN Res(Q("N", "start", q.x, "-"), <<>>, TRUE)   \* next document
  ELSE CASE q.s = "slash" -> IF c = "sl" THEN Res([q EXCEPT !.s = "com"], <<>>, FALSE)
                             ELSE Fail(q, "InvalidToken")
    [] q.s = "com" -> AfterComment(o, q, c)
    [] OTHER ->
       CASE c = "," -> Res(Q("N", "start", TRUE, "-"), <<>>, FALSE)
         [] c \in {"}", "]"} -> Res(Q("N", "start", q.x, "-"), <<>>, TRUE)
         [] c = "nl" -> IF o.n THEN Res(Q("N", "start", q.x, "-"), <<>>, FALSE) ELSE Res(q, <<>>, FALSE)
         [] c = "sl" /\ o.c -> Res([q EXCEPT !.s = "slash"], <<>>, FALSE)
         [] c = "ws" -> Res(q, <<>>, FALSE)
         [] OTHER -> Fail(q, "InvalidToken")

Delta(o, q, top, c, kw) ==
  CASE q.m = "X" -> Res(q, <<>>, FALSE)
    [] q.m \in {"N", "V"} -> InNV(o, q, top, c, kw)
    [] q.m = "D" -> InD(o, q, top, c)
    [] q.m = "E" -> InE(o, q, top, c)

(***************************************************************************)
(* Bytes.                                                                  *)
(***************************************************************************)
Slash == 47
ClassOf(b) ==
  CASE b \in {32, 9, 13} -> "ws"
    [] b = 10 -> "nl"
    [] b = 123 -> "{" [] b = 125 -> "}" [] b = 91 -> "[" [] b = 93 -> "]"
    [] b = 44 -> "," [] b = 58 -> ":" [] b = 34 -> "q" [] b = 92 -> "bs" [] b = Slash -> "sl"
    [] b \in 48..57 -> "dig" [] b = 43 -> "plus" [] b = 45 -> "minus" [] b = 46 -> "dot"
    [] b \in {69, 101} -> "e"
    [] b \in (65..90) \cup (97..122) -> "let"
    [] b \in 94..96 -> "hat"
    [] OTHER -> "oth"

True  == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null  == <<110, 117, 108, 108>>
KwOf(lex) == CASE lex \in {True, False} -> "B" [] lex = Null -> "Z" [] OTHER -> "A"

(***************************************************************************)
(* The unbounded part: container stack, lexemes, tokens, first error.      *)
(* Characters are bytes with a class; lexemes are sequences of            *)
(* the bytes; KwOf classifies an unquoted lexeme.                          *)
(***************************************************************************)
Tk(nt, n, vt, v) == [nt |-> nt, n |-> n, vt |-> vt, v |-> v]

St0 == [q |-> Q0, stk |-> <<>>, n |-> <<>>, v |-> <<>>, out |-> <<>>, err |-> "-"]
Top(stk) == IF stk = <<>> THEN "-" ELSE stk[Len(stk)]

Act(st, a, b, slash, nt) ==
  LET emit(tk) == [st EXCEPT !.out = Append(@, tk), !.n = <<>>, !.v = <<>>]
      anon(vt, v) == emit(Tk("A", <<>>, vt, v))
      memb(vt) == emit(Tk(nt, st.n, vt, st.v))
      push(s, x) == [s EXCEPT !.stk = Append(@, x)]
      pop(s) == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
  IN CASE a = "n+" -> [st EXCEPT !.n = Append(@, b)]
       [] a = "v+" -> [st EXCEPT !.v = Append(@, b)]
       [] a = "n/" -> [st EXCEPT !.n = Append(@, slash)]
       [] a = "v/" -> [st EXCEPT !.v = Append(@, slash)]
       [] a = "open{" -> push(anon("{", <<>>), "O")
       [] a = "open[" -> push(anon("[", <<>>), "A")
       [] a = "close}" -> pop(anon("}", <<>>))
       [] a = "close]" -> pop(anon("]", <<>>))
       [] a = "mopen{" -> push(memb("{"), "O")
       [] a = "mopen[" -> push(memb("["), "A")
       [] a = "membS" -> memb("S") [] a = "membN" -> memb("N") [] a = "membA" -> memb("A")
       [] a = "membB" -> memb("B") [] a = "membZ" -> memb("Z")
       [] a = "elemS" -> anon("S", st.n) [] a = "elemN" -> anon("N", st.n) [] a = "elemA" -> anon("A", st.n)
       [] a = "elemB" -> anon("B", st.n) [] a = "elemZ" -> anon("Z", st.n)

RECURSIVE Acts(_, _, _, _, _, _)
Acts(st, as, i, b, slash, nt) ==
  IF i > Len(as) THEN st ELSE Acts(Act(st, as[i], b, slash, nt), as, i + 1, b, slash, nt)

(* Consume one character of class c with payload b. *)
RECURSIVE Step(_, _, _, _, _)
Step(o, st, c, b, slash) ==
  LET q == st.q
      lex == IF q.m = "N" THEN st.n ELSE st.v
      kw == IF q.s = "asc" THEN KwOf(lex) ELSE "A"
      r == Delta(o, q, Top(st.stk), c, kw)
      st1 == Acts([st EXCEPT !.err = IF @ = "-" THEN r.err ELSE @], r.acts, 1, b, slash, q.t)
      st2 == [st1 EXCEPT !.q = r.q]
  IN IF r.again THEN Step(o, st2, c, b, slash) ELSE st2

(* Consume a sequence of bytes. *)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(o, st, bytes, i) ==
  IF i > Len(bytes) \/ st.err # "-" THEN st
  ELSE RunFrom(o, Step(o, st, ClassOf(bytes[i]), bytes[i], Slash), bytes, i + 1)
Run(o, bytes) == RunFrom(o, St0, bytes, 1)

Failed(st) == st.err # "-"
Complete(st) == ~Failed(st) /\ st.stk = <<>> /\ st.q.m = "E"
=============================================================================
