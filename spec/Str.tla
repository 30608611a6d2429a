-------------------------------- MODULE Str --------------------------------
(* String contents and their JSON spelling, as byte sequences.             *)
EXTENDS Integers, Sequences

HexVal(b) == CASE b >= 48 /\ b <= 57 -> b - 48
               [] b >= 65 /\ b <= 70 -> b - 55
               [] b >= 97 /\ b <= 102 -> b - 87
               [] OTHER -> 99
\* the four hex digits at i, or -1
Hex4(b, i) == IF i + 3 > Len(b) \/ \E k \in 0..3 : HexVal(b[i + k]) = 99 THEN -1
              ELSE HexVal(b[i]) * 4096 + HexVal(b[i + 1]) * 256 + HexVal(b[i + 2]) * 16 + HexVal(b[i + 3])
Utf8(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c)  == c >= 56320 /\ c <= 57343
Simple(b) == CASE b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9
               [] b = 34 -> 34 [] b = 92 -> 92 [] b = 47 -> 47 [] OTHER -> -1

(* Decode: raw text between the quotes -> contents.  What is not a JSON    *)
(* escape stays as it is; an unpaired surrogate is encoded like any other  *)
(* code unit.                                                              *)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF b[i] # 92 THEN DecodeFrom(b, i + 1, Append(acc, b[i]))
  ELSE IF i = Len(b) THEN acc
  ELSE LET c == b[i + 1] IN
    IF c = 117 THEN
      LET h == Hex4(b, i + 2) IN
      IF h = -1 THEN DecodeFrom(b, i + 2, acc \o <<92, c>>)
      ELSE LET l == IF IsHigh(h) /\ i + 7 <= Len(b) /\ b[i + 6] = 92 /\ b[i + 7] = 117 THEN Hex4(b, i + 8) ELSE -1
           IN IF l # -1 /\ IsLow(l)
              THEN DecodeFrom(b, i + 12, acc \o Utf8(65536 + (h - 55296) * 1024 + (l - 56320)))
              ELSE DecodeFrom(b, i + 6, acc \o Utf8(h))
    ELSE IF Simple(c) # -1 THEN DecodeFrom(b, i + 2, Append(acc, Simple(c)))
    ELSE DecodeFrom(b, i + 2, acc \o <<92, c>>)
Decode(b) == DecodeFrom(b, 1, <<>>)

HexDig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
EncByte(c) ==
  CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>>
    [] c = 10 -> <<92, 110>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>>
    [] c < 32 -> <<92, 117, 48, 48, HexDig(c \div 16), HexDig(c % 16)>>
    [] OTHER -> <<c>>
RECURSIVE EncodeFrom(_, _, _)
EncodeFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE EncodeFrom(s, i + 1, acc \o EncByte(s[i]))
Encode(s) == EncodeFrom(s, 1, <<>>)

(* Acceptable spellings of a string's contents: no raw control character,  *)
(* no raw quote, nothing but JSON escapes, and it means the contents.      *)
RECURSIVE CleanFrom(_, _)
CleanFrom(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE IF b[i] = 92 THEN
    IF i = Len(b) THEN FALSE
    ELSE IF b[i + 1] = 117 THEN Hex4(b, i + 2) # -1 /\ CleanFrom(b, i + 6)
    ELSE Simple(b[i + 1]) # -1 /\ CleanFrom(b, i + 2)
  ELSE b[i] >= 32 /\ b[i] # 34 /\ CleanFrom(b, i + 1)
Spells(b, s) == CleanFrom(b, 1) /\ Decode(b) = s
=============================================================================
