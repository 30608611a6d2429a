------------------------------- MODULE StrMC -------------------------------
(* Str.tla: writing and reading strings are inverse; escapes denote UTF-8. *)
EXTENDS Str, TLC
CONSTANTS MaxLen
VARIABLES s, c
Alphabet == {0, 8, 31, 32, 34, 47, 92, 98, 117, 48, 68, 195, 255}
Init == s = <<>> /\ c \in {n * 2048 : n \in 0..543}
Next == \/ c = 0 /\ Len(s) < MaxLen /\ \E x \in Alphabet : s' = Append(s, x) /\ UNCHANGED c
        \/ s = <<>> /\ (c + 1) % 2048 # 0 /\ c' = c + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, c>>

Inverse == Decode(Encode(s)) = s /\ CleanFrom(Encode(s), 1) /\ Spells(Encode(s), s)
Idle == CleanFrom(s, 1) /\ (\A j \in 1..Len(s) : s[j] # 92) => Decode(s) = s
\* -- every code point: its escape denotes its UTF-8 form, which decodes to it
H4(n) == <<92, 117, HexDig(n \div 4096), HexDig((n \div 256) % 16), HexDig((n \div 16) % 16), HexDig(n % 16)>>
Esc(n) == IF n < 65536 THEN H4(n) ELSE H4(55296 + (n - 65536) \div 1024) \o H4(56320 + ((n - 65536) % 1024))
U8(u) == CASE Len(u) = 1 -> u[1]
           [] Len(u) = 2 -> (u[1] - 192) * 64 + u[2] - 128
           [] Len(u) = 3 -> (u[1] - 224) * 4096 + (u[2] - 128) * 64 + u[3] - 128
           [] Len(u) = 4 -> (u[1] - 240) * 262144 + (u[2] - 128) * 4096 + (u[3] - 128) * 64 + u[4] - 128
CodePoints == s = <<>> => LET u == Decode(Esc(c)) IN
              /\ U8(u) = c
              /\ \A j \in 2..Len(u) : u[j] \in 128..191
              /\ (Len(u) = 1) = (c < 128)
=============================================================================
