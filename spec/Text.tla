-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Words arrive as texts: sequences of bytes.  Which letters a text has,   *)
(* also where it is no proper UTF-8: a byte that belongs to no character   *)
(* stands for the replacement character, each such byte for one.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Replacement == 65533
Cont(b, i) == i \in DOMAIN b /\ b[i] \in 128..191

\* the length of the proper character starting at i, 0 if there is none
CharLen(b, i) ==
    LET x == b[i]
        second == IF i + 1 \in DOMAIN b THEN b[i + 1] ELSE 0
    IN  IF x < 128 THEN 1
        ELSE IF x \in 194..223 THEN IF Cont(b, i + 1) THEN 2 ELSE 0
        ELSE IF x \in 224..239
        THEN IF /\ Cont(b, i + 1) /\ Cont(b, i + 2)
                /\ x = 224 => second >= 160          \* not in more bytes than needed
                /\ x = 237 => second < 160           \* no half of a pair
             THEN 3 ELSE 0
        ELSE IF x \in 240..244
        THEN IF /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
                /\ x = 240 => second >= 144
                /\ x = 244 => second < 144           \* not beyond the last character
             THEN 4 ELSE 0
        ELSE 0
CharAt(b, i, n) ==
    CASE n = 1 -> b[i]
      [] n = 2 -> (b[i] - 192) * 64 + b[i + 1] - 128
      [] n = 3 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128
      [] n = 4 -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128
RECURSIVE LettersFrom(_, _)
LettersFrom(b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET n == CharLen(b, i) IN
         IF n = 0 THEN <<Replacement>> \o LettersFrom(b, i + 1)
         ELSE <<CharAt(b, i, n)>> \o LettersFrom(b, i + n)
LettersOf(b) == LettersFrom(b, 1)

Utf8(x) ==
    IF x < 128 THEN <<x>>
    ELSE IF x < 2048 THEN <<192 + (x \div 64), 128 + (x % 64)>>
    ELSE IF x < 65536 THEN <<224 + (x \div 4096), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
    ELSE <<240 + (x \div 262144), 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
RECURSIVE BytesOf(_)
BytesOf(w) == IF w = <<>> THEN <<>> ELSE Utf8(Head(w)) \o BytesOf(SubSeq(w, 2, Len(w)))
=============================================================================
