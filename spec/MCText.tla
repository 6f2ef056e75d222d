------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Texts byte by byte.  What a text means is found again from its letters, *)
(* a proper text is the only one of its letters without replacements, and  *)
(* cutting a text between characters cuts its letters.                     *)
(***************************************************************************)
EXTENDS Text, FiniteSets, TLC
CONSTANTS Bytes, MaxLen
Sample == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 208, 223, 224, 225, 237, 238, 239, 240, 241, 244, 245, 255}
Few == {65, 128, 159, 160, 191, 194, 208, 224, 237, 239, 240, 244, 255}
VARIABLE text
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E b \in Bytes : text' = Append(text, b)
Spec == Init /\ [][Next]_text
Rng(s) == {s[i] : i \in DOMAIN s}
Character(x) == x \in 0..1114111 /\ x \notin 55296..57343
Proper(b) == BytesOf(LettersOf(b)) = b
Letters == \A x \in Rng(LettersOf(text)) : Character(x)
Again == LettersOf(BytesOf(LettersOf(text))) = LettersOf(text)
OnlyOne == Replacement \notin Rng(LettersOf(text)) => Proper(text)
Amount == Len(LettersOf(text)) <= Len(text) /\ (text = <<>> <=> LettersOf(text) = <<>>)
Cuts == \A i \in 0..Len(text) : LET a == SubSeq(text, 1, i) b == SubSeq(text, i + 1, Len(text)) IN
            Proper(a) => LettersOf(text) = LettersOf(a) \o LettersOf(b)
Edges == \A x \in {0, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111} : LettersOf(Utf8(x)) = <<x>>
ASSUME Edges
ASSUME LettersOf(<<237, 160, 128>>) = <<Replacement, Replacement, Replacement>>     \* half of a pair
ASSUME LettersOf(<<192, 128>>) = <<Replacement, Replacement>>                         \* zero in two bytes
ASSUME LettersOf(<<208, 65>>) = <<Replacement, 65>>                                   \* cut off
ASSUME LettersOf(<<244, 144, 128, 128>>) = <<Replacement, Replacement, Replacement, Replacement>>
=============================================================================
