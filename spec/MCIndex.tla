------------------------------ MODULE MCIndex -------------------------------
(* Small constants for IndexImpl: two letters, two or three tags. *)
EXTENDS IndexImpl
N1 == <<65, 65, 65, 65>>
N2 == <<66, 66, 66, 66>>
N3 == <<67, 67, 67, 67>>
A == 97
B == 1073
MCHandles == {"A"}
MCHandles2 == {"A", "B"}
MCFiles == {"f"}
MCNoFiles == {}
MCOne == {N1}
MCNames == {N1, N2}
MCParents == {<<>>}
MCParents2 == {<<>>, <<80, 80, 80, 80>>}
MCWords == {<<A>>, <<A, B>>, <<B>>}
MCWords2 == {<<A>>, <<A, B>>}
MCLim == [name |-> 4, tags |-> 255, size |-> 255, sets |-> 65535, vars |-> 255]
\* limits small enough to be hit
MCLimSmall == [name |-> 4, tags |-> 1, size |-> 1, sets |-> 1, vars |-> 1]
=============================================================================
