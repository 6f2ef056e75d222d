------------------------------ MODULE MCSetCodec ------------------------------
(***************************************************************************)
(* A set on the wire, and a reader that takes it byte by byte from a       *)
(* source which delivers portions of any size, none at all now and then,   *)
(* and may end early.  Length field and elements are Width bytes wide.     *)
(* Filling = FALSE is a reader that takes whatever one portion brings for  *)
(* a whole field: it must be caught.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Width, MaxLen, Byte, Tails, Filling
Elem == [1..Width -> Byte]
Sets == UNION {[1..n -> Elem] : n \in 0..MaxLen}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
LenField(n) == [i \in 1..Width |-> IF i = Width THEN n ELSE 0]
Bytes(x) == LenField(Len(x)) \o Cat(x)

VARIABLES x,      \* the set written
          cut,    \* bytes of it which reach the reader, or Len for all of it
          src,    \* what the source still holds
          field,  \* bytes of the field being read
          need,   \* elements still to come; -1 before the length is known
          got, taken, st
vars == <<x, cut, src, field, need, got, taken, st>>
Init == /\ x \in Sets
        /\ cut \in 0..Len(Bytes(x))
        /\ \E t \in Tails : src = IF cut < Len(Bytes(x)) THEN SubSeq(Bytes(x), 1, cut) ELSE Bytes(x) \o t
        /\ field = <<>> /\ need = Width * 100 /\ got = <<>> /\ taken = 0 /\ st = "read"
Unknown == Width * 100
Padded(f) == [i \in 1..Width |-> IF i <= Len(f) THEN f[i] ELSE 0]
Value(f) == f[Width]
Done(f) == IF need = Unknown
           THEN /\ need' = Value(f) /\ got' = got /\ st' = IF Value(f) = 0 THEN "ok" ELSE "read"
           ELSE /\ need' = need - 1 /\ got' = Append(got, f) /\ st' = IF need = 1 THEN "ok" ELSE "read"
Portion == \* the source delivers k of the bytes asked for
    /\ st = "read"
    /\ \E k \in 1..(Width - Len(field)) :
         /\ k <= Len(src)
         /\ src' = SubSeq(src, k + 1, Len(src))
         /\ taken' = taken + k
         /\ LET f == field \o SubSeq(src, 1, k) IN
            IF Len(f) = Width THEN field' = <<>> /\ Done(f)
            ELSE IF Filling THEN field' = f /\ UNCHANGED <<need, got, st>>
            ELSE field' = <<>> /\ Done(Padded(f))
    /\ UNCHANGED <<x, cut>>
Idle == st = "read" /\ ~Filling /\ src # <<>> /\ field' = <<>> /\ Done(Padded(<<>>)) /\ UNCHANGED <<x, cut, src, taken>>
End == st = "read" /\ src = <<>> /\ st' = "err" /\ UNCHANGED <<x, cut, src, field, need, got, taken>>
Next == Portion \/ Idle \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

MCTails == {<<>>, <<1>>, <<0, 1, 1>>}
Whole == cut = Len(Bytes(x))
Exact == st = "ok" => Whole /\ got = x /\ taken = Len(Bytes(x))
Refused == st = "err" => ~Whole
Ends == <>(st # "read")
=============================================================================
