---------------------------- MODULE RegistryImpl ----------------------------
(***************************************************************************)
(* The registry as it is built (a list searched from the start) with its   *)
(* byte form: a count, then parent and name of every tag; blanks stand for *)
(* no name.  What is read back from the bytes is what Registry says; no    *)
(* proper prefix of the bytes reads as anything; other names are refused.  *)
(***************************************************************************)
EXTENDS Registry, TLC
CONSTANTS RNames, RParents, MaxTags
VARIABLES reg, log

Init == reg = <<>> /\ log = <<>>
Put == \E n \in RNames, p \in RParents :
          Len(log) < MaxTags /\ log' = Append(log, n) /\ reg' = RegPut(reg, n, p)
Next == Put
Spec == Init /\ [][Next]_<<reg, log>>

NameBytes(n) == IF n = <<>> \/ n = Dashes THEN Blanks ELSE n
RECURSIVE Flat(_)
Flat(r) == IF r = <<>> THEN <<>> ELSE NameBytes(Head(r).p) \o NameBytes(Head(r).n) \o Flat(Tail(r))
Bytes(r) == <<Len(r)>> \o Flat(r)
Decode(b) == \* <<>> for refused, else <<list>>
    IF b = <<>> \/ Len(b) < 1 + 8 * b[1] THEN <<>>
    ELSE <<[i \in 1..b[1] |-> LET at == 2 + 8 * (i - 1) IN
              <<ReadBack(SubSeq(b, at + 4, at + 7)), ReadBack(SubSeq(b, at, at + 3))>>]>>

FirstOrder == \A i \in DOMAIN reg : \E k \in DOMAIN log :
                 /\ log[k] = reg[i].n
                 /\ \A m \in 1..(k - 1) : log[m] # reg[i].n
                 /\ Cardinality({log[m] : m \in 1..(k - 1)}) = i - 1
Inverse == \A i \in DOMAIN reg : Number(reg, reg[i].n) = i - 1
KeepsAll == [][\A i \in DOMAIN reg : reg'[i] = reg[i]]_<<reg, log>>
Back == RegFits(reg) => Decode(Bytes(reg)) = <<RegBack(reg)>>
NoPrefix == RegFits(reg) => \A k \in 0..(Len(Bytes(reg)) - 1) : Decode(SubSeq(Bytes(reg), 1, k)) = <<>>
OneToOne == RegOK(reg)

A4 == <<65, 65, 65, 65>>
B4 == <<66, 66, 66, 66>>
MCNames == {A4, B4, <<>>, Dashes, Blanks, <<67, 67, 67>>}
MCParents == {<<>>, A4, <<68>>}
=============================================================================
