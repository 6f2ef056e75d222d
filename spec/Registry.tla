------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The tag registry: distinct names are numbered 0, 1, 2, ... in order of  *)
(* first registration and keep their first parent.  Pure operators on the  *)
(* sequence of [n |-> name, p |-> parent]; names are sequences of bytes.   *)
(* There are 256 numbers, 255 of which the binary form can count.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Dashes == <<45, 45, 45, 45>>
Blanks == <<32, 32, 32, 32>>
Parented(p) == IF p = <<>> THEN Dashes ELSE p
RegNames(r) == {r[i].n : i \in DOMAIN r}
Number(r, n) == (CHOOSE i \in DOMAIN r : r[i].n = n /\ \A j \in 1..(i - 1) : r[j].n # n) - 1
RegRoom(r) == Len(r) < 256
RegPut(r, n, p) == IF n \in RegNames(r) THEN r ELSE Append(r, [n |-> n, p |-> Parented(p)])
RegFrom(list) == [i \in DOMAIN list |-> [n |-> list[i][1], p |-> Parented(list[i][2])]]
RECURSIVE RegAll(_, _)
RegAll(r, list) == IF list = <<>> THEN r ELSE RegAll(RegPut(r, Head(list)[1], Head(list)[2]), Tail(list))

\* --- binary form -----------------------------------------------------------
NameFits(n) == n = <<>> \/ Len(n) = 4
ReadBack(n) == IF n = <<>> \/ n = Blanks THEN Dashes ELSE n
RegFits(r) == Len(r) <= 255 /\ \A i \in DOMAIN r : NameFits(r[i].n) /\ NameFits(r[i].p)
RegBack(r) == [i \in DOMAIN r |-> <<ReadBack(r[i].n), ReadBack(r[i].p)>>]

RegOK(r) == \A i, j \in DOMAIN r : r[i].n = r[j].n => i = j
=============================================================================
