------------------------------- MODULE Stores -------------------------------
(***************************************************************************)
(* What a set store is to its users: a growing one-to-one correspondence   *)
(* between identifiers and bags of elements.  Which identifier a new bag   *)
(* gets is left open; that it is new, and that nothing moves afterwards,   *)
(* is not.  A store that has no identifier left refuses.                   *)
(*                                                                         *)
(* Kinds: t8, t16 storage tables; c8, c16 storage collections; ts tag set  *)
(* table, tsi tag set index; vt combinations table, vi combinations index. *)
(* Elements are numbers, or pairs of 16-bit halves for combinations.       *)
(*                                                                         *)
(* A store: [kind, ids : identifier -> sorted elements, pre : number of    *)
(* bags put before the episode, of PreSize elements each, seen : what was  *)
(* learned of them].                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Wide(kind) == kind \in {"vt", "vi"}
Before(kind, a, b) == IF Wide(kind) THEN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) ELSE a < b
Sorted(kind, x) == SortSeq(x, LAMBDA a, b : Before(kind, a, b))
IsSorted(kind, x) == \A i \in 1..(Len(x) - 1) : ~Before(kind, x[i + 1], x[i])

PreSize == 3
NewStore(kind, pre) == [kind |-> kind, ids |-> <<>>, pre |-> pre, seen |-> <<>>]

Stored(s) == {s.ids[i] : i \in DOMAIN s.ids}
IdFor(s, x) == CHOOSE i \in DOMAIN s.ids : s.ids[i] = x

\* cap: [kind -> identifiers of one table], size: [kind -> elements of one bag], collections: kinds
\* having one table for every size
HasRoom(s, n, cap, size, collections) ==
    /\ n <= size[s.kind]
    /\ IF s.kind \in collections
       THEN Cardinality({i \in DOMAIN s.ids : Len(s.ids[i]) = n}) + (IF n = PreSize THEN s.pre ELSE 0) < cap[s.kind]
       ELSE Cardinality(DOMAIN s.ids) + s.pre < cap[s.kind]

\* The empty bag is never stored. Some kinds refuse it, others answer zero; only to combinations does zero mean it.
Refusing == {"t8", "t16", "c8", "c16", "ts"}
Zero(kind) == IF kind \in {"c16", "tsi", "vi"} THEN <<0, 0>> ELSE 0
PutEmptyOK(kind, refused, id) == IF kind \in Refusing THEN refused ELSE ~refused /\ id = Zero(kind)
FindEmptyOK(kind, found, id) == IF kind = "vi" THEN found /\ id = Zero(kind) ELSE ~found

\* Is `id` a right answer to putting the sorted bag x?
PutOK(s, x, id) == IF x \in Stored(s) THEN id = IdFor(s, x)
                   ELSE id \notin DOMAIN s.ids /\ id \notin DOMAIN s.seen
DoPut(s, x, id) == IF x \in Stored(s) THEN s ELSE [s EXCEPT !.ids = (id :> x) @@ @]

StoreOK(s) == \A i, j \in DOMAIN s.ids : i # j => s.ids[i] # s.ids[j]
=============================================================================
