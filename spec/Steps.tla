-------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* The effective steps by which a dictionary came about: tags registered   *)
(* for the first time, nodes created, tag sets attached where they were    *)
(* not yet, compactions.  Whatever has no effect leaves no step.           *)
(***************************************************************************)
EXTENDS Dict, SequencesExt

Ascending(s) == SortSeq(s, LAMBDA x, y : x < y)
IdsOf(d, ns) == Ascending([i \in DOMAIN ns |-> TagIdOf(d, ns[i])])
TagSteps(d, n, p) == IF n \in KnownNames(d) THEN <<>> ELSE << <<"t", n, NormName(p)>> >>
NodeSteps(d, w) == LET new == SelectSeq([i \in 1..Len(w) |-> SubSeq(w, 1, i)], LAMBDA p : p \notin d.nodes)
                   IN  [i \in DOMAIN new |-> <<"n", new[i]>>]
AttachSteps(d, w, ns) == IF ns = <<>> \/ TagSetFrom(d, ns) \in TagSetsOf(d, w) THEN <<>> ELSE << <<"a", w, IdsOf(d, ns)>> >>
CompactSteps(did) == IF did # <<>> /\ did[Len(did)] = <<"o">> THEN did ELSE Append(did, <<"o">>)
=============================================================================
