------------------------------ MODULE GenStores ------------------------------
(* Scripts of puts, one for every transition of Stores over small bags: an order of elements, a set *)
(* of bags stored before. *)
EXTENDS Stores, Json
CONSTANTS Elems, MaxLen, MaxStored
VARIABLES stored, hist
Lists == UNION {[1..n -> Elems] : n \in 1..MaxLen}
Init == stored = {} /\ hist = <<>>
Next == \E x \in Lists : /\ stored' = stored \cup {Sorted("t8", x)}
                         /\ hist' = Append(hist, x)
Spec == Init /\ [][Next]_<<stored, hist>>
View == stored
Bound == Cardinality(stored) <= MaxStored
Emit == PrintT(ToJson(hist'))
=============================================================================
