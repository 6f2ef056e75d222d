------------------------------ MODULE MCPacking ------------------------------
(* The laws of Packing, for every pair of halves. *)
EXTENDS Packing
VARIABLES hi, lo
Init == hi \in Halves /\ lo = 0
Next == lo < Base - 1 /\ lo' = lo + 1 /\ UNCHANGED hi
Spec == Init /\ [][Next]_<<hi, lo>>
Halved == Upper(Combine(hi, lo)) = hi /\ Lower(Combine(hi, lo)) = lo
InRange == Combine(hi, lo) < Base * Base
\* the identifier determines the pair, so different pairs have different identifiers
Whole == Combine(Upper(Combine(hi, lo)), Lower(Combine(hi, lo))) = Combine(hi, lo)
=============================================================================
