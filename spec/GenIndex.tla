------------------------------ MODULE GenIndex ------------------------------
(***************************************************************************)
(* Test scripts from DictSystem: one for every transition of its state     *)
(* graph within small constants.  `hist` is a shortest path to the state;  *)
(* it is hidden from the fingerprint by VIEW, and every transition prints  *)
(* the path that ends with it.                                             *)
(***************************************************************************)
EXTENDS DictSystem, Json
CONSTANTS Depth, MaxNodes, MaxAtt
VARIABLES hist, opt   \* opt: handles compacted since their last change (so that compaction is a transition)

H(r) == hist' = Append(hist, r)
GInit == Init /\ hist = <<>> /\ opt = {}
GNext == \E h \in Handles :
    \/ New(h) /\ H([op |-> "new", h |-> h]) /\ opt' = opt \ {h}
    \/ \E n \in Names, p \in Parents : RegisterTag(h, n, p) /\ H([op |-> "tag", h |-> h, n |-> n, p |-> p]) /\ opt' = opt \ {h}
    \/ \E w \in Words : AddWord(h, w) /\ H([op |-> "add", h |-> h, w |-> w]) /\ opt' = opt \ {h}
    \/ \E p \in idx[h].nodes, w \in Words : AddBelow(h, p, w) /\ H([op |-> "addto", h |-> h, p |-> p, w |-> w]) /\ opt' = opt \ {h}
    \/ \E w \in idx[h].nodes, ns \in TagLists : Attach(h, w, ns) /\ H([op |-> "attach", h |-> h, w |-> w, tags |-> ns]) /\ opt' = opt \ {h}
    \/ \E w \in idx[h].nodes, ns \in TagLists : ~Attachable(idx[h], ns) /\ Refused /\ H([op |-> "attach", h |-> h, w |-> w, tags |-> ns]) /\ UNCHANGED opt
    \/ Compact(h) /\ h \notin opt /\ H([op |-> "opt", h |-> h]) /\ opt' = opt \cup {h}
    \/ \E f \in Files : Save(h, f) /\ H([op |-> "save", h |-> h, f |-> f]) /\ UNCHANGED opt
    \/ \E f \in Files : Load(h, f) /\ H([op |-> "load", h |-> h, f |-> f]) /\ opt' = opt \ {h}
GSpec == GInit /\ [][GNext]_<<dvars, hist, opt>>
View == <<idx, file, opt>>
Bound == /\ Len(hist) <= Depth
         /\ \A h \in Handles : Cardinality(idx[h].nodes) <= MaxNodes
         /\ \A h \in Handles : \A w \in DOMAIN idx[h].att : Cardinality(idx[h].att[w]) <= MaxAtt
Emit == PrintT(ToJson(hist'))

N1 == <<65, 65, 65, 65>>
N2 == <<66, 66, 66, 66>>
GNames == {N1, N2}
GNames1 == {N1}
GParents == {<<>>}
GWords == {<<97>>, <<97, 1073>>}
GWords3 == {<<97>>, <<97, 1073>>, <<98>>}
GHandles == {"A"}
GHandles2 == {"A", "B"}
GFiles == {"f"}
GNoFiles == {}
GLim == [name |-> 4, tags |-> 255, size |-> 255, sets |-> 65535, vars |-> 255]
=============================================================================
