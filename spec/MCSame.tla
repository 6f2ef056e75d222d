------------------------------- MODULE MCSame -------------------------------
(***************************************************************************)
(* Two indexes of IndexImpl.tla and the effective steps (Steps.tla) that   *)
(* made them: with the same steps behind them they are saved to the same   *)
(* bytes, whatever else was done to them in between.                       *)
(***************************************************************************)
EXTENDS MCIndex, Steps
CONSTANTS MaxSteps, AnyOrder, Filled
VARIABLES did, fdid
mvars == <<im, fl, idx, file, did, fdid>>

To(h, steps) == did' = [did EXCEPT ![h] = @ \o steps] /\ UNCHANGED fdid
\* a compaction that takes the combinations in use in any order (a map, say)
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
CompactBy(i, olds) ==
    LET step(a, old) == LET r == InternVar(a.vars, Combo(i.vars, old)) IN [vars |-> r.vars, new |-> (old :> r.id) @@ a.new]
        r == FoldLeft(step, [vars |-> <<>>, new |-> (NoVar :> NoVar)], olds)
    IN  [i EXCEPT !.vars = r.vars, !.items = [k \in DOMAIN i.items |-> [i.items[k] EXCEPT !.v = r.new[@]]]]
\* Filled: begin with tags, nodes and a tag set on them there already
Full == LET e == IAdd(ITag(ITag(EmptyIm, N1, <<>>), N2, <<>>), 0, <<A, B>>) IN IAttach(IAttach(e, 1, <<N1, N2>>), 2, <<N1, N2>>)
FInit == /\ im = [h \in Handles |-> Full] /\ fl = [f \in Files |-> NoFile]
         /\ idx = [h \in Handles |-> AbsIm(Full)] /\ file = [f \in Files |-> NoFile]
SInit == (IF Filled THEN FInit ELSE Init) /\ did = [h \in Handles |-> <<>>] /\ fdid = [f \in Files |-> <<>>]
SNext == \E h \in Handles :
    \/ \E n \in Names, p \in Parents : ATag(h, n, p) /\ To(h, TagSteps(idx[h], n, p))
    \/ \E w \in Words : AAdd(h, w) /\ To(h, NodeSteps(idx[h], w))
    \/ \E id \in DOMAIN im[h].items, w \in Words :
          AAddBelow(h, id, w) /\ To(h, NodeSteps(idx[h], WordAt(im[h].items, id, id) \o w))
    \/ \E id \in DOMAIN im[h].items, ns \in D!TagLists :
          AAttach(h, id, ns) /\ To(h, AttachSteps(idx[h], WordAt(im[h].items, id, id), ns))
    \/ /\ ~AnyOrder /\ ACompact(h) /\ did' = [did EXCEPT ![h] = CompactSteps(@)] /\ UNCHANGED fdid
    \/ /\ AnyOrder /\ AllVarIds(im[h]) # UsedIds(im[h])
       /\ \E q \in Perms(UsedIds(im[h])) : Put(h, CompactBy(im[h], q))
       /\ D!Compact(h) /\ did' = [did EXCEPT ![h] = CompactSteps(@)] /\ UNCHANGED fdid
    \/ \E f \in Files : ASave(h, f) /\ fdid' = [fdid EXCEPT ![f] = did[h]] /\ UNCHANGED did
    \/ \E f \in Files : ALoad(h, f) /\ did' = [did EXCEPT ![h] = fdid[f]] /\ UNCHANGED fdid
SSpec == SInit /\ [][SNext]_mvars
Short == \A h \in Handles : Len(did[h]) <= MaxSteps
\* one handle goes ahead of the other: nothing is lost, as the steps of the other are the same in the end
Ordered == \A i \in 1..Len(did["B"]) : i <= Len(did["A"]) /\ did["B"][i] = did["A"][i]
SameBytes == \A g, h \in Handles : did[g] = did[h] => Encode(Image(im[g])) = Encode(Image(im[h]))
Agree == SimOK
=============================================================================
