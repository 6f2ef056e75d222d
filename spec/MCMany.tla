------------------------------- MODULE MCMany -------------------------------
(* Many.tla against Dict.tla, word by word, within small constants. *)
EXTENDS Many, SequencesExt
VARIABLES m, d
Tags == <<[n |-> <<65>>, p |-> EmptyName], [n |-> <<66>>, p |-> <<65>>], [n |-> <<67>>, p |-> EmptyName]>>
Shapes == [n : {0, 3, 5}, b1 : {97}, w : {0, 2, 3}, b2 : {97}]
Sets == {<<0>>, <<1>>, <<0, 2>>, <<1, 1>>}
Rules == [from : {0, 1}, to : {3, 5}, by : {2}, rests : {{1}, {0, 1}}, div : 1..2, sets : UNION {[1..k -> Sets] : k \in 1..2}]
Init == \E s \in Shapes :
    /\ m = [NoMany EXCEPT !.tags = Tags, !.shape = s, !.at = [i \in 1..s.n |-> {}]]
    /\ d = FoldLeft(LAMBDA a, i : DoAdd(a, Letters(s, i)),
                    FoldLeft(LAMBDA a, t : DoTag(a, t.n, t.p), EmptyDict, Tags), [i \in 1..s.n |-> i])
Give(r) ==
    /\ m' = [m EXCEPT !.at = Given(@, r)]
    /\ d' = FoldLeft(LAMBDA a, i : IF Chosen(r, i)
                                   THEN DoAttach(a, Letters(m.shape, i), [k \in DOMAIN Nth(r.sets, r.div, i) |-> Tags[Nth(r.sets, r.div, i)[k] + 1].n])
                                   ELSE a, d, [i \in 1..m.shape.n |-> i])
Next == \E r \in Rules : Give(r)
Spec == Init /\ [][Next]_<<m, d>>
Shallow == TLCGet("level") <= 2
Same == AsDict(m) = d
Numbers == /\ Nodes(m) = NodesCount(d) /\ Tagged(m) = WordsCount(d)
           /\ Cardinality(BagsOf(m.at)) = Cardinality(AllTagSets(d))
           /\ Cardinality(CombosOf(m.at)) = Cardinality({d.att[w] : w \in DOMAIN d.att})
=============================================================================
