-------------------------------- MODULE Dict --------------------------------
(***************************************************************************)
(* What a morphological dictionary is to its users: a registry of tags,    *)
(* a prefix-closed set of letter sequences, and the tag sets attached to   *)
(* words.  Pure operators: DictSystem.tla makes actions of them and        *)
(* TraceIndex.tla replays recorded executions with them.                   *)
(*                                                                         *)
(* A word is a sequence of code points.  A tag name is a sequence of       *)
(* bytes.  A tag is [n |-> name, p |-> parent name].  A tag set is a bag   *)
(* of tags: the order in which tags are listed does not matter.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EmptyName == <<45, 45, 45, 45>>                 \* "----"
NormName(n) == IF n = <<>> THEN EmptyName ELSE n

Rng(s) == {s[i] : i \in DOMAIN s}
BagOf(s) == [x \in Rng(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
RECURSIVE BagSizeOn(_, _)
BagSizeOn(b, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN b[x] + BagSizeOn(b, D \ {x})
BagSize(b) == BagSizeOn(b, DOMAIN b)

\* A letter is a number.  One that stands for no character shows as the replacement character in a text.
Character(x) == (0 <= x /\ x < 55296) \/ (57344 <= x /\ x < 1114112)
TextOf(w) == [i \in DOMAIN w |-> IF Character(w[i]) THEN w[i] ELSE 65533]

EmptyDict == [tags |-> <<>>, nodes |-> {}, att |-> <<>>]

(* --- tags --------------------------------------------------------------- *)
KnownNames(d) == {d.tags[i].n : i \in DOMAIN d.tags}
PosOf(d, name) == CHOOSE i \in DOMAIN d.tags : d.tags[i].n = name /\ \A j \in 1..(i-1) : d.tags[j].n # name
TagIdOf(d, name) == PosOf(d, name) - 1
TagOf(d, name) == d.tags[PosOf(d, name)]
DoTag(d, name, parent) ==
    IF name \in KnownNames(d) THEN d
    ELSE [d EXCEPT !.tags = Append(@, [n |-> name, p |-> NormName(parent)])]

(* --- words -------------------------------------------------------------- *)
WordPrefixes(w) == {SubSeq(w, 1, i) : i \in 1..Len(w)}
DoAdd(d, w) == [d EXCEPT !.nodes = @ \cup WordPrefixes(w)]
DoAddMany(d, ws) == [d EXCEPT !.nodes = @ \cup UNION {WordPrefixes(ws[i]) : i \in DOMAIN ws}]
TagSetsOf(d, w) == IF w \in DOMAIN d.att THEN d.att[w] ELSE {}
Attachable(d, names) == \A i \in DOMAIN names : names[i] \in KnownNames(d)
TagSetFrom(d, names) == BagOf([i \in DOMAIN names |-> TagOf(d, names[i])])
DoAttach(d, w, names) ==
    IF names = <<>> THEN d
    ELSE [d EXCEPT !.att = (w :> (TagSetsOf(d, w) \cup {TagSetFrom(d, names)})) @@ @]
\* the i-th of many words with the i-th of some tag sets, over and over
DoAttachMany(d, ws, sets) ==
    LET ks == DOMAIN sets
        bags == [k \in ks |-> TagSetFrom(d, sets[k])]
        of == [k \in ks |-> {ws[k + n * Len(sets)] : n \in 0..((Len(ws) - k) \div Len(sets))}]
        given == UNION {of[k] : k \in {k \in ks : sets[k] # <<>>}}
    IN  [d EXCEPT !.att = [w \in DOMAIN @ \cup given |->
                              TagSetsOf(d, w) \cup {bags[k] : k \in {k \in ks : sets[k] # <<>> /\ w \in of[k]}}]]

NodesCount(d) == Cardinality(d.nodes)
WordsCount(d) == Cardinality(DOMAIN d.att)
Children(d, p) == {w \in d.nodes : Len(w) = Len(p) + 1 /\ SubSeq(w, 1, Len(p)) = p}

(* --- what the file format can hold -------------------------------------- *)
(* lim: [name |-> bytes of a tag name, tags |-> tags, size |-> tags in a set,   *)
(*       sets |-> sets of equal size, vars |-> tag sets of a word]             *)
AllTagSets(d) == UNION {d.att[w] : w \in DOMAIN d.att}
Representable(d, lim) ==
    /\ Len(d.tags) <= lim.tags
    /\ \A i \in DOMAIN d.tags : /\ d.tags[i].n = <<>> \/ Len(d.tags[i].n) = lim.name
                                /\ Len(d.tags[i].p) = lim.name
    /\ \A w \in DOMAIN d.att : Cardinality(d.att[w]) <= lim.vars
    /\ \A b \in AllTagSets(d) : BagSize(b) <= lim.size
    /\ LET sizes == [b \in AllTagSets(d) |-> BagSize(b)]
       IN  \A n \in {sizes[b] : b \in DOMAIN sizes} :
             Cardinality({b \in DOMAIN sizes : sizes[b] = n}) <= lim.sets

(* --- what a file says ----------------------------------------------------- *)
(* The empty name and four spaces are one and the same name in a file, and   *)
(* come back as "----".                                                      *)
StoredName(n) == IF n = <<>> \/ n = <<32, 32, 32, 32>> THEN EmptyName ELSE n
StoredTag(t) == [n |-> StoredName(t.n), p |-> StoredName(t.p)]
StoredBag(b) == LET ts == {StoredTag(t) : t \in DOMAIN b}
                IN  [t \in ts |-> b[CHOOSE x \in DOMAIN b : StoredTag(x) = t]]
Stored(d) == IF \A i \in DOMAIN d.tags : StoredTag(d.tags[i]) = d.tags[i] THEN d
             ELSE [d EXCEPT !.tags = [i \in DOMAIN @ |-> StoredTag(@[i])],
                            !.att = [w \in DOMAIN @ |-> {StoredBag(b) : b \in @[w]}]]

(* --- sanity of any dictionary -------------------------------------------- *)
DictOK(d) ==
    /\ \A i, j \in DOMAIN d.tags : d.tags[i].n = d.tags[j].n => i = j
    /\ <<>> \notin d.nodes
    /\ \A w \in d.nodes : WordPrefixes(w) \subseteq d.nodes
    /\ DOMAIN d.att \subseteq d.nodes
    /\ \A w \in DOMAIN d.att : d.att[w] # {} /\ \A b \in d.att[w] : DOMAIN b # {} /\ DOMAIN b \subseteq Rng(d.tags)
=============================================================================
