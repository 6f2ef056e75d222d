----------------------------- MODULE IndexImpl ------------------------------
(***************************************************************************)
(* The index as the program builds it: nodes in a growing array, a map of  *)
(* children, interned tag sets in tables by size, interned combinations of *)
(* tag sets in tables by size, compaction that renumbers combinations, and *)
(* files of bytes.  Refines DictSystem.                                    *)
(***************************************************************************)
EXTENDS Format

CONSTANTS Handles, Files, Names, Parents, Words, MaxSet, Lim, NoFile, MaxNodes, MaxVars

VARIABLES im,    \* handle -> index in memory
          fl,    \* file name -> bytes or NoFile
          idx,   \* the abstract dictionaries, stepped by DictSystem's actions (history variables:
          file   \* functions of im and fl by SimOK, so they add no states)
ivars == <<im, fl>>
allvars == <<im, fl, idx, file>>

\* The abstract level.  Every action below is conjoined with the action of DictSystem it
\* implements; SimOK says the concrete and the abstract state agree: a forward simulation.
D == INSTANCE DictSystem WITH NoDict <- NoFile

NoVar == <<0, 0>>
EmptyIm == [tags |-> <<>>, sets |-> <<>>, vars |-> <<>>, items |-> <<>>, kids |-> <<>>, words |-> 0]

LessId(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
SortTags(s) == SortSeq(s, LAMBDA x, y : x < y)
SortIds(s) == SortSeq(s, LessId)

(* --- interning ------------------------------------------------------------ *)
Grow(tables, n) == IF Len(tables) >= n THEN tables
                   ELSE [t \in 1..n |-> IF t <= Len(tables) THEN tables[t] ELSE <<>>]
PosIn(table, x) == IF x \in Rng(table) THEN CHOOSE k \in DOMAIN table : table[k] = x /\ \A j \in 1..(k-1) : table[j] # x
                   ELSE Len(table) + 1
Intern(tables, x) == LET g == Grow(tables, Len(x))  k == PosIn(g[Len(x)], x)
                     IN  [tables |-> IF k <= Len(g[Len(x)]) THEN g ELSE [g EXCEPT ![Len(x)] = Append(@, x)],
                          at |-> k - 1]
InternSet(sets, s) == LET r == Intern(sets, SortTags(s)) IN [sets |-> r.tables, id |-> <<Len(s) - 1, r.at>>]
InternVar(vars, v) == LET r == Intern(vars, SortIds(v)) IN [vars |-> r.tables, id |-> <<Len(v), r.at>>]
Combo(vars, id) == IF id = NoVar THEN <<>> ELSE vars[id[1]][id[2] + 1]

(* --- calls ------------------------------------------------------------------ *)
ITag(i, n, p) == IF \E k \in DOMAIN i.tags : i.tags[k].n = n THEN i
                 ELSE [i EXCEPT !.tags = Append(@, [n |-> n, p |-> NormName(p)])]
RECURSIVE IAdd(_, _, _)
IAdd(i, parent, w) ==
    IF w = <<>> THEN i
    ELSE LET key == <<parent, Head(w)>>
         IN  IF key \in DOMAIN i.kids THEN IAdd(i, i.kids[key], Tail(w))
             ELSE LET id == Len(i.items) + 1
                  IN  IAdd([i EXCEPT !.items = Append(@, [p |-> parent, l |-> Head(w), v |-> NoVar]),
                                     !.kids = (key :> id) @@ @], id, Tail(w))
RECURSIVE IWalk(_, _, _)
IWalk(i, at, w) == IF w = <<>> THEN at
                   ELSE IF <<at, Head(w)>> \in DOMAIN i.kids THEN IWalk(i, i.kids[<<at, Head(w)>>], Tail(w)) ELSE 0
IFind(i, w) == IF w = <<>> THEN 0 ELSE IWalk(i, 0, w)
IAttach(i, id, ns) ==
    LET ts == [k \in DOMAIN ns |-> TagIdOf(i, ns[k])]
        s == InternSet(i.sets, ts)
        old == Combo(i.vars, i.items[id].v)
        c == IF s.id \in Rng(old) THEN old ELSE SortIds(Append(old, s.id))
        v == InternVar(i.vars, c)
    IN  [i EXCEPT !.sets = s.sets, !.vars = v.vars, !.items[id].v = v.id,
                  !.words = IF i.items[id].v = NoVar THEN @ + 1 ELSE @]
\* compaction: intern the combinations in use, in order of their old identifiers, in a new store
UsedIds(i) == {i.items[k].v : k \in DOMAIN i.items} \ {NoVar}
AllVarIds(i) == UNION {{<<t, k - 1>> : k \in DOMAIN i.vars[t]} : t \in DOMAIN i.vars}
ICompact(i) ==
    IF AllVarIds(i) = UsedIds(i) THEN i
    ELSE LET olds == SortIds(SetToSeq(UsedIds(i)))
             step(a, old) == LET r == InternVar(a.vars, Combo(i.vars, old))
                             IN  [vars |-> r.vars, new |-> (old :> r.id) @@ a.new]
             r == FoldLeft(step, [vars |-> <<>>, new |-> (NoVar :> NoVar)], olds)
         IN  [i EXCEPT !.vars = r.vars, !.items = [k \in DOMAIN i.items |-> [i.items[k] EXCEPT !.v = r.new[@]]]]

Image(i) == [tags |-> [k \in DOMAIN i.tags |-> [n |-> DecName(EncName(i.tags[k].n)), p |-> DecName(EncName(i.tags[k].p))]],
             sets |-> i.sets, vars |-> i.vars,
             items |-> [k \in 0..Len(i.items) |-> IF k = 0 THEN [p |-> 0, id |-> 0, l |-> 0, v |-> NoVar]
                                                  ELSE [p |-> i.items[k].p, id |-> k, l |-> i.items[k].l, v |-> i.items[k].v]]]
FromImage(img) == [tags |-> img.tags, sets |-> img.sets, vars |-> img.vars,
                   items |-> [k \in 1..(Cardinality(DOMAIN img.items) - 1) |-> [p |-> img.items[k].p, l |-> img.items[k].l, v |-> img.items[k].v]],
                   kids |-> [key \in {<<img.items[k].p, img.items[k].l>> : k \in NodeIds(img)} |->
                                CHOOSE k \in NodeIds(img) : <<img.items[k].p, img.items[k].l>> = key],
                   words |-> Cardinality({k \in NodeIds(img) : img.items[k].v # NoVar})]
Fits(i) == /\ Len(i.tags) <= Lim.tags
           /\ \A k \in DOMAIN i.tags : (i.tags[k].n = <<>> \/ Len(i.tags[k].n) = Lim.name) /\ Len(i.tags[k].p) = Lim.name
           /\ \A t \in DOMAIN i.sets : Len(i.sets[t]) <= Lim.sets /\ \A s \in Rng(i.sets[t]) : Len(s) <= Lim.size
           /\ Len(i.vars) <= Lim.vars

(* --- abstraction -------------------------------------------------------------- *)
AbsIm(i) == AbsImage(Image(i))
AbsFile(b) == IF b = NoFile THEN NoFile ELSE AbsImage(Decode(b))

(* --- actions -------------------------------------------------------------- *)
Put(h, x) == im' = [im EXCEPT ![h] = x] /\ UNCHANGED fl

Init == im = [h \in Handles |-> EmptyIm] /\ fl = [f \in Files |-> NoFile] /\ D!Init
ANew(h) == Put(h, EmptyIm) /\ D!New(h)
ATag(h, n, p) == /\ \/ \E k \in DOMAIN im[h].tags : im[h].tags[k].n = n
                    \/ Len(im[h].tags) <= Lim.tags        \* identifiers run out: refused
                 /\ Put(h, ITag(im[h], n, p)) /\ D!RegisterTag(h, n, p)
AAdd(h, w) == /\ w # <<>> /\ LET x == IAdd(im[h], 0, w) IN Len(x.items) <= MaxNodes /\ Put(h, x)
              /\ D!AddWord(h, w)
AAddBelow(h, id, w) == /\ w # <<>> /\ id \in DOMAIN im[h].items
                       /\ LET x == IAdd(im[h], id, w) IN Len(x.items) <= MaxNodes /\ Put(h, x)
                       /\ D!AddBelow(h, WordAt(im[h].items, id, id), w)
AAttach(h, id, ns) == /\ id \in DOMAIN im[h].items
                      /\ \A k \in DOMAIN ns : ns[k] \in KnownNames(im[h])
                      /\ IF ns = <<>> THEN UNCHANGED ivars
                         ELSE LET x == IAttach(im[h], id, ns) IN VarsCount(x) <= MaxVars /\ Put(h, x)
                      /\ D!Attach(h, WordAt(im[h].items, id, id), ns)
ACompact(h) == Put(h, ICompact(im[h])) /\ D!Compact(h)
ASave(h, f) == /\ Fits(im[h]) /\ fl' = [fl EXCEPT ![f] = Encode(Image(im[h]))] /\ UNCHANGED im
               /\ D!Save(h, f)
ARefuseSave(h, f) == ~Fits(ICompact(im[h])) /\ UNCHANGED allvars
ALoad(h, f) == /\ fl[f] # NoFile /\ Decode(fl[f]).ok /\ Put(h, FromImage(Decode(fl[f])))
               /\ D!Load(h, f)
Next == \E h \in Handles :
    \/ ANew(h)
    \/ \E n \in Names, p \in Parents : ATag(h, n, p)
    \/ \E w \in Words : AAdd(h, w)
    \/ \E id \in DOMAIN im[h].items, w \in Words : AAddBelow(h, id, w)
    \/ \E id \in DOMAIN im[h].items, ns \in D!TagLists : AAttach(h, id, ns)
    \/ ACompact(h)
    \/ \E f \in Files : ASave(h, f) \/ ALoad(h, f) \/ ARefuseSave(h, f)
Spec == Init /\ [][Next]_allvars

(* --- properties ------------------------------------------------------------- *)
SimOK == /\ \A h \in Handles : idx[h] = AbsIm(im[h])
         /\ \A f \in Files : file[f] = AbsFile(fl[f])
\* what the program can save (after compaction) is what the abstract level calls representable
FitsOK == \A h \in Handles : Fits(ICompact(im[h])) <=> Representable(idx[h], Lim)
Frame == D!Frame /\ D!FileFrame

\* the children map says what the parent pointers say, and nothing else
KidsOK == \A h \in Handles : LET i == im[h] IN
    /\ Cardinality(DOMAIN i.kids) = Len(i.items)
    /\ \A k \in DOMAIN i.items : i.kids[<<i.items[k].p, i.items[k].l>>] = k
\* lookups by the children map find exactly the words of the abstraction, with their tag sets
LookupOK == \A h \in Handles : LET i == im[h]  d == AbsIm(i) IN
    \A w \in Words : /\ (IFind(i, w) # 0) <=> (w \in d.nodes)
                     /\ IFind(i, w) # 0 =>
                          {TagBag(i, SetAt(i, x)) : x \in Rng(Combo(i.vars, i.items[IFind(i, w)].v))} = TagSetsOf(d, w)
WordsOK == \A h \in Handles : im[h].words = WordsCount(AbsIm(im[h]))
\* stores never hold two equal entries, entries are sorted and of the size of their table
StoreOK(tables, Less(_, _)) == \A t \in DOMAIN tables :
    /\ Cardinality(Rng(tables[t])) = Len(tables[t])
    /\ \A x \in Rng(tables[t]) : Len(x) = t /\ \A k \in 1..(t - 1) : ~Less(x[k + 1], x[k])
StoresOK == \A h \in Handles : /\ StoreOK(im[h].sets, LAMBDA x, y : x < y)
                               /\ StoreOK(im[h].vars, LessId)
                               /\ WellFormed(Image(im[h]))
\* what identifiers of tag sets stand for never changes, nor, but for compaction, what those of combinations do
Extended(a, b) == /\ Len(b) >= Len(a)
                  /\ \A t \in DOMAIN a : IsPrefix(a[t], b[t])
Renewed(h) == im'[h] = EmptyIm \/ \E f \in Files : fl[f] # NoFile /\ im'[h] = FromImage(Decode(fl[f]))
StableSets == [][\A h \in Handles : Renewed(h) \/ (/\ Extended(im[h].sets, im'[h].sets)
                                                  /\ IsPrefix(im[h].tags, im'[h].tags))]_allvars
StableVars == [][\A h \in Handles : Renewed(h) \/ Extended(im[h].vars, im'[h].vars) \/ im'[h] = ICompact(im[h])]_allvars
AlwaysVars == [][\A h \in Handles : Renewed(h) \/ Extended(im[h].vars, im'[h].vars)]_allvars   \* refuted: compaction
\* identifiers lead all the way down, and to nothing twice
ChainOK == \A h \in Handles : LET i == im[h]  d == AbsIm(i) IN
    /\ \A k \in DOMAIN i.items : LET ids == Combo(i.vars, i.items[k].v) IN
          /\ (i.items[k].v = NoVar) <=> (TagSetsOf(d, WordAt(i.items, k, k)) = {})
          /\ \A j \in DOMAIN ids : ids[j][1] + 1 \in DOMAIN i.sets /\ ids[j][2] + 1 \in DOMAIN i.sets[ids[j][1] + 1]
          /\ {TagBag(i, SetAt(i, ids[j])) : j \in DOMAIN ids} = TagSetsOf(d, WordAt(i.items, k, k))
    /\ \A k, j \in DOMAIN i.items :
          (TagSetsOf(d, WordAt(i.items, k, k)) = TagSetsOf(d, WordAt(i.items, j, j))) <=> (i.items[k].v = i.items[j].v)
    /\ {TagBag(i, s) : s \in UNION {Rng(i.sets[t]) : t \in DOMAIN i.sets}} = AllTagSets(d)
\* compaction keeps the dictionary and leaves exactly what is in use; it is idempotent
CompactOK == \A h \in Handles : LET c == ICompact(im[h]) IN
    /\ AbsIm(c) = AbsIm(im[h]) /\ c.words = im[h].words
    /\ AllVarIds(c) = UsedIds(c)
    /\ ICompact(c) = c
    /\ Len(Encode(Image(c))) <= Len(Encode(Image(im[h])))
\* decode inverts encode; every proper prefix and every changed marker is refused
Saved(h) == Encode(Image(im[h]))
CodecOK == \A h \in Handles : LET b == Saved(h)  d == Decode(b) IN
    /\ d.ok /\ WellFormed(d) /\ d.next = Len(b) + 1
    /\ Encode(d) = b
    /\ FromImage(d) = im[h]
    /\ Encode(Image(FromImage(d))) = b
    /\ \A f \in Files : fl[f] # NoFile => Decode(fl[f]).ok /\ WellFormed(Decode(fl[f]))
TruncOK == \A h \in Handles : LET b == Saved(h) IN
    \A k \in 0..(Len(b) - 1) : ~Decode(SubSeq(b, 1, k)).ok
\* the size of a file is a function of its content (used to judge compaction by file size)
SizeOK == \A h \in Handles : Len(Saved(h)) = ImageSize(Image(im[h]))
=============================================================================
