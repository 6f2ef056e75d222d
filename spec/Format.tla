------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The index file format, as bytes.  An image is                           *)
(*   tags  : sequence of [n |-> 4 bytes, p |-> 4 bytes]                    *)
(*   sets  : sequence (table t holds sets of size t) of sequences of tag   *)
(*           sets, a tag set being a sequence of 0-based tag numbers       *)
(*   vars  : sequence (table t holds combinations of size t) of sequences  *)
(*           of combinations, a combination being a sequence of tag set    *)
(*           identifiers <<table - 1, position - 1>>                       *)
(*   items : function 0..n-1 -> [p |-> parent, id |-> id, l |-> letter,    *)
(*           v |-> combination identifier <<table, position - 1>>, <<0,0>> *)
(*           for none]; item 0 is the root                                 *)
(***************************************************************************)
EXTENDS Dict, SequencesExt

FMark(a, b) == <<a, b, 0>>
TD == FMark(84, 68)   TI == FMark(84, 73)   CD == FMark(67, 68)   ID == FMark(73, 68)

U8(n) == <<n % 256>>
U16(n) == <<(n \div 256) % 256, n % 256>>
U32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Id32(x) == U16(x[1]) \o U16(x[2])

FourSpaces == <<32, 32, 32, 32>>
EncName(n) == IF n = <<>> \/ n = EmptyName THEN FourSpaces ELSE n
DecName(b) == IF b = FourSpaces THEN EmptyName ELSE b

Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]

(* --- encoding ------------------------------------------------------------ *)
EncTags(tags) == U8(Len(tags)) \o Cat(Map(LAMBDA t : EncName(t.p) \o EncName(t.n), tags))
EncSet(s) == U8(Len(s)) \o s
EncSets(sets) == U32(Len(sets)) \o Cat(Map(LAMBDA t : U16(Len(t)) \o Cat(Map(EncSet, t)), sets))
EncVar(v) == U8(Len(v)) \o Cat(Map(Id32, v))
EncVars(vars) == U8(Len(vars)) \o Cat(Map(LAMBDA t : U32(Len(t)) \o Cat(Map(EncVar, t)), vars))
EncItem(x) == U32(x.p) \o U32(x.id) \o U32(x.l) \o Id32(x.v)
EncItems(items) == U32(Cardinality(DOMAIN items))
                   \o Cat([i \in 1..Cardinality(DOMAIN items) |-> EncItem(items[i - 1])])
Encode(img) == TD \o EncTags(img.tags) \o TI \o EncSets(img.sets)
               \o CD \o EncVars(img.vars) \o ID \o EncItems(img.items)

ImageSize(img) ==
    LET Sum(g(_), s) == FoldLeft(LAMBDA a, x : a + g(x), 0, s)
    IN  (3 + 1 + 8 * Len(img.tags))
      + (3 + 4 + Sum(LAMBDA t : 2 + Sum(LAMBDA x : 1 + Len(x), t), img.sets))
      + (3 + 1 + Sum(LAMBDA t : 4 + Sum(LAMBDA x : 1 + 4 * Len(x), t), img.vars))
      + (3 + 4 + 16 * Cardinality(DOMAIN img.items))

(* --- decoding ------------------------------------------------------------ *)
(* Readers take the bytes and a position and give [ok, p, v]; p is the next position. *)
Fail == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Has(b, p, n) == p + n - 1 <= Len(b)
Got(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
R8(b, p) == IF Has(b, p, 1) THEN Got(p + 1, b[p]) ELSE Fail
R16(b, p) == IF Has(b, p, 2) THEN Got(p + 2, b[p] * 256 + b[p + 1]) ELSE Fail
\* numbers of 2^31 and more do not occur in files that could exist here: read as unreadable
R32(b, p) == IF Has(b, p, 4) /\ b[p] < 128
             THEN Got(p + 4, b[p] * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]) ELSE Fail
RId(b, p) == IF Has(b, p, 4)
             THEN Got(p + 4, <<b[p] * 256 + b[p + 1], b[p + 2] * 256 + b[p + 3]>>) ELSE Fail
RMark(b, p, m) == IF Has(b, p, 3) /\ SubSeq(b, p, p + 2) = m THEN Got(p + 3, m) ELSE Fail

\* n things, one after another
RMany(b, p, n, Read(_, _)) ==
    IF n > Len(b) THEN Fail
    ELSE FoldLeft(LAMBDA a, i : IF ~a.ok THEN a
                                ELSE LET r == Read(b, a.p) IN IF r.ok THEN Got(r.p, Append(a.v, r.v)) ELSE Fail,
                  Got(p, <<>>), [i \in 1..n |-> i])
RCounted(b, p, Count(_, _), Read(_, _)) ==
    LET c == Count(b, p) IN IF c.ok THEN RMany(b, c.p, c.v, Read) ELSE Fail

RName(b, p) == IF Has(b, p, 4) THEN Got(p + 4, DecName(SubSeq(b, p, p + 3))) ELSE Fail
RTag(b, p) == LET x == RName(b, p) IN IF ~x.ok THEN Fail ELSE
              LET y == RName(b, x.p) IN IF ~y.ok THEN Fail ELSE Got(y.p, [p |-> x.v, n |-> y.v])
RTags(b, p) == RCounted(b, p, R8, RTag)
RSet(b, p) == RCounted(b, p, R8, R8)
RSetTable(b, p) == RCounted(b, p, R16, RSet)
RSets(b, p) == RCounted(b, p, R32, RSetTable)
RVar(b, p) == RCounted(b, p, R8, RId)
RVarTable(b, p) == RCounted(b, p, R32, RVar)
RVars(b, p) == RCounted(b, p, R8, RVarTable)
RItem(b, p) == IF ~Has(b, p, 16) THEN Fail ELSE
    LET q == R32(b, p)  i == R32(b, p + 4)  l == R32(b, p + 8)  v == RId(b, p + 12)
    IN  IF q.ok /\ i.ok /\ l.ok /\ v.ok THEN Got(p + 16, [p |-> q.v, id |-> i.v, l |-> l.v, v |-> v.v]) ELSE Fail
RItems(b, p) == LET r == RCounted(b, p, R32, RItem)
                IN  IF r.ok THEN Got(r.p, [i \in 0..(Len(r.v) - 1) |-> r.v[i + 1]]) ELSE Fail

NoImage == [ok |-> FALSE]
Decode(b) ==
    LET m1 == RMark(b, 1, TD) IN IF ~m1.ok THEN NoImage ELSE
    LET s1 == RTags(b, m1.p)  IN IF ~s1.ok THEN NoImage ELSE
    LET m2 == RMark(b, s1.p, TI) IN IF ~m2.ok THEN NoImage ELSE
    LET s2 == RSets(b, m2.p) IN IF ~s2.ok THEN NoImage ELSE
    LET m3 == RMark(b, s2.p, CD) IN IF ~m3.ok THEN NoImage ELSE
    LET s3 == RVars(b, m3.p) IN IF ~s3.ok THEN NoImage ELSE
    LET m4 == RMark(b, s3.p, ID) IN IF ~m4.ok THEN NoImage ELSE
    LET s4 == RItems(b, m4.p) IN IF ~s4.ok THEN NoImage ELSE
    [ok |-> TRUE, tags |-> s1.v, sets |-> s2.v, vars |-> s3.v, items |-> s4.v, next |-> s4.p]

\* 0-based positions of the bytes of the section markers
MarkPositions(b) ==
    LET s1 == RTags(b, 4)  s2 == RSets(b, s1.p + 3)  s3 == RVars(b, s2.p + 3)
    IN  IF ~Decode(b).ok THEN {} ELSE UNION {{p - 1, p, p + 1} : p \in {1, s1.p, s2.p, s3.p}}

(* --- meaning of an image -------------------------------------------------- *)
NodeIds(img) == DOMAIN img.items \ {0}
HasSet(img, x) == x[1] < Len(img.sets) /\ x[2] < Len(img.sets[x[1] + 1])
SetAt(img, x) == img.sets[x[1] + 1][x[2] + 1]
HasVar(img, v) == v[1] >= 1 /\ v[1] <= Len(img.vars) /\ v[2] < Len(img.vars[v[1]])
VarAt(img, v) == img.vars[v[1]][v[2] + 1]
RECURSIVE WordAt(_, _, _)
WordAt(items, i, fuel) == IF i = 0 \/ fuel = 0 THEN <<>>
                          ELSE Append(WordAt(items, items[i].p, fuel - 1), items[i].l)
RECURSIVE Rooted(_, _, _)
Rooted(items, i, fuel) == i = 0 \/ (fuel > 0 /\ i \in DOMAIN items /\ Rooted(items, items[i].p, fuel - 1))

\* Files written by any version of the program are well-formed in this sense.
WellFormed(img) ==
    /\ 0 \in DOMAIN img.items
    /\ \A i \in NodeIds(img) :
          /\ img.items[i].id = i
          /\ img.items[i].p \in DOMAIN img.items
          /\ Rooted(img.items, i, Cardinality(DOMAIN img.items))
          /\ img.items[i].v = <<0, 0>> \/ HasVar(img, img.items[i].v)
    /\ Cardinality({<<img.items[i].p, img.items[i].l>> : i \in NodeIds(img)}) = Cardinality(NodeIds(img))
    /\ \A t \in DOMAIN img.sets : \A s \in Rng(img.sets[t]) :
          Len(s) = t /\ \A k \in DOMAIN s : s[k] < Len(img.tags)
    /\ \A t \in DOMAIN img.vars : \A v \in Rng(img.vars[t]) :
          Len(v) = t /\ \A k \in DOMAIN v : HasSet(img, v[k])
    /\ \A i, j \in DOMAIN img.tags : img.tags[i].n = img.tags[j].n => i = j

WordOf(img, i) == WordAt(img.items, i, Cardinality(DOMAIN img.items))
TagBag(img, s) == BagOf([k \in DOMAIN s |-> img.tags[s[k] + 1]])
AbsImage(img) ==
    LET used == {i \in NodeIds(img) : img.items[i].v # <<0, 0>>}
        ws == [i \in NodeIds(img) |-> WordOf(img, i)]
        at(w) == LET i == CHOOSE i \in used : ws[i] = w
                 IN  {TagBag(img, SetAt(img, x)) : x \in Rng(VarAt(img, img.items[i].v))}
    IN  [tags |-> img.tags,
         nodes |-> {ws[i] : i \in DOMAIN ws},
         att |-> [w \in {ws[i] : i \in used} |-> at(w)]]
IdsOfImage(img) == LET ws == [i \in NodeIds(img) |-> WordOf(img, i)]
                   IN  [w \in {ws[i] : i \in DOMAIN ws} |-> CHOOSE i \in DOMAIN ws : ws[i] = w]

StoredVars(img) == UNION {Rng(img.vars[t]) : t \in DOMAIN img.vars}
UsedVars(img) == {VarAt(img, img.items[i].v) : i \in {i \in NodeIds(img) : img.items[i].v # <<0, 0>>}}
VarsCount(img) == FoldLeft(LAMBDA a, t : a + Len(t), 0, img.vars)
=============================================================================
