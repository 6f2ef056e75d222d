-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* The parts of an index and the sets have binary forms of their own.      *)
(* Enc gives the bytes of a part; ReadPart takes bytes and a position and  *)
(* gives the part and the next position, or fails when bytes are missing.  *)
(* A part is <<kind, value>>:                                              *)
(*   s8, ts, tso : numbers below 256    s16 : numbers below 65536          *)
(*   name : bytes    tag : <<name, parent>>    reg : tags                  *)
(*   tst : tag sets    tsi : tables of these                               *)
(*   var : pairs of 16-bit halves    vt : such    vi : tables of these     *)
(*   item : <<parent, id, letter, combination>>, each in halves            *)
(*   items : <<parent, letter, combination>>, their ids being 1, 2, ...    *)
(*   index : a whole image, as bytes                                       *)
(***************************************************************************)
EXTENDS Format, Registry

Halves(n) == <<n \div 65536, n % 65536>>
Count32(n) == Id32(Halves(n))
Zeros(n) == [i \in 1..n |-> 0]

EncTagPart(t) == EncName(t[2]) \o EncName(t[1])
EncHalves(t) == Cat(Map(Id32, t))

EncPart(kind, v) ==
    CASE kind \in {"s8", "ts", "tso"} -> EncSet(v)
      [] kind = "s16" -> U16(Len(v)) \o Cat(Map(U16, v))
      [] kind = "name" -> EncName(v)
      [] kind = "tag" -> EncTagPart(v)
      [] kind = "reg" -> U8(Len(v)) \o Cat(Map(EncTagPart, v))
      [] kind = "tst" -> U16(Len(v)) \o Cat(Map(EncSet, v))
      [] kind = "tsi" -> EncSets(v)
      [] kind = "var" -> EncVar(v)
      [] kind = "vt" -> Count32(Len(v)) \o Cat(Map(EncVar, v))
      [] kind = "vi" -> EncVars(v)
      [] kind = "item" -> EncHalves(v)
      [] kind = "items" -> Count32(Len(v) + 1) \o Zeros(16)
                           \o Cat([i \in DOMAIN v |-> EncHalves(<<v[i][1], Halves(i), v[i][2], v[i][3]>>)])
      [] kind = "index" -> v

\* what reading gives back for a value
BackPart(kind, v) ==
    CASE kind = "name" -> ReadBack(v)
      [] kind = "tag" -> <<ReadBack(v[1]), ReadBack(v[2])>>
      [] kind = "reg" -> [i \in DOMAIN v |-> <<ReadBack(v[i][1]), ReadBack(v[i][2])>>]
      [] OTHER -> v

SetFits(s) == Len(s) <= 255
PartFits(kind, v) ==
    CASE kind \in {"s8", "ts", "tso", "var"} -> SetFits(v)
      [] kind = "s16" -> Len(v) <= 65535
      [] kind = "name" -> NameFits(v)
      [] kind = "tag" -> NameFits(v[1]) /\ NameFits(v[2])
      [] kind = "reg" -> Len(v) <= 255 /\ \A i \in DOMAIN v : NameFits(v[i][1]) /\ NameFits(v[i][2])
      [] kind = "tst" -> Len(v) <= 65535 /\ \A i \in DOMAIN v : SetFits(v[i])
      [] kind = "tsi" -> \A t \in DOMAIN v : Len(v[t]) <= 65535 /\ \A i \in DOMAIN v[t] : SetFits(v[t][i])
      [] kind = "vt" -> \A i \in DOMAIN v : SetFits(v[i])
      [] kind = "vi" -> Len(v) <= 255 /\ \A t \in DOMAIN v : \A i \in DOMAIN v[t] : SetFits(v[t][i])
      [] OTHER -> TRUE

RTagPart(b, p) == LET r == RTag(b, p) IN IF r.ok THEN Got(r.p, <<r.v.n, r.v.p>>) ELSE Fail
RFour(b, p) == RMany(b, p, 4, RId)
RItemsPart(b, p) ==
    LET r == RCounted(b, p, R32, RFour)
        rest == IF r.ok THEN SubSeq(r.v, 2, Len(r.v)) ELSE <<>>
    IN  IF r.ok /\ r.v # <<>> /\ r.v[1] = <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>
           /\ \A i \in DOMAIN rest : rest[i][2] = Halves(i)
        THEN Got(r.p, [i \in DOMAIN rest |-> <<rest[i][1], rest[i][3], rest[i][4]>>]) ELSE Fail
RIndexPart(b, p) ==
    LET d == Decode(SubSeq(b, p, Len(b))) IN IF d.ok THEN Got(p + d.next - 1, SubSeq(b, p, p + d.next - 2)) ELSE Fail

ReadPart(kind, b, p) ==
    CASE kind \in {"s8", "ts", "tso"} -> RSet(b, p)
      [] kind = "s16" -> RCounted(b, p, R16, R16)
      [] kind = "name" -> RName(b, p)
      [] kind = "tag" -> RTagPart(b, p)
      [] kind = "reg" -> RCounted(b, p, R8, RTagPart)
      [] kind = "tst" -> RSetTable(b, p)
      [] kind = "tsi" -> RSets(b, p)
      [] kind = "var" -> RVar(b, p)
      [] kind = "vt" -> RVarTable(b, p)
      [] kind = "vi" -> RVars(b, p)
      [] kind = "item" -> RFour(b, p)
      [] kind = "items" -> RItemsPart(b, p)
      [] kind = "index" -> RIndexPart(b, p)

\* parts one after another in a stream
EncParts(ps) == Cat(Map(LAMBDA x : EncPart(x[1], x[2]), ps))
\* first part, 0-based, which needs more than the first n bytes; -1 for none; ends: bytes after each
FirstCut(ends, n) == LET c == {k \in DOMAIN ends : ends[k] > n}
                     IN  IF c = {} THEN -1 ELSE (CHOOSE k \in c : \A j \in c : k <= j) - 1
EndsOf(ps) == LET s == [i \in DOMAIN ps |-> Len(EncPart(ps[i][1], ps[i][2]))]
              IN  [i \in DOMAIN ps |-> FoldLeft(LAMBDA a, k : a + s[k], 0, [k \in 1..i |-> k])]
=============================================================================
