----------------------------- MODULE StoresImpl -----------------------------
(***************************************************************************)
(* The stores as they are built: tables searched from the start, one table *)
(* per size in collections, identifiers made of table number and position, *)
(* and a test for room.  Refines Stores: `abs` is kept in step and every   *)
(* answer is judged by it.  With Wrapping = TRUE a full table hands out    *)
(* position modulo its capacity: that must be noticed.                     *)
(***************************************************************************)
EXTENDS Stores, SequencesExt
CONSTANTS Kind, Elems, MaxLen, Cap, Wrapping
VARIABLES tab, abs, ok     \* ok: the last answer was right
svars == <<tab, abs, ok>>

Coll == Kind \in {"c8", "tsi", "vi"}
CapOf == [k \in {Kind} |-> Cap]
SizeOf == [k \in {Kind} |-> MaxLen]
Colls == {"c8", "c16", "tsi", "vi"}
Bags == UNION {[1..n -> Elems] : n \in 1..MaxLen}

TableFor(x) == IF Coll THEN Len(x) ELSE 1
Grown(t, n) == [i \in 1..(IF Len(t) < n THEN n ELSE Len(t)) |-> IF i <= Len(t) THEN t[i] ELSE <<>>]
Pos(table, x) == IF \E i \in DOMAIN table : table[i] = x
                 THEN CHOOSE i \in DOMAIN table : table[i] = x /\ \A j \in 1..(i - 1) : table[j] # x
                 ELSE 0
MkId(col, pos) == IF Coll THEN <<col - 1, pos - 1>> ELSE pos - 1

Init == tab = <<>> /\ abs = NewStore(Kind, 0) /\ ok = TRUE
Put(b) ==
    LET x == Sorted(Kind, b)
        col == TableFor(x)
        t == Grown(tab, col)
        p == Pos(t[col], x)
        full == Len(t[col]) >= Cap
    IN  IF p > 0
        THEN tab' = t /\ abs' = DoPut(abs, x, MkId(col, p)) /\ ok' = PutOK(abs, x, MkId(col, p))
        ELSE IF full /\ ~Wrapping
        THEN UNCHANGED <<tab, abs>> /\ ok' = ~HasRoom(abs, Len(x), CapOf, SizeOf, Colls)
        ELSE LET pos == IF full THEN (Len(t[col]) % Cap) + 1 ELSE Len(t[col]) + 1
                 id == MkId(col, pos)
             IN  /\ tab' = [t EXCEPT ![col] = Append(@, x)]
                 /\ ok' = (PutOK(abs, x, id) /\ HasRoom(abs, Len(x), CapOf, SizeOf, Colls))
                 /\ abs' = IF PutOK(abs, x, id) THEN DoPut(abs, x, id) ELSE abs
Next == \E b \in Bags : Put(b)
Spec == Init /\ [][Next]_svars

FindIn(b) == IF TableFor(b) <= Len(tab) /\ Pos(tab[TableFor(b)], b) > 0
             THEN <<MkId(TableFor(b), Pos(tab[TableFor(b)], b))>> ELSE <<>>
Ids == {MkId(c, p) : c \in 1..MaxLen, p \in 1..(Cap + 1)}
GetIn(id) == LET col == IF Coll THEN id[1] + 1 ELSE 1
                 pos == IF Coll THEN id[2] + 1 ELSE id + 1
             IN  IF col <= Len(tab) /\ pos <= Len(tab[col]) THEN <<tab[col][pos]>> ELSE <<>>

AnswersOK == ok
OneToOne == StoreOK(abs)
FindsOK == \A b \in {x \in Bags : IsSorted(Kind, x)} :
             FindIn(b) = IF b \in Stored(abs) THEN <<IdFor(abs, b)>> ELSE <<>>
GetsOK == \A id \in Ids : GetIn(id) = IF id \in DOMAIN abs.ids THEN <<abs.ids[id]>> ELSE <<>>
Stable == [][\A id \in DOMAIN abs.ids : id \in DOMAIN abs'.ids /\ abs'.ids[id] = abs.ids[id]]_svars
=============================================================================
