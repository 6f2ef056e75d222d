-------------------------------- MODULE System --------------------------------
(***************************************************************************)
(* The whole way: a document is published, an update makes a dictionary    *)
(* of it, a console answers from it.  DAnswer says what the console        *)
(* answers in terms of the dictionary alone (Dict.tla), whatever numbers   *)
(* the file gives to its parts; MCSystem.tla compares it with Console.tla. *)
(***************************************************************************)
EXTENDS Console

NamesOf(b) == LET ns == {t.n : t \in DOMAIN b} IN [n \in ns |-> BagSizeOn(b, {t \in DOMAIN b : t.n = n})]
SetsOf(d, w) == {NamesOf(b) : b \in TagSetsOf(d, w)}
Letters(d, w) == {x[Len(x)] : x \in Children(d, w)}

DAnswer(d, line) ==
    LET items == Split(line)
        c == CommandOf(items)
    IN  CASE c = "tag" -> TagAnswer([tags |-> d.tags], items)
          [] c = "node" ->
                IF Len(items) # 2 THEN Err
                ELSE IF items[2] = Count THEN [k |-> "nodecount", n |-> NodesCount(d)]
                ELSE IF Decimal(items[2]).ok THEN [k |-> "any"]
                ELSE IF items[2] \notin d.nodes THEN Err
                ELSE [k |-> "node", w |-> items[2], sets |-> SetsOf(d, items[2]), kids |-> Letters(d, items[2])]
          [] c = "search" ->
                IF line \notin d.nodes THEN [k |-> "none"]
                ELSE IF SetsOf(d, line) = {} THEN [k |-> "empty"] ELSE [k |-> "found", sets |-> SetsOf(d, line)]
          [] OTHER -> [k |-> "any"]

\* an answer of Console.tla, without the numbers of the file
Plain(a) == IF a.k = "node" THEN [k |-> "node", w |-> a.w, sets |-> a.sets, kids |-> {x[1] : x \in a.kids}] ELSE a
=============================================================================
