------------------------------ MODULE Ownership ------------------------------
(***************************************************************************)
(* Who owns which piece of memory.  A caller lends the store a piece to    *)
(* put, gets pieces as answers, and writes to every piece of its own       *)
(* whenever it likes.  The store may copy or share what it is lent (Keep)  *)
(* and what it answers (Give).  Views (Give = "view") are shared for       *)
(* reading: the caller has promised not to write to them.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Locs, Values, Keep, Give, MaxStored

VARIABLES heap,    \* piece -> its content
          mine,    \* pieces the caller may write to
          store,   \* pieces of the store, by identifier
          told,    \* what the caller put, by identifier
          answers  \* answers held by the caller: piece -> what it was told
vars == <<heap, mine, store, told, answers>>

Used == mine \cup {store[i] : i \in DOMAIN store} \cup DOMAIN answers
Free == Locs \ Used

Init == /\ \E c \in Locs : mine = {c}
        /\ heap \in [Locs -> {CHOOSE v \in Values : TRUE}]
        /\ store = <<>> /\ told = <<>> /\ answers = <<>>

Known(v) == \E i \in DOMAIN store : heap[store[i]] = v
Put(c) ==
    /\ Len(store) < MaxStored /\ ~Known(heap[c])
    /\ told' = Append(told, heap[c])
    /\ IF Keep = "copy"
       THEN \E n \in Free : store' = Append(store, n) /\ heap' = [heap EXCEPT ![n] = heap[c]]
       ELSE store' = Append(store, c) /\ UNCHANGED heap
    /\ UNCHANGED <<mine, answers>>
Ask(i) ==
    IF Give = "copy"
    THEN \E n \in Free : /\ heap' = [heap EXCEPT ![n] = heap[store[i]]]
                         /\ mine' = mine \cup {n} /\ UNCHANGED answers
    ELSE IF Give = "view"
    THEN answers' = (store[i] :> heap[store[i]]) @@ answers /\ UNCHANGED <<heap, mine>>
    ELSE mine' = mine \cup {store[i]} /\ UNCHANGED <<heap, answers>>
Scribble(c, v) == heap' = [heap EXCEPT ![c] = v] /\ UNCHANGED <<mine, store, told, answers>>
Drop(c) == Cardinality(mine) > 1 /\ mine' = mine \ {c} /\ UNCHANGED <<heap, store, told, answers>>

Next == \/ \E c \in mine : Put(c) \/ Drop(c) \/ \E v \in Values : Scribble(c, v)
        \/ \E i \in DOMAIN store : Ask(i) /\ UNCHANGED <<store, told>>
Spec == Init /\ [][Next]_vars

\* identifiers keep what was put; different identifiers stand for different things
Kept == \A i \in DOMAIN store : heap[store[i]] = told[i]
OneEach == \A i, j \in DOMAIN store : i # j => told[i] # told[j]
\* a view shows what it showed
Steady == \A l \in DOMAIN answers : heap[l] = answers[l]
=============================================================================
