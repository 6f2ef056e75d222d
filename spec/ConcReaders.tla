------------------------------ MODULE ConcReaders ------------------------------
(***************************************************************************)
(* Goroutines look words up in one index at the same time and save it.     *)
(* The children map is a Go map: an access has a beginning and an end, and *)
(* any access during a modification may crash or corrupt it.  A lookup     *)
(* that adds the missing entry of a leaf (Lazy = TRUE) must be refuted.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, PerProc, Lazy
\* a trie: 1 -a-> 2 -b-> 3; 1 -b-> 4; the root is 1
Kids == (1 :> ("a" :> 2 @@ "b" :> 4)) @@ (2 :> ("b" :> 3))
Words == {<<"a">>, <<"a", "b">>, <<"b">>, <<"b", "a">>, <<"a", "b", "a">>}
RECURSIVE Seq1(_, _)
Seq1(node, w) == IF w = <<>> THEN node
                 ELSE IF node \in DOMAIN Kids /\ Head(w) \in DOMAIN Kids[node] THEN Seq1(Kids[node][Head(w)], Tail(w)) ELSE 0
VARIABLES kids, acc, pc, w, node, n, res, saving
vars == <<kids, acc, pc, w, node, n, res, saving>>
Init == /\ kids = Kids /\ acc = {}
        /\ pc = [p \in Procs |-> "idle"] /\ w = [p \in Procs |-> <<>>] /\ node = [p \in Procs |-> 1]
        /\ n = [p \in Procs |-> 0] /\ res = [p \in Procs |-> <<>>] /\ saving = 0
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Ask(p, x) == /\ pc[p] = "idle" /\ n[p] < PerProc /\ n' = [n EXCEPT ![p] = @ + 1]
             /\ w' = [w EXCEPT ![p] = x] /\ node' = [node EXCEPT ![p] = 1] /\ res' = [res EXCEPT ![p] = <<x>>]
             /\ Go(p, "step") /\ UNCHANGED <<kids, acc, saving>>
Begin(p) == /\ pc[p] = "step" /\ w[p] # <<>>
            /\ IF Lazy /\ node[p] \notin DOMAIN kids
               THEN acc' = acc \cup {<<p, "write">>} /\ Go(p, "insert")
               ELSE acc' = acc \cup {<<p, "read">>} /\ Go(p, "look")
            /\ UNCHANGED <<kids, w, node, n, res, saving>>
Insert(p) == /\ pc[p] = "insert" /\ kids' = (node[p] :> <<>>) @@ kids /\ acc' = acc \ {<<p, "write">>}
             /\ Go(p, "step") /\ UNCHANGED <<w, node, n, res, saving>>
Look(p) == /\ pc[p] = "look" /\ acc' = acc \ {<<p, "read">>}
           /\ LET found == node[p] \in DOMAIN kids /\ Head(w[p]) \in DOMAIN kids[node[p]] IN
              IF found THEN node' = [node EXCEPT ![p] = kids[@][Head(w[p])]] /\ w' = [w EXCEPT ![p] = Tail(@)]
              ELSE node' = [node EXCEPT ![p] = 0] /\ w' = [w EXCEPT ![p] = <<>>]
           /\ Go(p, "step") /\ UNCHANGED <<kids, n, res, saving>>
Answer(p) == /\ pc[p] = "step" /\ w[p] = <<>> /\ res' = [res EXCEPT ![p] = Append(@, node[p])] /\ Go(p, "idle")
             /\ UNCHANGED <<kids, acc, w, node, n, saving>>
SaveBegin(p) == /\ pc[p] = "idle" /\ n[p] < PerProc /\ saving = 0 /\ saving' = p /\ n' = [n EXCEPT ![p] = @ + 1]
                /\ res' = [res EXCEPT ![p] = <<>>] /\ Go(p, "save") /\ UNCHANGED <<kids, acc, w, node>>
SaveEnd(p) == pc[p] = "save" /\ saving' = 0 /\ Go(p, "idle") /\ UNCHANGED <<kids, acc, w, node, n, res>>
Next == \E p \in Procs : (\E x \in Words : Ask(p, x)) \/ Begin(p) \/ Insert(p) \/ Look(p) \/ Answer(p) \/ SaveBegin(p) \/ SaveEnd(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Begin(p) \/ Insert(p) \/ Look(p) \/ Answer(p) \/ SaveEnd(p))
NoConflict == \A a, b \in acc : a[1] # b[1] => a[2] = "read" /\ b[2] = "read"
AsAlone == \A p \in Procs : Len(res[p]) = 2 => res[p][2] = Seq1(1, res[p][1])
Unchanged == kids = Kids
Returns == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
=============================================================================
