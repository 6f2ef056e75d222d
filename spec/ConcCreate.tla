------------------------------ MODULE ConcCreate ------------------------------
(***************************************************************************)
(* Several goroutines create nodes in one node storage.  Slices are        *)
(* modelled as Go has them: the storage holds a header (which array, how   *)
(* long); growing copies the elements to a new array, one at a time, and   *)
(* replaces the header.  A goroutine that filled its slot outside the lock *)
(* could write to the array left behind (FillLocked = FALSE), one that     *)
(* took its number outside could take another's (TakeLocked = FALSE): both *)
(* must be refuted.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, PerProc, Grow, FillLocked, TakeLocked
NoOne == 0
VARIABLES lock, next, hdr, arr, pc, n, my, at, done, cp
vars == <<lock, next, hdr, arr, pc, n, my, at, done, cp>>
Empty == [id |-> 0, parent |-> 0, letter |-> 0]
\* the n-th node of process p has a parent and letter of its own
Want(p, k) == [parent |-> 10 * p + k, letter |-> 100 * p + k]

Init == /\ lock = NoOne /\ next = 1
        /\ hdr = 1 /\ arr = <<<<Empty>>>>          \* arrays; slot of identifier i is i + 1
        /\ pc = [p \in Procs |-> "idle"] /\ n = [p \in Procs |-> 0]
        /\ my = [p \in Procs |-> 0] /\ at = [p \in Procs |-> 0] /\ cp = [p \in Procs |-> 0]
        /\ done = {}                               \* <<process, k, identifier returned>>
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Start(p) == pc[p] = "idle" /\ n[p] < PerProc /\ n' = [n EXCEPT ![p] = @ + 1]
            /\ (IF TakeLocked THEN Go(p, "lock") ELSE Go(p, "take")) /\ UNCHANGED <<lock, next, hdr, arr, my, at, done, cp>>
Lock(p) == pc[p] = "lock" /\ lock = NoOne /\ lock' = p
           /\ (IF TakeLocked THEN Go(p, "take") ELSE Go(p, "room")) /\ UNCHANGED <<next, hdr, arr, n, my, at, done, cp>>
Take(p) == pc[p] = "take" /\ my' = [my EXCEPT ![p] = next]
           /\ (IF TakeLocked THEN Go(p, "room") ELSE Go(p, "lock")) /\ UNCHANGED <<lock, next, hdr, arr, n, at, done, cp>>
Room(p) == /\ pc[p] = "room"
           /\ IF Len(arr[hdr]) <= my[p]
              THEN arr' = Append(arr, [i \in 1..(my[p] + Grow) |-> Empty]) /\ cp' = [cp EXCEPT ![p] = 1] /\ Go(p, "copy")
              ELSE Go(p, "count") /\ UNCHANGED <<arr, cp>>
           /\ UNCHANGED <<lock, next, hdr, n, my, at, done>>
Copy(p) == /\ pc[p] = "copy"
           /\ IF cp[p] <= Len(arr[hdr])
              THEN arr' = [arr EXCEPT ![Len(arr)][cp[p]] = arr[hdr][cp[p]]] /\ cp' = [cp EXCEPT ![p] = @ + 1] /\ UNCHANGED <<hdr, pc>>
              ELSE hdr' = Len(arr) /\ cp' = [cp EXCEPT ![p] = 0] /\ Go(p, "count") /\ UNCHANGED arr
           /\ UNCHANGED <<lock, next, n, my, at, done>>
Count(p) == /\ pc[p] = "count" /\ next' = my[p] + 1
            /\ IF FillLocked THEN Go(p, "where") /\ UNCHANGED lock ELSE Go(p, "where") /\ lock' = NoOne
            /\ UNCHANGED <<hdr, arr, n, my, at, done, cp>>
Where(p) == pc[p] = "where" /\ at' = [at EXCEPT ![p] = hdr] /\ Go(p, "fill") /\ UNCHANGED <<lock, next, hdr, arr, n, my, done, cp>>
Fill(p) == /\ pc[p] = "fill"
           /\ arr' = [arr EXCEPT ![at[p]][my[p] + 1] = [id |-> my[p], parent |-> Want(p, n[p]).parent, letter |-> Want(p, n[p]).letter]]
           /\ Go(p, "ret") /\ UNCHANGED <<lock, next, hdr, n, my, at, done, cp>>
Ret(p) == /\ pc[p] = "ret" /\ done' = done \cup {<<p, n[p], my[p]>>}
          /\ lock' = (IF lock = p THEN NoOne ELSE lock) /\ Go(p, "idle") /\ UNCHANGED <<next, hdr, arr, n, my, at, cp>>
Next == \E p \in Procs : Start(p) \/ Lock(p) \/ Take(p) \/ Room(p) \/ Copy(p) \/ Count(p) \/ Where(p) \/ Fill(p) \/ Ret(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Start(p) \/ Take(p) \/ Room(p) \/ Copy(p) \/ Count(p) \/ Where(p) \/ Fill(p) \/ Ret(p)) /\ SF_vars(Lock(p))

Distinct == \A a, b \in done : a[3] = b[3] => a = b
Quiet == \A p \in Procs : pc[p] = "idle"
Consecutive == Quiet => {d[3] : d \in done} = 1..Cardinality(done) /\ next = Cardinality(done) + 1
Stored == Quiet => \A d \in done : arr[hdr][d[3] + 1] = [id |-> d[3], parent |-> Want(d[1], d[2]).parent, letter |-> Want(d[1], d[2]).letter]
Finish == <>(Quiet /\ \A p \in Procs : n[p] = PerProc)
=============================================================================
