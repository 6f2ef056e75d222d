------------------------------- MODULE MCSystem -------------------------------
(***************************************************************************)
(* Documents published one after another (one of them bad), updates that   *)
(* work or break off anywhere, a console started and told to reload.       *)
(* Deaf: a reload keeps the dictionary there was.  Live: a console that    *)
(* reads the file for each line.  Both are variants to be found wrong.     *)
(***************************************************************************)
EXTENDS System, Update
CONSTANTS Deaf, Live
M == INSTANCE ConsoleMachine WITH Deep <- FALSE, mode <- 0, img <- 0, disk <- 0, ans <- 0

N == <<78, 79, 85, 78>>  V == <<86, 69, 82, 66>>
T(n) == [n |-> n, p |-> EmptyName]
B(n) == BagOf(<<T(n)>>)
Doc1 == DoAttach(DoAdd(DoTag(EmptyDict, N, EmptyName), <<97, 98>>), <<97, 98>>, <<N>>)
Doc3 == DoAttach(DoAdd(DoTag(DoTag(EmptyDict, V, EmptyName), N, V), <<97, 99>>), <<97, 99>>, <<N, V>>)
Docs == <<Doc1, EmptyDict, Doc3>>
Ks == <<[u |-> TRUE, c |-> TRUE], [u |-> TRUE, c |-> FALSE], [u |-> TRUE, c |-> TRUE]>>
Asked == {<<97, 98>>, <<97, 99>>, <<97>>, Tag \o <<32>> \o Count, Tag \o <<32, 48>>, NodeW \o <<32, 97>>}
MaxT == 9

VARIABLES now, pub, fs, con, good, seen, last
vars == <<now, pub, fs, con, good, seen, last>>
Init == now = 1 /\ pub = [v |-> 1, t |-> 1] /\ fs = [f \in FileNames |-> Absent] /\ con = -2 /\ good = 0 /\ seen = [l |-> <<>>, a |-> [k |-> "any"]] /\ last = "start"
Publish == /\ pub.v < 3 /\ now < MaxT /\ now' = now + 1 /\ pub' = [v |-> pub.v + 1, t |-> now'] /\ last' = "publish"
           /\ UNCHANGED <<fs, con, good, seen>>
Srv == [head |-> 200, get |-> 200, lm |-> pub.t, v |-> pub.v, whole |-> TRUE]
Update(force) == LET r == Ups(Ks, fs, Srv, Plan(fs, Srv, force)) IN
    /\ now < MaxT
    /\ \E n \in 0..Len(r.ups) :
         /\ fs' = [f \in FileNames |-> IF Replaced(r.ups, n, f) THEN [v |-> Content(fs, r.ups, n, f), t |-> now + 1] ELSE fs[f]]
         /\ good' = IF n = Len(r.ups) /\ r.ok THEN pub.v ELSE good
    /\ now' = now + 1 /\ last' = "update" /\ UNCHANGED <<pub, con, seen>>
Begin == con = -2 /\ There(fs.dat) /\ con' = fs.dat.v /\ last' = "load" /\ UNCHANGED <<now, pub, fs, good, seen>>
Again == con # -2 /\ con' = (IF Deaf THEN con ELSE fs.dat.v) /\ last' = "load" /\ UNCHANGED <<now, pub, fs, good, seen>>
Ask(x) == /\ con # -2 /\ seen' = [l |-> x, a |-> DAnswer(Docs[IF Live THEN fs.dat.v ELSE con], x)] /\ last' = "ask"
          /\ UNCHANGED <<now, pub, fs, con, good>>
Next == Publish \/ (\E f \in BOOLEAN : Update(f)) \/ Begin \/ Again \/ \E x \in Asked : Ask(x)
Spec == Init /\ [][Next]_vars

\* what is loaded is at least as new as the last update that was reported complete
Fresh == last = "load" => con >= good /\ con <= pub.v /\ Ks[con].c
\* answers are those of the dictionary loaded
True1 == last = "ask" => seen.a = DAnswer(Docs[con], seen.l)
\* DAnswer agrees with Console.tla
ASSUME \A img \in M!Images : \A x \in M!Lines :
    LET d == AbsImage(img)  a == DAnswer(d, x) IN
    a.k = "any" \/ (Surplus(x) /\ a = Err) \/ a = Plain(Answer(img, x))
=============================================================================
