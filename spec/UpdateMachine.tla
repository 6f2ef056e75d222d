---------------------------- MODULE UpdateMachine ----------------------------
(***************************************************************************)
(* Updates step by step, with a publisher at work, a server that may not   *)
(* answer, and faults and kills at every step.  Each file is written aside *)
(* and then put in place.  InPlace, NoResume and PubDuring are variants    *)
(* that must be found wrong: writing in place, not completing what an      *)
(* interrupted update left, and publishing while a download is under way.  *)
(***************************************************************************)
EXTENDS Update, FiniteSets
CONSTANTS MaxV, MaxT, Bad, InPlace, NoResume, PubDuring
\* Bad[v]: "no" a good version, "u" does not unpack, "c" does not compile
Kinds == [v \in 1..MaxV |-> [u |-> Bad[v] # "u", c |-> Bad[v] = "no"]]
VARIABLES now, pub, fs, pc, force, plan, start, gv, done
vars == <<now, pub, fs, pc, force, plan, start, gv, done>>

NoFiles == [f \in FileNames |-> Absent]
Init == /\ now = 1 /\ pub = [v |-> 1, t |-> 1] /\ fs = NoFiles /\ pc = "idle" /\ force = FALSE
        /\ plan = "nothing" /\ start = NoFiles /\ gv = [v |-> 1, t |-> 1] /\ done = TRUE
Srv(up) == [head |-> IF up THEN 200 ELSE -1, get |-> IF up THEN 200 ELSE -1, lm |-> pub.t, v |-> pub.v, whole |-> TRUE]

Publish == /\ pub.v < MaxV /\ now < MaxT /\ (pc # "getting" \/ PubDuring)
           /\ now' = now + 1 /\ pub' = [v |-> pub.v + 1, t |-> now']
           /\ UNCHANGED <<fs, pc, force, plan, start, gv, done>>
Begin(f) == /\ pc = "idle" /\ now < MaxT /\ pc' = "ask" /\ force' = f /\ start' = fs /\ done' = FALSE /\ plan' = "nothing"
            /\ UNCHANGED <<now, pub, fs, gv>>
PlanOf(up) == LET p == Plan(fs, Srv(up), force) IN
              IF NoResume /\ up /\ There(fs.src) /\ p \in {"unpack", "compile"} THEN (IF force THEN "compile" ELSE "nothing") ELSE p
Ask(up) == /\ pc = "ask" /\ plan' = PlanOf(up)
           /\ pc' = IF plan' \in {"fail", "nothing"} THEN "idle" ELSE plan'
           /\ done' = (plan' = "nothing") /\ UNCHANGED <<now, pub, fs, force, start, gv>>
Write(f, v) == IF InPlace THEN [fs EXCEPT ![f] = [v |-> 0, t |-> now']] ELSE fs
Get == /\ pc = "get" /\ now' = now + 1 /\ gv' = pub /\ pc' = "getting" /\ fs' = Write("src", pub.v)
       /\ UNCHANGED <<pub, force, plan, start, done>>
Put(f, v, next) == /\ now' = now + 1 /\ fs' = [fs EXCEPT ![f] = [v |-> v, t |-> now']] /\ pc' = next
                   /\ done' = (next = "idle") /\ UNCHANGED <<pub, force, plan, start, gv>>
Got == pc = "getting" /\ Put("src", gv.v, "unpack")
Unpack == /\ pc = "unpack" /\ Kinds[fs.src.v].u /\ now' = now + 1 /\ pc' = "unpacking" /\ fs' = Write("xml", 0)
          /\ UNCHANGED <<pub, force, plan, start, gv, done>>
Unpacked == pc = "unpacking" /\ Put("xml", fs.src.v, "compile")
Compile == /\ pc = "compile" /\ There(fs.xml) /\ fs.xml.v >= 1 /\ Kinds[fs.xml.v].c /\ now' = now + 1 /\ pc' = "compiling" /\ fs' = Write("dat", 0)
           /\ UNCHANGED <<pub, force, plan, start, gv, done>>
Compiled == pc = "compiling" /\ Put("dat", fs.xml.v, "idle")
\* a fault, a kill, a bad version
Stop == pc # "idle" /\ pc' = "idle" /\ done' = FALSE /\ UNCHANGED <<now, pub, fs, force, plan, start, gv>>
Next == Publish \/ (\E f \in BOOLEAN : Begin(f)) \/ (\E up \in BOOLEAN : Ask(up))
        \/ Get \/ Got \/ Unpack \/ Unpacked \/ Compile \/ Compiled \/ Stop
Spec == Init /\ [][Next]_vars

Whole == \A f \in FileNames : fs[f].v # 0
\* what is there after an update, however it ended, is what the operators say
Outcome == pc = "idle" =>
    LET srv == [Srv(TRUE) EXCEPT !.v = gv.v, !.lm = gv.t]
        r == Ups(Kinds, start, srv, plan)
    IN  /\ \E n \in 0..Len(r.ups) : \A f \in FileNames : fs[f].v = Content(start, r.ups, n, f)
        /\ done => r.ok /\ \A f \in FileNames : fs[f].v = Content(start, r.ups, Len(r.ups), f)
\* once nothing stands in the way, one more update gives the newest dictionary
Converges == pc = "idle" /\ Bad[pub.v] = "no" =>
    LET p == LET q == Plan(fs, Srv(TRUE), FALSE) IN
             IF NoResume /\ There(fs.src) /\ q \in {"unpack", "compile"} THEN "nothing" ELSE q
        r == Ups(Kinds, fs, Srv(TRUE), p)
    IN  Content(fs, r.ups, Len(r.ups), "dat") = pub.v
\* then there is nothing left to do
Settles == pc = "idle" /\ done /\ fs.src.v = pub.v => Plan(fs, Srv(TRUE), FALSE) = "nothing"
Kept == [][There(fs.dat) => There(fs'.dat)]_vars
AllGood == [v \in 1..MaxV |-> "no"]
SomeBad == [v \in 1..MaxV |-> IF v = 2 THEN "u" ELSE IF v = 3 THEN "c" ELSE "no"]
=============================================================================
