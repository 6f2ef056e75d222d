------------------------------- MODULE Update -------------------------------
(***************************************************************************)
(* Keeping a dictionary up to date: three files, each made from the one    *)
(* before: "src" (downloaded), "xml" (unpacked), "dat" (compiled).         *)
(* A file is [v |-> version of its content, t |-> time it was made].       *)
(* v = -2: there is none; -1: a directory is in its place; -3: it cannot   *)
(* be told (a link that leads to itself, say); 0: content of no version.   *)
(* Kinds says of each version whether it unpacks and compiles.*)
(* What the server says:                                                   *)
(*   head, get: 200 or something that is no success;                       *)
(*   lm: time of the version it has, -1: not told, -2: unreadable;         *)
(*   v: that version; whole: its body arrives completely.                  *)
(* These operators say what an update does; UpdateMachine.tla does it step *)
(* by step and is checked against them, TraceUpdate.tla checks the code.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Absent == [v |-> -2, t |-> 0]
There(f) == f.v \notin {-2, -3}
Untold(f) == f.v = -3
FileNames == {"src", "xml", "dat"}

\* made before what it is made from was changed
Outdated(target, source) == There(source) /\ (~There(target) \/ target.t < source.t)
Newer(srv, src) == srv.lm = -2 \/ (srv.lm >= 0 /\ srv.lm > src.t)

Plan(fs, srv, force) ==
    IF Untold(fs.src) THEN IF force /\ There(fs.xml) THEN "compile" ELSE "fail"
    ELSE IF ~There(fs.src) THEN "get"
    ELSE IF srv.head # 200
         THEN IF ~force THEN "fail" ELSE IF There(fs.xml) /\ ~Outdated(fs.xml, fs.src) THEN "compile" ELSE "unpack"
    ELSE IF Newer(srv, fs.src) THEN "get"
    ELSE IF Outdated(fs.xml, fs.src) THEN "unpack"
    ELSE IF Outdated(fs.dat, fs.xml) \/ force THEN "compile"
    ELSE "nothing"

\* files replaced, one after another; ok: nothing went wrong
Up(f, v) == [f |-> f, v |-> v]
CompileUps(Kinds, fs, v) ==
    IF v >= 1 /\ Kinds[v].c /\ fs.dat.v # -1 THEN [ups |-> <<Up("dat", v)>>, ok |-> TRUE] ELSE [ups |-> <<>>, ok |-> FALSE]
Before(u, r) == [r EXCEPT !.ups = <<u>> \o @]
UnpackUps(Kinds, fs, v, on) ==
    IF v >= 1 /\ Kinds[v].u /\ fs.xml.v # -1
    THEN Before(Up("xml", v), IF on THEN CompileUps(Kinds, fs, v) ELSE [ups |-> <<>>, ok |-> TRUE])
    ELSE [ups |-> <<>>, ok |-> FALSE]
GetUps(Kinds, fs, srv, on) ==
    IF srv.get = 200 /\ srv.whole /\ fs.src.v # -1
    THEN Before(Up("src", srv.v), IF on THEN UnpackUps(Kinds, fs, srv.v, TRUE) ELSE [ups |-> <<>>, ok |-> TRUE])
    ELSE [ups |-> <<>>, ok |-> FALSE]
Ups(Kinds, fs, srv, plan) ==
    CASE plan = "get" -> GetUps(Kinds, fs, srv, TRUE)
      [] plan = "unpack" -> UnpackUps(Kinds, fs, fs.src.v, TRUE)
      [] plan = "compile" -> CompileUps(Kinds, fs, fs.xml.v)
      [] plan = "nothing" -> [ups |-> <<>>, ok |-> TRUE]
      [] OTHER -> [ups |-> <<>>, ok |-> FALSE]

\* the files after the first n replacements, made after `now`
Content(fs, ups, n, f) == LET is == {i \in 1..n : ups[i].f = f}
                          IN  IF is = {} THEN fs[f].v ELSE ups[CHOOSE i \in is : TRUE].v
Replaced(ups, n, f) == \E i \in 1..n : ups[i].f = f
IsAfter(fs, ups, n, after, now) ==
    \A f \in FileNames : /\ after[f].v = Content(fs, ups, n, f)
                         /\ IF Replaced(ups, n, f) THEN after[f].t > now ELSE after[f] = fs[f]
\* an undisturbed update
Finished(Kinds, fs, srv, force) ==
    LET r == Ups(Kinds, fs, srv, Plan(fs, srv, force)) IN [f \in FileNames |-> Content(fs, r.ups, Len(r.ups), f)]
=============================================================================
