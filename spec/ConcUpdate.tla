----------------------------- MODULE ConcUpdate -----------------------------
(***************************************************************************)
(* Updates working at the same time on the same files, each step of one    *)
(* between any two of another.  Files are inodes behind names: what is     *)
(* being written to goes on being written wherever its name leads          *)
(* meanwhile.  Each update writes aside and then renames.  Naming says     *)
(* under which name: "own" a new one each time, "shared" the same for all  *)
(* (must be found wrong), "place" none, in place (must be found wrong).    *)
(* Processes may be killed at any step.  MaxPub > 1 lets new versions      *)
(* appear at any time.                                                     *)
(***************************************************************************)
EXTENDS Update, FiniteSets
CONSTANTS Procs, Start, MaxPub, Naming, Kills, MaxT

VARIABLES now,    \* ticks with every write
          pub,    \* published version
          dir,    \* name -> inode, 0 when there is none
          ino,    \* inode -> [v, t, whole]
          st      \* process -> where it is
vars == <<now, pub, dir, ino, st>>

\* versions present at the beginning; version 1 is old, 2 and later are published now
Begins == [empty    |-> [src |-> 0, xml |-> 0, dat |-> 0],
           outdated |-> [src |-> 1, xml |-> 1, dat |-> 1],
           halfway  |-> [src |-> 2, xml |-> 1, dat |-> 1],
           unpacked |-> [src |-> 2, xml |-> 2, dat |-> 1],
           fresh    |-> [src |-> 2, xml |-> 2, dat |-> 2]]
FreeName(f, p) == IF Naming = "own" THEN <<f, p>> ELSE IF Naming = "shared" THEN <<f, "tmp">> ELSE <<f>>
Names == {<<f>> : f \in FileNames} \cup {FreeName(f, p) : f \in FileNames, p \in Procs}
Pos == [src |-> 1, xml |-> 2, dat |-> 3]
T0(f, v) == v * 4 + Pos[f]       \* version 1 at 5..7, published 2 at 8, fetched from 9 on
PubT(v) == IF v = 2 THEN 8 ELSE 100 + v
Idle == [pc |-> "begin", force |-> FALSE, req |-> FALSE, ox |-> FALSE, od |-> FALSE, v |-> 0, in |-> 0, res |-> "none"]
Init == /\ now = 20 /\ pub = 2
        /\ LET b == Begins[Start] IN
           /\ dir = [n \in Names |-> IF Len(n) = 1 /\ b[n[1]] # 0 THEN Pos[n[1]] ELSE 0]
           /\ ino = [i \in 1..3 |-> LET f == CHOOSE g \in FileNames : Pos[g] = i IN [v |-> b[f], t |-> T0(f, b[f]), whole |-> TRUE]]
        /\ st \in [Procs -> {[Idle EXCEPT !.force = x] : x \in BOOLEAN}]

At(f) == IF dir[<<f>>] = 0 THEN Absent ELSE LET i == ino[dir[<<f>>]] IN [v |-> IF i.whole THEN i.v ELSE 0, t |-> i.t]
Files == [f \in FileNames |-> At(f)]
Required == ~There(At("src")) \/ PubT(pub) > At("src").t
Go(p, r) == st' = [st EXCEPT ![p] = r]
End(p, res) == Go(p, [st[p] EXCEPT !.pc = "end", !.res = res])
Keep == UNCHANGED <<now, pub, dir, ino>>

\* what an update finds out, one thing after another
Ask(p) == st[p].pc = "begin" /\ Go(p, [st[p] EXCEPT !.pc = "xml?", !.req = Required]) /\ Keep
AskXml(p) == st[p].pc = "xml?" /\ Go(p, [st[p] EXCEPT !.pc = "dat?", !.ox = Outdated(At("xml"), At("src"))]) /\ Keep
AskDat(p) == st[p].pc = "dat?" /\ Go(p, [st[p] EXCEPT !.pc = "plan", !.od = Outdated(At("dat"), At("xml"))]) /\ Keep
Decide(p) == /\ st[p].pc = "plan" /\ Keep
             /\ LET s == st[p] IN
                IF s.req THEN Go(p, [s EXCEPT !.pc = "again"])
                ELSE IF s.ox THEN Go(p, [s EXCEPT !.pc = "open xml"])
                ELSE IF s.od \/ s.force THEN Go(p, [s EXCEPT !.pc = "open dat"])
                ELSE End(p, "ok")
Again(p) == /\ st[p].pc = "again" /\ Keep
            /\ IF Required THEN Go(p, [st[p] EXCEPT !.pc = "get"]) ELSE End(p, "ok")   \* somebody else has it by now
Get(p) == st[p].pc = "get" /\ Go(p, [st[p] EXCEPT !.pc = "make src", !.v = pub]) /\ Keep
\* what it is made from, opened: a name given to another file later does not matter
Open(p, source, f) == /\ st[p].pc = "open " \o f /\ Keep
                      /\ IF There(At(source)) THEN Go(p, [st[p] EXCEPT !.pc = "make " \o f, !.in = dir[<<source>>]])
                         ELSE End(p, "err")
Make(p, f) == /\ st[p].pc = "make " \o f /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED pub
              /\ LET n == FreeName(f, p)
                     fresh == [v |-> 0, t |-> now', whole |-> FALSE]
                 IN IF dir[n] = 0 \/ Naming = "own"
                    THEN /\ ino' = Append(ino, fresh) /\ dir' = [dir EXCEPT ![n] = Len(ino) + 1]
                         /\ Go(p, [st[p] EXCEPT !.pc = "fill " \o f, !.res = Len(ino) + 1])
                    ELSE /\ ino' = [ino EXCEPT ![dir[n]] = fresh] /\ UNCHANGED dir
                         /\ Go(p, [st[p] EXCEPT !.pc = "fill " \o f, !.res = dir[n]])
\* the last of the writes; read what it is made from before that
Fill(p, f) == /\ st[p].pc = "fill " \o f /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<pub, dir>>
              /\ LET v == IF f = "src" THEN st[p].v ELSE IF ino[st[p].in].whole THEN ino[st[p].in].v ELSE 0
                 IN IF v = 0 THEN End(p, "err") /\ UNCHANGED ino
                    ELSE /\ ino' = [ino EXCEPT ![st[p].res] = [v |-> v, t |-> now', whole |-> TRUE]]
                         /\ Go(p, [st[p] EXCEPT !.pc = "name " \o f, !.res = "none"])
Next1(f) == IF f = "src" THEN "open xml" ELSE IF f = "xml" THEN "open dat" ELSE "end"
Name(p, f) == /\ st[p].pc = "name " \o f /\ UNCHANGED <<now, pub, ino>>
              /\ LET n == FreeName(f, p) IN
                 IF dir[n] = 0 THEN End(p, "err") /\ UNCHANGED dir
                 ELSE /\ dir' = IF n = <<f>> THEN dir ELSE [dir EXCEPT ![<<f>>] = dir[n], ![n] = 0]
                      /\ Go(p, [st[p] EXCEPT !.pc = Next1(f), !.res = IF f = "dat" THEN "ok" ELSE "none"])
Kill(p) == Kills /\ st[p].pc \notin {"begin", "end"} /\ End(p, "killed") /\ Keep
Publish == pub < MaxPub /\ pub' = pub + 1 /\ UNCHANGED <<now, dir, ino, st>>
Next == Publish \/ \E p \in Procs :
          \/ Ask(p) \/ AskXml(p) \/ AskDat(p) \/ Decide(p) \/ Again(p) \/ Get(p) \/ Kill(p)
          \/ Open(p, "src", "xml") \/ Open(p, "xml", "dat")
          \/ \E f \in FileNames : Make(p, f) \/ Fill(p, f) \/ Name(p, f)
Spec == Init /\ [][Next]_vars

\* whoever looks, whenever: no name leads to part of a file
Whole == \A f \in FileNames : At(f).v # 0
\* nothing there disappears
Kept == [][\A f \in FileNames : There(Files[f]) => There(Files'[f])]_vars
AllEnd == \A p \in Procs : st[p].pc = "end"
\* nobody in the way, they do together what one of them would have done
Force == \E p \in Procs : st[p].force
NoneKilled == \A p \in Procs : st[p].res # "killed"
Together == AllEnd /\ MaxPub = 2 /\ NoneKilled =>
    /\ \A p \in Procs : st[p].res = "ok"
    /\ \A f \in FileNames : At(f).v = 2
\* and if some were, one more update completes what is missing
Good == [v \in 1..MaxPub |-> [u |-> TRUE, c |-> TRUE]]
Completes == AllEnd /\ MaxPub = 2 =>
    LET srv == [head |-> 200, get |-> 200, lm |-> PubT(pub), v |-> pub, whole |-> TRUE]
    IN  \A f \in FileNames : Finished(Good, Files, srv, FALSE)[f] = 2
Forward == [][MaxPub = 2 => \A f \in FileNames : Files'[f].v >= Files[f].v]_vars
=============================================================================
