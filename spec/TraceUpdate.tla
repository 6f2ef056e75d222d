----------------------------- MODULE TraceUpdate -----------------------------
(***************************************************************************)
(* Checks recorded updates of the real program against Update.tla.         *)
(***************************************************************************)
EXTENDS Update, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, kinds, fs, srv,
          dlm,      \* modification date the downloaded version had at the server, -1 when unknown
          faulty,   \* something was disturbed in this history
          raced     \* updates worked at the same time in this history
vars == <<l, kinds, fs, srv, dlm, faulty, raced>>

F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def
If(ok, props, text) == IF ok THEN {} ELSE {<<props, text>>}
NoFiles == [f \in FileNames |-> Absent]
Down == [head |-> -1, get |-> -1, lm |-> -1, v |-> 1, whole |-> FALSE]
SrvOf(ev) == [head |-> F(ev, "head", 200), get |-> F(ev, "get", 200), lm |-> F(ev, "lm", -1), v |-> F(ev, "v", 1),
              whole |-> F(ev, "cut", -1) < 0 \/ (ev.cut = 1000 /\ ~F(ev, "chunked", FALSE))]
Obs(ev) == [f \in FileNames |-> [v |-> ev.after[f][1], t |-> ev.after[f][2]]]

Base0(ev) == IF faulty \/ F(F(ev, "fault", [kind |-> ""]), "kind", "") # "" \/ srv.get < 0 \/ ~srv.whole THEN {"C17"} ELSE {"C16"}
Base(ev) == Base0(ev) \cup (IF raced THEN {"C25"} ELSE {})
Untouched == [ups |-> <<>>, ok |-> FALSE]
\* A newer version was published after the present one was fetched but before it was stored: the times of
\* the files do not show it, the dates the server gave do.
Unseen == There(fs.src) /\ srv.head = 200 /\ dlm >= 0 /\ srv.lm > dlm /\ srv.lm <= fs.src.t
\* the first request for the date counts; a later one may still fail
Later(ev) == \E i \in DOMAIN F(srv, "heads", <<>>) : i > 1 /\ srv.heads[i] # 200

Content0(ev) == {f \in FileNames : Obs(ev)[f].v = 0 /\ fs[f] # Obs(ev)[f]}
Judge(ev, plan, r, also) ==
    LET base == Base(ev)
        fired == F(ev, "fired", FALSE)
        after == Obs(ev)
        n == Len(r.ups)
        all(m) == IsAfter(fs, r.ups, m, after, ev.now)
        gaveUp == also /\ ev.res = "err" /\ all(0) /\ ev.gets = 0
    IN  UNION {
          If(Content0(ev) = {}, {"C17"} \cup base, "file with content of no version"),
          IF fired
          THEN If(ev.res \in {"ok", "err", "killed"}, base, "outcome")
               \cup If(\E m \in 0..n : all(m), base, "files after a disturbed update")
               \cup If(ev.res = "ok" => r.ok /\ all(n), base, "disturbed update reported as complete")
          ELSE IF gaveUp THEN {}
          ELSE If(ev.res = (IF r.ok THEN "ok" ELSE "err"), base, "result of " \o plan)
               \cup If(all(n), base, "files after " \o plan),
          If(IF plan = "get" THEN fired \/ gaveUp \/ ev.gets > 0 ELSE ev.gets = 0, base, "download") }

\* Updates at the same time.  What is seen meanwhile: each file as it was, or of a version it may have become.
Then == F(srv, "then", [head |-> 0])
Good(v) == v < 1 \/ (kinds[v].u /\ kinds[v].c)
AllGood == (\A f \in FileNames : Good(fs[f].v) /\ fs[f].v # -1) /\ Good(srv.v) /\ srv.get = 200 /\ srv.whole /\ Then.head = 0
MayBe(f) == {fs[f].v, srv.v} \cup (IF f = "src" THEN {} ELSE {fs.src.v, fs.xml.v} \ {-1, -2})
            \cup (IF Then.head # 0 THEN {Then.v} ELSE {})
MayLoad == {v \in MayBe("dat") : v >= 1 /\ Good(v)}
Looked(s) ==
    (IF "src" \in DOMAIN s
     THEN If(\A f \in FileNames : s[f] \in MayBe(f), {"C25"}, "a file seen while updates were at work")
          \cup If(IF s.dat >= 1 THEN s.load = "ok" /\ s.v = s.dat ELSE s.load = "err", {"C25"}, "loading while updates were at work")
     ELSE {})
    \cup If(IF s.load = "ok" THEN s.v \in MayLoad ELSE fs.dat.v < 1, {"C25"}, "loading while updates were at work")
AnyForce(ev) == \E i \in DOMAIN ev.forces : ev.forces[i]
Kills(ev) == \E i \in DOMAIN F(ev, "turns", <<>>) : F(ev.turns[i], "kill", FALSE)
Race(ev) ==
    UNION {
      UNION {Looked(ev.seen[i]) : i \in DOMAIN ev.seen},
      If(\A f \in FileNames : Obs(ev)[f].v \in MayBe(f), {"C25"}, "files after updates at the same time"),
      If(\A i \in DOMAIN ev.outs : ev.outs[i] \in {"ok", "err"} \cup (IF Kills(ev) THEN {"killed"} ELSE {}), {"C25"}, "outcome"),
      IF AllGood /\ srv.head = 200
      THEN If(\A i \in DOMAIN ev.outs : ev.outs[i] # "err", {"C25"}, "an update failed because of another")
      ELSE {},
      IF AllGood /\ ~Kills(ev)
      THEN LET r == Ups(kinds, fs, srv, Plan(fs, srv, AnyForce(ev)))
           IN  If(\A f \in FileNames : Obs(ev)[f].v = Content(fs, r.ups, Len(r.ups), f), {"C25"}, "files when all have finished")
      ELSE {},
      IF AllGood /\ Plan(fs, srv, FALSE) = "get"
      THEN If(\A i, j \in DOMAIN ev.seen : i < j /\ "src" \in DOMAIN ev.seen[i] /\ "src" \in DOMAIN ev.seen[j] =>
                 \A f \in FileNames : ev.seen[i][f] = srv.v => ev.seen[j][f] = srv.v, {"C25"}, "an older file came back")
      ELSE {} }

Checks(ev) ==
    LET op == ev.op
        base == Base(ev)
    IN
    CASE op = "update" ->
            IF Unseen
            THEN If(ev.gets > 0 \/ F(ev, "fired", FALSE), {"C16"}, "version published during a download not noticed")
                 \cup LET plan == IF ev.gets > 0 THEN "get" ELSE Plan(fs, srv, ev.force)
                      IN  Judge(ev, plan, Ups(kinds, fs, srv, plan), FALSE)
            ELSE LET plan == Plan(fs, srv, ev.force) IN Judge(ev, plan, Ups(kinds, fs, srv, plan), plan = "get" /\ Later(ev))
      [] op = "required" ->
            IF Unseen THEN If(ev.val, {"C16"}, "version published during a download not noticed")
            ELSE IF Untold(fs.src) \/ (There(fs.src) /\ srv.head # 200) THEN If(ev.res = "err", base, "state of file or server not told")
            ELSE If(ev.res = "ok" /\ ev.val = (~There(fs.src) \/ Newer(srv, fs.src)), base, "update required")
                 \cup If(IsAfter(fs, <<>>, 0, Obs(ev), ev.now) /\ ev.gets = 0, base, "asking changed files")
      [] op = "download" ->
            LET need == ~Untold(fs.src) /\ (~There(fs.src) \/ (srv.head = 200 /\ Newer(srv, fs.src)))
                r == IF Untold(fs.src) \/ (There(fs.src) /\ srv.head # 200) THEN Untouched
                     ELSE IF ~need THEN [ups |-> <<>>, ok |-> TRUE] ELSE GetUps(kinds, fs, srv, FALSE)
            IN  IF Unseen THEN {}
                ELSE Judge(ev, IF need THEN "get" ELSE "no get", r, FALSE)
                     \cup If(ev.res = "ok" => ev.val = need, base, "reported as updated")
      [] op = "unpack" -> Judge(ev, "unpack only", UnpackUps(kinds, fs, fs.src.v, FALSE), FALSE)
      [] op = "exists" -> If(ev.src = There(fs.src) /\ ev.xml = There(fs.xml), base, "presence of files")
      [] op = "load" ->
            IF fs.dat.v >= 1 THEN If(ev.res = "ok" /\ ev.v = fs.dat.v, {"C17"} \cup base, "dictionary loaded")
            ELSE If(ev.res = "err", {"C17"} \cup base, "no dictionary, but loaded")
      [] op \in {"race", "together"} -> Race(ev)
      [] OTHER -> {}

Effect(ev) ==
    LET op == ev.op IN
    CASE op = "reset" -> /\ kinds' = ev.vers /\ fs' = NoFiles /\ srv' = Down /\ dlm' = -1 /\ faulty' = FALSE /\ raced' = FALSE
      [] op = "server" -> srv' = SrvOf(ev) @@ [then |-> F(ev, "then", [head |-> 0]), heads |-> F(ev, "heads", <<>>)]
                          /\ UNCHANGED <<kinds, fs, dlm, faulty, raced>>
      [] op = "put" -> /\ fs' = [fs EXCEPT ![ev.f] = [v |-> IF F(ev, "broken", FALSE) THEN 0 ELSE ev.v, t |-> IF ev.v = -3 THEN 0 ELSE ev.t]]
                       /\ dlm' = (IF ev.f = "src" THEN -1 ELSE dlm) /\ UNCHANGED <<kinds, srv, faulty, raced>>
      [] op \in {"remove", "dangle"} -> fs' = [fs EXCEPT ![ev.f] = Absent] /\ UNCHANGED <<kinds, srv, faulty, dlm, raced>>
      [] op \in {"race", "together"} ->
            /\ fs' = Obs(ev) /\ dlm' = -1 /\ raced' = TRUE /\ UNCHANGED <<kinds, faulty>>
            /\ srv' = IF ev.gets > 0 /\ srv.get = 200 /\ Then.head # 0 THEN SrvOf(Then) @@ [then |-> [head |-> 0], heads |-> <<>>] ELSE srv
      [] op \in {"update", "download", "unpack"} ->
            /\ fs' = Obs(ev) /\ UNCHANGED kinds
            /\ dlm' = IF Obs(ev).src # fs.src THEN srv.lm ELSE dlm
            /\ srv' = IF ev.gets > 0 /\ srv.get = 200 /\ F(srv, "then", [head |-> 0]).head # 0
                      THEN SrvOf(srv.then) @@ [then |-> [head |-> 0], heads |-> <<>>] ELSE srv
            /\ faulty' = (faulty \/ "C17" \in Base0(ev)) /\ UNCHANGED raced
      [] OTHER -> UNCHANGED <<kinds, fs, srv, dlm, faulty, raced>>

TraceInit == l = 1 /\ kinds = <<>> /\ fs = NoFiles /\ srv = Down /\ dlm = -1 /\ faulty = FALSE /\ raced = FALSE
\* an operation that did not come to an end tells nothing of the files
Lost(ev) == ev.op \notin {"reset", "void"} /\ F(ev, "res", "none") \in {"panic", "died", "hang"} /\ "after" \notin DOMAIN ev
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "void" THEN UNCHANGED <<kinds, fs, srv, dlm, faulty, raced>>
       ELSE IF Lost(ev) THEN PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> {"C16", "C17", "C25"}, text |-> "brings the program down"]))
                             /\ UNCHANGED <<kinds, fs, srv, dlm, faulty, raced>>
       ELSE /\ \A b \in IF ev.op = "reset" THEN {} ELSE Checks(ev) :
                  PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
            /\ Effect(ev)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
