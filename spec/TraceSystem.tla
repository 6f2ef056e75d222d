----------------------------- MODULE TraceSystem -----------------------------
(***************************************************************************)
(* Checks recorded histories of the real updater and the real console:     *)
(* what is answered comes from the document that was published.            *)
(* dat: version of the dictionary file (-2: none, 0: nothing known);       *)
(* con: version the console has loaded (-2: it is not running).            *)
(***************************************************************************)
EXTENDS System, Update, Json, IOUtils
Cm == INSTANCE Compile
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, docs, fs, srv, dat, con
vars == <<l, docs, fs, srv, dat, con>>

F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def
If(ok, text) == IF ok THEN {} ELSE {text}
NoFiles == [f \in FileNames |-> Absent]
Lim == [name |-> 4, tags |-> 255, size |-> 255, sets |-> 65535, vars |-> 255]
DocOf(v) == LET c == IF v.u THEN Cm!Compiled(v.toks, Lim) ELSE [ok |-> FALSE, d |-> EmptyDict]
            IN  [u |-> v.u, c |-> c.ok, d |-> Stored(c.d)]
SrvOf(ev) == [head |-> F(ev, "head", 200), get |-> F(ev, "get", 200), lm |-> F(ev, "lm", -1), v |-> F(ev, "v", 1),
              whole |-> F(ev, "cut", -1) < 0 \/ (ev.cut = 1000 /\ ~F(ev, "chunked", FALSE))]
\* the version of the dictionary file is not taken from what was seen: the console will tell
Obs(ev) == [f \in FileNames |-> [v |-> IF f = "dat" /\ ev.after[f][1] # -2 THEN 1 ELSE ev.after[f][1], t |-> ev.after[f][2]]]
Disturbed(ev) == F(ev, "fired", FALSE)
Outcome(ev) == Ups(docs, fs, srv, Plan(fs, srv, ev.force))
Replaced1(ev) == Obs(ev).dat # fs.dat
DatUps(r) == {r.ups[i].v : i \in {i \in DOMAIN r.ups : r.ups[i].f = "dat"}}
UpdateChecks(ev) ==
    LET r == Outcome(ev) IN
    If(ev.res = "ok" => r.ok, "update reported as complete")
    \cup If(r.ok => ev.res = "ok" \/ Disturbed(ev), "update fails")
    \cup If(ev.res = "ok" /\ r.ok => (Replaced1(ev) <=> DatUps(r) # {}), "dictionary after a complete update")
    \cup If(Replaced1(ev) => DatUps(r) # {} /\ There(Obs(ev).dat), "dictionary replaced or removed")
DatAfter(ev) == IF ~Replaced1(ev) THEN dat
                ELSE IF ~There(Obs(ev).dat) THEN -2
                ELSE IF DatUps(Outcome(ev)) = {} THEN 0 ELSE CHOOSE v \in DatUps(Outcome(ev)) : TRUE

\* what was seen
SetsSeen(s) == {BagOf(s[i]) : i \in DOMAIN s}
Once(s) == Len(s) = Cardinality(SetsSeen(s))
Matches(a, o) ==
    CASE a.k = "any" -> TRUE
      [] a.k # o.k -> FALSE
      [] a.k = "node" -> a.w = o.w /\ a.sets = SetsSeen(o.sets) /\ Once(o.sets)
                         /\ a.kids = {o.kids[i][1] : i \in DOMAIN o.kids} /\ Cardinality(a.kids) = Len(o.kids)
      [] a.k = "found" -> a.sets = SetsSeen(o.sets) /\ Once(o.sets)
      [] OTHER -> a = o
IsReload(ev) == CommandOf(Split(ev.line)) = "reload"
LineChecks(ev) ==
    IF IsReload(ev) /\ dat < 1 THEN If(dat = 0 \/ ev.obs.k = "err", "reloaded without a dictionary")
    ELSE IF ev.res # "ok" THEN {"the console ends"}
    ELSE IF IsReload(ev) THEN If(ev.obs.k = "reload", "reload")
    ELSE LET a == DAnswer(docs[con].d, ev.line) IN If(Matches(a, ev.obs), "answer to " \o CommandOf(Split(ev.line)) \o ", not as the document says")
Checks(ev) ==
    CASE ev.op = "update" -> UpdateChecks(ev)
      [] ev.op = "start" ->
            IF dat = 0 THEN {}
            ELSE IF dat = -2 THEN If(ev.res = "exit", "started without a dictionary")
            ELSE If(ev.res = "ok", "start fails")
                 \cup If(ev.res = "ok" => ev.nc = NodesCount(docs[dat].d) /\ ev.wc = WordsCount(docs[dat].d), "counts at start")
      [] ev.op = "line" -> IF con >= 1 \/ (con = 0 /\ IsReload(ev)) THEN LineChecks(ev) ELSE {}
      [] ev.op = "eof" -> If(con = -2 \/ ev.res = "ended", "end of input: goes on")
      [] OTHER -> {}

Effect(ev) ==
    CASE ev.op = "reset" -> docs' = [i \in DOMAIN ev.vers |-> DocOf(ev.vers[i])] /\ fs' = NoFiles
                            /\ srv' = [head |-> -1, get |-> -1, lm |-> -1, v |-> 1, whole |-> FALSE] /\ dat' = -2 /\ con' = -2
      [] ev.op = "server" -> srv' = SrvOf(ev) /\ UNCHANGED <<docs, fs, dat, con>>
      [] ev.op = "remove" -> fs' = [fs EXCEPT ![ev.f] = Absent] /\ dat' = (IF ev.f = "dat" THEN -2 ELSE dat) /\ UNCHANGED <<docs, srv, con>>
      [] ev.op = "update" -> fs' = Obs(ev) /\ dat' = DatAfter(ev) /\ UNCHANGED <<docs, srv, con>>
      [] ev.op = "start" -> con' = (IF ev.res = "ok" /\ dat # -2 THEN dat ELSE -2) /\ UNCHANGED <<docs, fs, srv, dat>>
      [] ev.op = "line" -> con' = (IF ~ev.up THEN -2 ELSE IF ev.res # "ok" THEN dat
                                   ELSE IF IsReload(ev) THEN IF ev.obs.k = "reload" THEN dat ELSE 0
                                   ELSE con) /\ UNCHANGED <<docs, fs, srv, dat>>
      [] ev.op = "eof" -> con' = -2 /\ UNCHANGED <<docs, fs, srv, dat>>
      [] OTHER -> UNCHANGED <<docs, fs, srv, dat, con>>

TraceInit == l = 1 /\ docs = <<>> /\ fs = NoFiles /\ srv = [head |-> -1] /\ dat = -2 /\ con = -2
Lost(ev) == ev.op \notin {"reset", "void"} /\ F(ev, "res", "none") \in {"panic", "died", "hang"}
Say(t, ev) == PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> {"C26"}, text |-> t]))
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "void" THEN UNCHANGED <<docs, fs, srv, dat, con>>
       ELSE IF Lost(ev) THEN /\ Say("brings the program down", ev)
                             /\ IF ev.op = "update" /\ "after" \in DOMAIN ev THEN Effect(ev) ELSE con' = 0 /\ UNCHANGED <<docs, fs, srv, dat>>
       ELSE /\ \A b \in IF ev.op = "reset" THEN {} ELSE Checks(ev) : Say(b, ev)
            /\ Effect(ev)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
