----------------------------- MODULE TraceConsole -----------------------------
(***************************************************************************)
(* Checks recorded conversations with the real console against Console.tla.*)
(* disk: what the dictionary file holds; img: what the console has loaded. *)
(***************************************************************************)
EXTENDS Console, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disk, img, up
vars == <<l, disk, img, up>>
If(ok, text) == IF ok THEN {} ELSE {text}
F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def

\* what was seen, in the terms of Console.tla
NormName1(n) == IF n = <<>> THEN EmptyName ELSE n
NormNames(l1) == BagOf(l1)
Seen(o) ==
    CASE o.k = "tag" -> [k |-> "tag", id |-> o.id, n |-> o.n, p |-> o.p]
      [] o.k = "set" -> [k |-> "set", id |-> o.id, names |-> NormNames(o.names)]
      [] o.k = "table" -> [k |-> "table", id |-> o.id, l |-> [i \in DOMAIN o.l |-> BagOf(o.l[i])]]
      [] o.k = "var" -> [k |-> "var", id |-> o.id, l |-> {<<o.l[i].id, NormNames(o.l[i].names)>> : i \in DOMAIN o.l}]
      [] o.k = "node" -> [k |-> "node", id |-> o.id, w |-> o.w, p |-> o.p, v |-> o.v,
                          sets |-> {NormNames(o.sets[i]) : i \in DOMAIN o.sets}, kids |-> Rng(o.kids)]
      [] o.k = "found" -> [k |-> "found", sets |-> {NormNames(o.sets[i]) : i \in DOMAIN o.sets}]
      [] OTHER -> o
\* each of these is listed once
Once(o) == CASE o.k \in {"node", "found"} -> Len(o.sets) = Cardinality(Seen(o).sets) /\ (o.k = "node" => Len(o.kids) = Cardinality(Rng(o.kids)))
             [] o.k = "var" -> Len(o.l) = Cardinality({o.l[i].id : i \in DOMAIN o.l})
             [] OTHER -> TRUE
Good == disk.ok /\ WellFormed(disk)
LineChecks(ev) ==
    LET a == Answer(img, ev.line)
        shape == Shape(img, ev.line)
        refused == ev.obs.k = "err"
    IN  IF ev.res \in {"died", "hang"} THEN {shape \o ": brings the console down"}
        ELSE IF a.k = "exit" THEN If(ev.res = "ended" \/ (Surplus(ev.line) /\ refused), "exit: goes on")
        ELSE IF a.k = "reload"
        THEN IF Good THEN If(ev.res = "ok" /\ ev.obs.k = "reload", "reload: fails")
             ELSE If(ev.obs.k = "err", "reload: no error message")
        ELSE If(ev.res = "ok", shape \o ": ends the console")
             \cup (IF ev.res # "ok" THEN {}
                   ELSE IF a.k = "err" \/ (a.k = "var" /\ a.l = {})
                   THEN If(refused \/ (a.k = "var" /\ ev.obs.k = "var" /\ Seen(ev.obs) = a), shape \o ": not reported as wrong")
                   ELSE IF refused THEN If(Surplus(ev.line), shape \o ": refused")
                   ELSE IF ev.obs.k # a.k THEN {shape \o ": answers something else"}
                   ELSE If(Seen(ev.obs) = a /\ Once(ev.obs), shape \o ": wrong answer"))
Checks(ev) ==
    CASE ev.op = "start" -> IF Good THEN If(ev.res = "ok", "start: fails")
                                         \cup If(ev.res = "ok" => ev.nc = Cardinality(NodeIds(disk)) /\ ev.wc = WordsCount(AbsImage(disk)), "start: counts")
                            ELSE If(ev.res = "exit", "start: without a dictionary")
      [] ev.op = "line" -> IF up THEN LineChecks(ev) ELSE {}
      [] ev.op = "eof" -> IF up THEN If(ev.res = "ended", "end of input: goes on") ELSE {}
      [] OTHER -> {}

Effect(ev) ==
    CASE ev.op = "reset" -> disk' = NoImage /\ img' = NoImage /\ up' = FALSE
      [] ev.op = "file" -> disk' = (IF F(ev, "absent", FALSE) THEN NoImage ELSE Decode(ev.bytes)) /\ UNCHANGED <<img, up>>
      [] ev.op = "start" -> up' = (ev.res = "ok" /\ Good) /\ img' = (IF ev.res = "ok" /\ Good THEN disk ELSE NoImage) /\ UNCHANGED disk
      [] ev.op = "line" -> /\ UNCHANGED disk
                           /\ up' = (ev.up /\ (up \/ Good))
                           /\ img' = IF (up /\ ev.res = "ok" /\ CommandOf(Split(ev.line)) = "reload") \/ ev.res # "ok" \/ ~up
                                     THEN IF Good THEN disk ELSE NoImage ELSE img
      [] ev.op = "eof" -> up' = FALSE /\ UNCHANGED <<disk, img>>
      [] OTHER -> UNCHANGED <<disk, img, up>>

TraceInit == l = 1 /\ disk = NoImage /\ img = NoImage /\ up = FALSE
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "void" THEN UNCHANGED <<disk, img, up>>
       ELSE IF ev.op # "reset" /\ F(ev, "res", "none") = "panic"
       THEN PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> {"C19"}, text |-> "the driver failed"])) /\ UNCHANGED <<disk, img, up>>
       ELSE /\ \A b \in Checks(ev) : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> {"C19"}, text |-> b]))
            /\ Effect(ev)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
