------------------------------ MODULE TraceLong ------------------------------
(***************************************************************************)
(* Checks recorded executions on indexes of a few very long words. Words   *)
(* of one stem are beginnings of one endless word; those of different      *)
(* stems begin differently. So all an index holds is, of each stem, how    *)
(* far it goes and which of its beginnings are tagged; what it answers     *)
(* follows from Dict: a word is found if and only if it is a beginning of  *)
(* an added one, and there are as many nodes as beginnings.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stems == 0..3
Handles == {"A", "B"}
Files == {"f", "g"}
Empty == [len |-> [s \in Stems |-> 0], tagged |-> {}, ids |-> {}, loaded |-> FALSE, compacted |-> FALSE, dead |-> FALSE, none |-> FALSE]
None == [Empty EXCEPT !.none = TRUE]
VARIABLES l, idx, file
vars == <<l, idx, file>>

F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def
If(ok, props, text) == IF ok THEN {} ELSE {<<props, text>>}
Also(x) == (IF x.loaded THEN {"C03", "C18"} ELSE {}) \cup (IF x.compacted THEN {"C05"} ELSE {})
Most(a, b) == IF a > b THEN a ELSE b
Nodes(x) == LET sum[k \in 0..4] == IF k = 0 THEN 0 ELSE sum[k - 1] + x.len[k - 1] IN sum[4]
\* a word (stem, letters) and its identifier
Told(x, s, n, id) == \A t \in x.ids : (t[1] = <<s, n>>) = (t[2] = id)

Checks(ev) ==
    LET x == idx[ev.h]
        op == ev.op
        res == F(ev, "res", "none")
        also == Also(x)
    IN
    CASE op = "add" -> If(res = "ok" /\ ev.id >= 1, {"C01", "C02"} \cup also, "word refused")
                       \cup If(res = "ok" => Told(x, ev.s, ev.n, ev.id), {"C02"} \cup also, "identifiers")
      [] op = "tag" -> If((res = "ok") = (ev.n >= 1 /\ ev.n <= x.len[ev.s]), {"C01"} \cup also, "attaching a tag set")
      [] op = "probe" ->
            IF res # "ok" THEN {<<{"C01"} \cup also, "looking words up failed">>}
            ELSE UNION {LET p == ev.list[i]
                            there == p[1] >= 1 /\ p[1] <= x.len[ev.s]
                        IN  If(p[2] = there, {"C01"} \cup also, IF there THEN "word not found" ELSE "absent word found")
                            \cup If(p[2] /\ there => p[6] = p[3] /\ Told(x, ev.s, p[1], p[3]), {"C02"} \cup also, "identifiers")
                            \cup If(p[4], {"C02"} \cup also, "text of node")
                            \cup If(p[2] /\ there => p[5] = (IF <<ev.s, p[1]>> \in x.tagged THEN 1 ELSE 0), {"C01"} \cup also, "tag sets") : i \in DOMAIN ev.list}
      [] op = "count" -> If(res = "ok" /\ ev.nc = Nodes(x) /\ ev.wc = Cardinality(x.tagged), {"C02"} \cup also, "counts")
      [] op = "opt" -> If(res = "ok", {"C05"} \cup also, "compaction failed")
      [] op = "save" -> If(res = "ok", {"C03"} \cup also, "save failed")
      [] op = "load" -> IF file[ev.f].none THEN {} ELSE If(res = "ok", {"C03", "C18"}, "saved file refused")
      [] OTHER -> {}

Put(h, x) == idx' = [idx EXCEPT ![h] = x]
Effect(ev) ==
    LET x == idx[ev.h]
        op == ev.op
        res == F(ev, "res", "none")
    IN
    CASE op = "new" -> Put(ev.h, Empty) /\ UNCHANGED file
      [] op = "add" -> UNCHANGED file /\ IF res = "ok" THEN Put(ev.h, [x EXCEPT !.len[ev.s] = Most(@, ev.n), !.ids = @ \cup {<<<<ev.s, ev.n>>, ev.id>>}])
                                         ELSE Put(ev.h, [x EXCEPT !.dead = TRUE])
      [] op = "tag" -> UNCHANGED file /\ IF res = "ok" THEN Put(ev.h, [x EXCEPT !.tagged = @ \cup {<<ev.s, ev.n>>}]) ELSE UNCHANGED idx
      [] op = "probe" -> /\ UNCHANGED file
                         /\ IF res # "ok" THEN UNCHANGED idx
                            ELSE Put(ev.h, [x EXCEPT !.ids = @ \cup {<<<<ev.s, ev.list[i][1]>>, ev.list[i][3]>> : i \in {j \in DOMAIN ev.list : ev.list[j][2]}}])
      [] op = "opt" -> UNCHANGED file /\ Put(ev.h, [x EXCEPT !.compacted = TRUE])
      [] op = "save" -> UNCHANGED idx /\ IF res = "ok" THEN file' = [file EXCEPT ![ev.f] = x] ELSE UNCHANGED file
      [] op = "load" -> UNCHANGED file /\ Put(ev.h, IF file[ev.f].none \/ res # "ok" THEN [Empty EXCEPT !.dead = TRUE] ELSE [file[ev.f] EXCEPT !.loaded = TRUE])
      [] OTHER -> UNCHANGED <<idx, file>>

Init == l = 1 /\ idx = [h \in Handles |-> Empty] /\ file = [f \in Files |-> None]
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "reset" THEN idx' = [h \in Handles |-> Empty] /\ file' = [f \in Files |-> None]
       ELSE IF ev.op = "void" \/ (ev.op \notin {"new", "load"} /\ idx[ev.h].dead) THEN UNCHANGED <<idx, file>>
       ELSE IF F(ev, "res", "none") \in {"died", "hang"}
            THEN /\ PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> {"*"}, text |-> "brings the program down"]))
                 /\ UNCHANGED file /\ Put(ev.h, [Empty EXCEPT !.dead = TRUE])
       ELSE /\ \A b \in Checks(ev) : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
            /\ Effect(ev)
Spec == Init /\ [][Next]_vars
Line == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
