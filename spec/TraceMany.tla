------------------------------ MODULE TraceMany ------------------------------
(***************************************************************************)
(* Checks recorded executions on indexes of very many words against Many.  *)
(***************************************************************************)
EXTENDS Many, Sequences, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tags, shape, idx, file, st
\* st[h]: what is known of how h came about
vars == <<l, tags, shape, idx, file, st>>
Handles == {"A", "B"}
Files == {"f", "g"}
None == [NoMany EXCEPT !.refused = TRUE]
Fresh == [dead |-> FALSE, loaded |-> FALSE, golden |-> FALSE, compacted |-> FALSE, len |-> 0]

F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def
If(ok, props, text) == IF ok THEN {} ELSE {<<props, text>>}
Rng2(s) == {s[i] : i \in DOMAIN s}
RuleOf(ev) == [from |-> ev.from, to |-> ev.to, by |-> F(ev, "by", 1), rests |-> Rng2(F(ev, "rests", <<0>>)), div |-> F(ev, "div", 1), sets |-> ev.sets]
Touched(m, r) == {i \in (r.from + 1)..(IF r.to < Len(m.at) THEN r.to ELSE Len(m.at)) : Chosen(r, i)}
Count(m, r) == Cardinality(Touched(m, r))
\* the first k words of a rule that leaves none out
Upto(r, k) == [r EXCEPT !.to = r.from + k]
Dense(r) == r.by = 1
\* the same set; TLC finds members of sets which it has counted faster
Sorted(s) == IF Cardinality(s) >= 0 THEN s ELSE {}
Applied(m, r) ==
    LET at == Given(m.at, r)
        these == Touched(m, r)
    IN  [m EXCEPT !.at = at, !.ever = Sorted(@) \cup {Nth(r.sets, r.div, i) : i \in these}, !.combos = Sorted(@) \cup {at[i] : i \in these}, !.tight = FALSE]
Fits(m) == Room(m.ever, m.combos)
Also(x) == (IF x.loaded /\ ~x.golden THEN {"C03"} ELSE {}) \cup (IF x.golden THEN {"C18"} ELSE {}) \cup (IF x.compacted THEN {"C05"} ELSE {})

GiveChecks(m, x, ev) ==
    LET r == RuleOf(ev)
        all == Applied(m, r)
    IN  IF ev.res = "ok" THEN If(ev.done = Count(m, r), {"C01"}, "words left out")
                              \cup If(Fits(all), {"C06"}, "identifier overflow accepted")
        ELSE IF ~Dense(r) \/ m.refused THEN If(~Fits(all), {"C01", "C06"} \cup Also(x), "tag set refused")
        ELSE If(ev.res \in {"err", "panic"} /\ ~Fits(Applied(m, Upto(r, ev.done + 1))), {"C01", "C06"} \cup Also(x), "tag set refused")

LookChecks(m, x, ev) ==
    LET also == Also(x)
        n == m.shape.n
        ids == Rng2(ev.ids) \cup Rng2(ev.above)
    IN  IF ev.res # "ok" THEN {<<{"C01", "C02"} \cup also, "looking at all words failed">>}
        ELSE UNION {
          If(Len(ev.ids) = n /\ Len(ev.above) = Firsts(m.shape) /\ \A i \in ids : i >= 1 /\ i <= ev.nc, {"C01", "C02"} \cup also, "word not found"),
          If(ev.absent = 0, {"C01"} \cup also, "absent word found"),
          If(Cardinality(ids) = n + Firsts(m.shape), {"C02"} \cup also, "identifiers distinct"),
          If(m.ids # <<>> => ev.ids = m.ids, {"C02"} \cup also, "identifiers stable"),
          If(m.above # <<>> => ev.above = m.above, {"C02"} \cup also, "identifiers stable"),
          If(ev.bad = <<>>, {"C02"} \cup also, "text of node"),
          If(ev.aboveSets = 0 /\ \A i \in 1..n : LET s == ev.sets[i] IN Rng2(s) = m.at[i] /\ Len(s) = Cardinality(m.at[i]), {"C01"} \cup also \cup (IF m.refused THEN {"C06"} ELSE {}), "tag sets"),
          If(ev.nc = Nodes(m) /\ ev.wc = Tagged(m), {"C02"} \cup also \cup (IF m.refused THEN {"C06"} ELSE {}), "counts") }

\* identifiers lead to what they stand for: those listed to the tag sets there are, each once; those of words to their tag sets
TrailChecks(m, x, ev) ==
    LET n == m.shape.n
        also == Also(x)
        used == {i \in 1..n : m.at[i] # {}}
    IN  IF ev.res # "ok" THEN {<<{"C22"} \cup also, "following identifiers failed">>}
        ELSE UNION {
          If(Cardinality(Rng2(ev.listed)) = Len(ev.listed) /\ ev.size = Len(ev.listed), {"C22"} \cup also, "tag set identifiers listed"),
          If(Cardinality(Rng2(ev.means)) = Len(ev.means) /\ (IF m.refused THEN Sorted(m.ever) \subseteq Sorted(Rng2(ev.means)) ELSE Sorted(Rng2(ev.means)) = Sorted(m.ever)),
             {"C22"} \cup also, "tag sets listed"),
          If(\A i \in 1..n : LET s == ev.lists[i] IN Rng2(s) = m.at[i] /\ Len(s) = Cardinality(m.at[i]) /\ ((ev.combos[i] = 0) = (m.at[i] = {})),
             {"C22"} \cup also, "tag sets of a combination"),
          If(LET a == Sorted({ev.combos[i] : i \in used}) b == Sorted({m.at[i] : i \in used}) c == Sorted({<<ev.combos[i], m.at[i]>> : i \in used}) IN
             Cardinality(a) = Cardinality(c) /\ Cardinality(b) = Cardinality(c), {"C22"} \cup also, "combinations one to one") }

Checks(ev) ==
    LET h == F(ev, "h", "A")
        m == idx[h]
        x == st[h]
        op == ev.op
        res == F(ev, "res", "none")
        also == Also(x)
    IN
    CASE op = "tags" -> If(res = "ok" /\ ev.ids = [i \in DOMAIN tags |-> i - 1], {"C07"} \cup also, "tag identifiers")
      [] op = "words" -> If(res = "ok", {"C01", "C02"} \cup also, "words refused")
                         \cup If(res = "ok" => Cardinality(Rng2(ev.ids)) = shape.n /\ \A i \in Rng2(ev.ids) : i >= 1, {"C02"} \cup also, "identifiers distinct")
                         \cup If(res = "ok" /\ m.ids # <<>> => ev.ids = m.ids, {"C02"} \cup also, "identifiers stable")
      [] op = "give" -> GiveChecks(m, x, ev)
      [] op = "look" -> LookChecks(m, x, ev)
      [] op = "trail" -> TrailChecks(m, x, ev)
      [] op = "opt" -> If(res = "ok", {"C05"}, "compaction failed")
      [] op = "save" -> IF ~Savable(m.ever) THEN If(res = "err", {"C06"}, "unrepresentable data saved")
                        ELSE (IF m.refused THEN {} ELSE If(res = "ok", {"C03", "C06"} \cup also, "save failed"))
                             \cup If(res = "ok" /\ x.compacted /\ x.len > 0 => ev.len <= x.len, {"C05"}, "larger after compaction")
      [] op = "load" -> IF file[ev.f] = None THEN {} ELSE If(res = "ok", IF file[ev.f].golden THEN {"C18"} ELSE {"C03"}, "saved file refused")
      [] OTHER -> {}

Start == [NoMany EXCEPT !.tags = tags, !.shape = shape]
Full(m) == [m EXCEPT !.at = [i \in 1..shape.n |-> IF i \in DOMAIN m.at THEN m.at[i] ELSE {}]]
Put(h, m) == idx' = [idx EXCEPT ![h] = m]
SetSt(h, s) == st' = [st EXCEPT ![h] = s]
Effect(ev) ==
    LET h == F(ev, "h", "A")
        m == idx[h]
        op == ev.op
        res == F(ev, "res", "none")
        same == UNCHANGED <<tags, shape>>
    IN
    CASE op = "new" -> same /\ Put(h, Start) /\ UNCHANGED file /\ SetSt(h, Fresh)
      [] op = "words" -> same /\ Put(h, [Full(m) EXCEPT !.ids = IF res = "ok" THEN ev.ids ELSE <<>>]) /\ UNCHANGED file
                         /\ SetSt(h, [st[h] EXCEPT !.dead = @ \/ res # "ok", !.len = 0])
      [] op = "give" ->
            LET r == RuleOf(ev)
                k == IF res = "ok" THEN r ELSE Upto(r, ev.done)
            IN  /\ same /\ UNCHANGED file
                /\ Put(h, [Applied(m, k) EXCEPT !.refused = @ \/ res # "ok"])
                /\ SetSt(h, [st[h] EXCEPT !.len = 0, !.dead = @ \/ res = "nonode" \/ (res # "ok" /\ ~Dense(r))])
      [] op = "opt" -> same /\ Put(h, [m EXCEPT !.combos = CombosOf(m.at), !.tight = TRUE]) /\ UNCHANGED file
                       /\ SetSt(h, [st[h] EXCEPT !.compacted = TRUE, !.dead = @ \/ res # "ok"])
      [] op = "save" -> same /\ UNCHANGED idx /\ (IF res = "ok" THEN file' = [file EXCEPT ![ev.f] = m @@ [golden |-> FALSE]] ELSE UNCHANGED file)
                        /\ SetSt(h, [st[h] EXCEPT !.len = IF res = "ok" THEN ev.len ELSE @])
      [] op = "forge" ->
            LET made[k \in 0..Len(ev.rules)] == IF k = 0 THEN Full(Start) ELSE Applied(made[k - 1], RuleOf(ev.rules[k]))
                m1 == made[Len(ev.rules)]
            IN  same /\ UNCHANGED <<idx, st>>
                /\ file' = [file EXCEPT ![ev.f] = [m1 EXCEPT !.combos = CombosOf(m1.at)] @@ [golden |-> TRUE]]
      [] op = "load" ->
            LET f == file[ev.f] IN
            /\ same /\ UNCHANGED file
            /\ IF f = None \/ res # "ok" THEN UNCHANGED idx /\ SetSt(h, [Fresh EXCEPT !.dead = TRUE])
               ELSE Put(h, [x \in DOMAIN NoMany |-> f[x]]) /\ SetSt(h, [Fresh EXCEPT !.loaded = TRUE, !.golden = f.golden])
      [] op = "look" -> same /\ UNCHANGED <<file, st>>
                        /\ Put(h, IF res = "ok" THEN [m EXCEPT !.ids = IF @ = <<>> THEN ev.ids ELSE @, !.above = IF @ = <<>> THEN ev.above ELSE @] ELSE m)
      [] OTHER -> UNCHANGED <<tags, shape, idx, file, st>>

Init == /\ l = 1 /\ tags = <<>> /\ shape = NoShape /\ idx = [h \in Handles |-> NoMany] /\ file = [f \in Files |-> None]
        /\ st = [h \in Handles |-> Fresh]
Reset(ev) == /\ tags' = [i \in DOMAIN ev.tags |-> [n |-> ev.tags[i], p |-> EmptyName]] /\ shape' = ev.shape
             /\ idx' = [h \in Handles |-> NoMany] /\ file' = [f \in Files |-> None] /\ st' = [h \in Handles |-> Fresh]
Died(ev) == F(ev, "res", "none") \in {"died", "hang"}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "reset" THEN Reset(ev)
       ELSE IF ev.op = "void" \/ (ev.op \notin {"new", "load", "forge"} /\ st[F(ev, "h", "A")].dead) THEN UNCHANGED <<tags, shape, idx, file, st>>
       ELSE IF Died(ev) THEN /\ PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> {"*"}, text |-> "brings the program down"]))
                             /\ UNCHANGED <<tags, shape, idx, file>> /\ SetSt(F(ev, "h", "A"), [Fresh EXCEPT !.dead = TRUE])
       ELSE /\ \A b \in Checks(ev) : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
            /\ Effect(ev)
Spec == Init /\ [][Next]_vars
Line == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
