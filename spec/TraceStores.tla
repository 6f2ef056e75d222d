----------------------------- MODULE TraceStores -----------------------------
(***************************************************************************)
(* Replays recorded executions of the real set stores, tag registries,     *)
(* binary forms and identifiers against Stores, Registry and Packing.      *)
(* An observation that these do not explain is printed as rejected, with   *)
(* the properties it breaks.                                               *)
(***************************************************************************)
EXTENDS Stores, Registry, Json, IOUtils

P16 == INSTANCE Packing WITH Base <- 256

Trace == ndJsonDeserialize(IOEnv.TRACE)

Caps == [k \in {"t8", "c8"} |-> 256] @@ [k \in {"t16", "c16", "ts", "tsi", "vt", "vi"} |-> 65536]
Sizes == [c8 |-> 256, t8 |-> 1000000, t16 |-> 1000000, c16 |-> 65536, ts |-> 1000000, tsi |-> 65536,
          vt |-> 1000000, vi |-> 65535]
Colls == {"c8", "c16", "tsi", "vi"}

VARIABLES l, sto, reg, dead,
          clean   \* nothing was rejected in this episode so far
tvars == <<l, sto, reg, dead, clean>>

F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def
If(ok, props, text) == IF ok THEN {} ELSE {<<props, text>>}
ObsReg(list) == [i \in DOMAIN list |-> [n |-> list[i][1], p |-> list[i][2]]]

StoreProps(s) == {"C09"}
FullProps(s) == {"C09"} \cup (IF s.kind \in {"ts", "tsi", "vt", "vi"} THEN {"C06"} ELSE {})

\* an identifier's answer: <<found, content>>
GetChecks(s, id, found, x) ==
    IF id \in DOMAIN s.ids THEN If(found /\ x = s.ids[id], StoreProps(s), "content of an identifier")
    ELSE IF id \in DOMAIN s.seen THEN If(found /\ x = s.seen[id], StoreProps(s), "earlier content moved")
    ELSE IF s.pre = 0 THEN If(~found, StoreProps(s), "identifier never given is found")
    ELSE If(found => Len(x) = PreSize /\ x \notin Stored(s), StoreProps(s), "content of an earlier identifier")
Seen(s, id, found, x) ==
    IF s.pre > 0 /\ found /\ id \notin DOMAIN s.ids /\ id \notin DOMAIN s.seen
    THEN [s EXCEPT !.seen = (id :> x) @@ @] ELSE s

\* --- binary forms -------------------------------------------------------------
RtProps(ev) == IF ev.kind \in {"s8", "s16", "ts", "tso"} THEN {"C10"} ELSE {"C08"}
RtBig(ev) == (ev.kind \in {"s8", "ts", "tso"} /\ Len(ev.v) > 255) \/ (ev.kind = "s16" /\ Len(ev.v) > 65535)
RtReg(ev) == IF ev.kind = "reg" THEN RegAll(<<>>, ev.v) ELSE RegFrom(ev.v)
RtFits(ev) == CASE ev.kind \in {"s8", "s16", "ts", "tso"} -> ~RtBig(ev)
                [] ev.kind \in {"reg", "regraw"} -> RegFits(RtReg(ev))
                [] ev.kind = "tag" -> NameFits(ev.v[1][1]) /\ NameFits(ev.v[1][2])
                [] OTHER -> NameFits(ev.v)
RtBack(ev) == CASE ev.kind \in {"s8", "s16", "ts", "tso"} -> ev.v
                [] ev.kind \in {"reg", "regraw"} -> RegBack(RtReg(ev))
                [] ev.kind = "tag" -> <<<<ReadBack(ev.v[1][1]), ReadBack(ev.v[1][2])>>>>
                [] OTHER -> ReadBack(ev.v)
TooMany(ev) == ev.kind \in {"s8", "s16", "ts", "tso"} \/ (ev.kind \in {"reg", "regraw"} /\ Len(RtReg(ev)) > 255)

RtChecks(ev) ==
    LET p == RtProps(ev) IN
    IF ~RtFits(ev)
    THEN If(ev.res \in (IF TooMany(ev) THEN {"err", "panic"} ELSE {"err"}), p \cup (IF TooMany(ev) \/ "C08" \in p THEN {"C06"} ELSE {}), "written although it does not fit")
    ELSE IF ev.res # "ok" THEN {<<p, "not written">>}
    ELSE UNION {
        If(ev.rres = "ok", p, "not read back"),
        If(ev.rres = "ok" => ev.back = RtBack(ev), p, "read back differently"),
        If(ev.n \in {-1, ev.len}, p, "number of bytes written"),
        If(ev.rn \in {-1, ev.len}, p, "number of bytes read"),
        If(ev.left = Len(ev.tail), p, "bytes consumed"),
        If(ev.accepted = <<>>, p, "cut-off data accepted"),
        If(ev.panicked = <<>>, p, "panic on cut-off data"),
        If(ev.unnoticed = <<>>, p, "write error not reported") }

Checks(ev) ==
    LET op == ev.op
        s == sto[F(ev, "s", "")]
        r == reg[F(ev, "s", "")]
        res == F(ev, "res", "none")
    IN  IF res = "died" THEN {<<{"C07", "C08", "C09", "C10", "C11"}, "process died">>} ELSE
    CASE op = "put" ->
            LET x == Sorted(s.kind, ev.x)
                room == HasRoom(s, Len(x), Caps, Sizes, Colls) IN
            IF ev.x = <<>> THEN If(res \in {"ok", "panic", "err"} /\ PutEmptyOK(s.kind, res # "ok", F(ev, "id", Zero(s.kind))), StoreProps(s), "empty set put")
            ELSE IF x \in Stored(s) \/ room
            THEN IF res # "ok" THEN {<<StoreProps(s), "put refused">>}
                 ELSE If(PutOK(s, x, ev.id), StoreProps(s), "identifier of a set")
            ELSE If(res \in {"panic", "err"}, FullProps(s), "identifier given by a full store")
      [] op = "find" ->
            IF res # "ok" THEN {<<StoreProps(s), "find panics">>}
            ELSE IF ev.x = <<>> THEN If(FindEmptyOK(s.kind, ev.found, ev.id), StoreProps(s), "empty set found")
            ELSE LET x == Sorted(s.kind, ev.x) IN
                 IF x = ev.x
                 THEN If(IF x \in Stored(s) THEN ev.found /\ ev.id = IdFor(s, x) ELSE ~ev.found, StoreProps(s), "find")
                 \* queries are to be sorted; an unsorted one may be answered, not wrongly
                 ELSE If(ev.found => x \in Stored(s) /\ ev.id = IdFor(s, x), StoreProps(s), "find unsorted")
      [] op = "get" -> IF res # "ok" THEN {<<StoreProps(s), "get panics">>} ELSE GetChecks(s, ev.id, ev.found, ev.x)
      [] op = "gets" ->
            IF res # "ok" THEN {<<StoreProps(s), "get panics">>}
            ELSE UNION {GetChecks(s, ev.out[i][1], ev.out[i][2] = 1, ev.out[i][3]) : i \in DOMAIN ev.out}
      [] op = "again" ->
            IF res # "ok" THEN {<<StoreProps(s), "put or find panics">>}
            ELSE UNION {LET o == ev.out[i] IN
                        GetChecks(s, o[1], o[2] = 1, o[3])
                        \cup If(o[2] = 1 => o[4] = o[1], StoreProps(s), "another identifier for a stored set")
                        \cup If(o[2] = 1 => o[5] = 1 /\ o[6] = o[1], StoreProps(s), "stored set is not found")
                        : i \in DOMAIN ev.out}
      [] op = "kept" -> If(res = "ok" /\ ev.now = ev.then, {"C24"}, "answer given before has changed")
      [] op = "putall" ->
            IF res # "ok" THEN {<<StoreProps(s), "put refused">>}
            ELSE LET x == [i \in DOMAIN ev.xs |-> Sorted(s.kind, ev.xs[i])]
                     both == {<<x[i], ev.out[i]>> : i \in DOMAIN x} \cup {<<s.ids[i], i>> : i \in DOMAIN s.ids}
                     new == {ev.out[i] : i \in {j \in DOMAIN x : x[j] \notin Stored(s)}}
                 IN  If(Len(ev.out) = Len(ev.xs), StoreProps(s), "number of answers")
                     \cup If(Cardinality({b[1] : b \in both}) = Cardinality(both), StoreProps(s), "a set with two identifiers")
                     \cup If(Cardinality({b[2] : b \in both}) = Cardinality(both), StoreProps(s), "an identifier of two sets")
                     \cup If(new \cap DOMAIN s.seen = {}, StoreProps(s), "identifier of a set")
      [] op \in {"mk", "prefill"} -> If(res = "ok", {"C09"}, "not made")

      [] op = "rmk" -> If(res = "ok", {"C07"}, "not made")
      [] op = "rput" ->
            IF ev.n \in RegNames(r) THEN If(res = "ok" /\ F(ev, "id", -1) = Number(r, ev.n), {"C07"}, "number of a known name")
            ELSE IF RegRoom(r) THEN If(res = "ok" /\ F(ev, "id", -1) = Len(r), {"C07"}, "number of a new name")
            ELSE If(res \in {"panic", "err"}, {"C06", "C07"}, "number given by a full registry")
      [] op = "rfind" ->
            If(res = "ok" /\ (IF ev.n \in RegNames(r) THEN ev.found /\ ev.id = Number(r, ev.n) ELSE ~ev.found), {"C07"}, "find by name")
      [] op = "rget" ->
            If(res = "ok" /\ (IF ev.id < Len(r) THEN ev.found /\ ev.tag = <<r[ev.id + 1].n, r[ev.id + 1].p>> ELSE ~ev.found), {"C07"}, "get by number")
      [] op = "rdump" ->
            If(res = "ok" /\ ev.len = Len(r) /\ ev.got = [i \in DOMAIN r |-> <<i - 1, r[i].n, r[i].p>>], {"C07"}, "registry content")

      [] op = "rt" -> RtChecks(ev)
      [] op = "unmarshal" ->
            IF Len(ev.bytes) = 4 THEN If(res = "ok" /\ ev.v = ReadBack(ev.bytes), {"C08"}, "name from bytes")
            ELSE If(res = "err", {"C08"}, "name of a wrong length accepted")
      [] op = "marshal" ->
            IF NameFits(ev.v) THEN If(res = "ok" /\ Len(ev.bytes) = 4 /\ ReadBack(ev.bytes) = ReadBack(ev.v), {"C08"}, "bytes of a name")
            ELSE If(res = "err", {"C06", "C08"}, "name of a wrong length written")

      [] op = "pack8" ->
            If(res = "ok" /\ Len(ev.out) = 256 /\ \A i \in DOMAIN ev.out : LET b == i - 1 IN
                  ev.out[i] = <<b, P16!Combine(ev.a, b), ev.a, b, ev.a, b>>, {"C11"}, "halves of a combined identifier")
      [] op = "unpack16" ->
            If(res = "ok" /\ Len(ev.out) = ev.to - ev.from /\ \A i \in DOMAIN ev.out : LET x == ev.from + i - 1 IN
                  ev.out[i] = <<x, P16!Upper(x), P16!Lower(x), x>>, {"C11"}, "identifier combined of its halves")
      [] op = "pack32" ->
            If(res = "ok" /\ ev.out = [i \in DOMAIN ev.pairs |-> <<ev.pairs[i], ev.pairs[i], ev.pairs[i][1], ev.pairs[i][2]>>],
               {"C11"}, "halves of a combined identifier")
      [] op = "unpack32" ->
            If(res = "ok" /\ ev.out = [i \in DOMAIN ev.xs |-> <<ev.xs[i], ev.xs[i][1], ev.xs[i][2], ev.xs[i]>>],
               {"C11"}, "identifier combined of its halves")
      [] OTHER -> {<<{"C07", "C08", "C09", "C10", "C11"}, "unknown operation">>}

\* --- how the abstract state goes on ----------------------------------------------
Learn(s, out) == \* after "gets"
    IF s.pre = 0 THEN s
    ELSE LET new == {i \in DOMAIN out : out[i][2] = 1 /\ out[i][1] \notin DOMAIN s.ids /\ out[i][1] \notin DOMAIN s.seen}
             got == {out[i][1] : i \in new}
         IN  [s EXCEPT !.seen = [id \in got |-> out[CHOOSE i \in new : out[i][1] = id][3]] @@ @]

Effect(ev, bad) ==
    LET op == ev.op
        h == F(ev, "s", "")
        s == sto[h]
        res == F(ev, "res", "none")
    IN
    CASE op = "mk" -> sto' = [sto EXCEPT ![h] = NewStore(ev.kind, 0)] /\ dead' = dead \ {h} /\ UNCHANGED reg
      [] op = "prefill" -> sto' = [sto EXCEPT ![h] = NewStore(s.kind, ev.n)] /\ UNCHANGED <<reg, dead>>
      [] op = "put" ->
            /\ UNCHANGED reg
            /\ IF bad THEN dead' = dead \cup {h} /\ UNCHANGED sto
               ELSE /\ UNCHANGED dead
                    /\ sto' = IF res = "ok" /\ ev.x # <<>> THEN [sto EXCEPT ![h] = DoPut(s, Sorted(s.kind, ev.x), ev.id)] ELSE sto
      [] op = "get" /\ res = "ok" -> sto' = [sto EXCEPT ![h] = Seen(s, ev.id, ev.found, ev.x)] /\ UNCHANGED <<reg, dead>>
      [] op = "putall" ->
            /\ UNCHANGED reg
            /\ IF bad THEN dead' = dead \cup {h} /\ UNCHANGED sto
               ELSE LET new == {i \in DOMAIN ev.out : ev.out[i] \notin DOMAIN s.ids}
                        first == [id \in {ev.out[i] : i \in new} |-> Sorted(s.kind, ev.xs[CHOOSE i \in new : ev.out[i] = id])]
                    IN  sto' = [sto EXCEPT ![h].ids = first @@ @] /\ UNCHANGED dead
      [] op \in {"gets", "again"} /\ res = "ok" -> sto' = [sto EXCEPT ![h] = Learn(s, ev.out)] /\ UNCHANGED <<reg, dead>>
      [] op = "rmk" -> reg' = [reg EXCEPT ![h] = RegFrom(ev.tags)] /\ dead' = dead \ {h} /\ UNCHANGED sto
      [] op = "rput" ->
            /\ UNCHANGED sto
            /\ IF bad THEN dead' = dead \cup {h} /\ UNCHANGED reg
               ELSE reg' = (IF res = "ok" THEN [reg EXCEPT ![h] = RegPut(@, ev.n, ev.p)] ELSE reg) /\ UNCHANGED dead
      [] OTHER -> UNCHANGED <<sto, reg, dead>>

Handles == {"", "a", "b"}
\* What a caller lends comes back as it was; what it does with its own memory afterwards changes nothing.
Bad(ev) == {IF clean /\ F(ev, "vandal", FALSE) THEN <<b[1] \cup {"C24"}, b[2]>> ELSE b : b \in Checks(ev)}
           \cup If(F(ev, "args", "same") = "same", {"C24"}, "argument changed")
Init == clean = TRUE /\ l = 1 /\ sto = [h \in Handles |-> NewStore("t8", 0)] /\ reg = [h \in Handles |-> <<>>] /\ dead = {}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "reset" THEN sto' = [h \in Handles |-> NewStore("t8", 0)] /\ reg' = [h \in Handles |-> <<>>] /\ dead' = {} /\ clean' = TRUE
       ELSE IF ev.op = "void" \/ (ev.op \notin {"mk", "rmk"} /\ F(ev, "s", "") \in dead) THEN UNCHANGED <<sto, reg, dead, clean>>
       ELSE LET bad == Bad(ev) IN
            /\ clean' = (clean /\ bad = {})
            /\ \A b \in bad : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
            /\ Effect(ev, bad # {})
Spec == Init /\ [][Next]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
AllOK == \A h \in Handles : StoreOK(sto[h])
=============================================================================
