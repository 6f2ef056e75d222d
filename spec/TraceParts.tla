----------------------------- MODULE TraceParts -----------------------------
(***************************************************************************)
(* Replays recorded writings and readings of parts of an index in streams  *)
(* against Parts.  What it does not explain is printed as rejected.        *)
(***************************************************************************)
EXTENDS Parts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def
If(ok, text) == IF ok THEN {} ELSE {<<{"C23"}, text>>}

Documented == {"ts", "tso", "name", "tag", "reg", "tst", "tsi", "var", "vt", "vi", "item", "items"}
SameIndex(a, b) == LET x == Decode(a)  y == Decode(b)
                   IN  x.ok /\ y.ok /\ y.next = Len(b) + 1 /\ AbsImage(x) = AbsImage(y)
FirstBad(ps) == LET c == {i \in DOMAIN ps : ~PartFits(ps[i][1], ps[i][2])}
                IN  IF c = {} THEN -1 ELSE (CHOOSE i \in c : \A j \in c : i <= j) - 1

Piece(ev, i) == SubSeq(ev.bytes, IF i = 1 THEN 1 ELSE ev.ends[i - 1] + 1, ev.ends[i])
PieceOK(ev, i) == LET k == ev.parts[i][1]  v == ev.parts[i][2] IN
    CASE k \in Documented -> Piece(ev, i) = EncPart(k, v)
      [] k = "index" -> SameIndex(v, Piece(ev, i))
      [] OTHER -> TRUE
BackOK(ev, i) == LET k == ev.parts[i][1]  v == ev.parts[i][2] IN
    IF k = "index" THEN SameIndex(v, ev.back[i]) ELSE ev.back[i] = BackPart(k, v)

StreamChecks(ev) ==
    LET bad == FirstBad(ev.parts)
        n == Len(ev.parts)
    IN  IF F(ev, "res", "none") # "ok" THEN If(FALSE, "part cannot be made")
        ELSE IF bad # -1 THEN If(ev.wfail \in {bad, -100 - bad}, "part written although it does not fit")
        ELSE IF ev.wfail # -1 THEN If(FALSE, "part not written")
        ELSE If(Len(ev.ends) = n /\ ev.ends[n] = Len(ev.bytes), "bytes of the parts")
             \cup If(\A i \in 1..n : PieceOK(ev, i), "form of a part")
             \cup If(ev.rfail = -1, "part not read back")
             \cup If(ev.rfail = -1 => \A i \in 1..n : BackOK(ev, i), "part read back differently")
             \cup If(ev.rfail = -1 => ev.left = Len(ev.tail), "bytes consumed")
             \cup If(\A i \in DOMAIN ev.cuts : ev.cuts[i][2] = FirstCut(ev.ends, ev.cuts[i][1]), "where a cut is noticed")
             \cup If(\A i \in DOMAIN ev.wcuts : ev.wcuts[i][2] = FirstCut(ev.ends, ev.wcuts[i][1]), "write error not reported")

Checks(ev) == CASE F(ev, "res", "none") = "died" -> If(FALSE, "process died")
                [] ev.op = "stream" -> StreamChecks(ev)
                [] OTHER -> If(FALSE, "unknown operation")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           ev.op \notin {"reset", "void"} =>
             \A b \in Checks(ev) : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
