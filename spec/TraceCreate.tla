----------------------------- MODULE TraceCreate -----------------------------
(***************************************************************************)
(* Judges recorded concurrent creations of nodes.  The abstract storage is *)
(* what ConcCreate's invariants say of it when it is quiet: a sequence of  *)
(* records, the i-th with identifier i; a group of creations appends all   *)
(* its records, in some order.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, store, dead
vars == <<l, store, dead>>
If(ok, text) == IF ok THEN {} ELSE {<<{"C13"}, text>>}
Rng(s) == {s[i] : i \in DOMAIN s}
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Total(ns) == FoldLeft(LAMBDA a, n : a + n, 0, ns)
Asked(ev) == UNION {{<<10000 * t + k, 1000 * t + k>> : k \in 1..ev.counts[t]} : t \in DOMAIN ev.counts}
Checks(ev) ==
    IF ev.op # "make" THEN If(ev.res = "ok", "storage operation failed")
    ELSE IF ev.res # "ok" THEN If(FALSE, "creation failed: " \o ev.res)
    ELSE LET made == Flat(ev.made)
             n == Total(ev.counts)
             before == Len(store)
         IN  UNION {
               If(ev.first = before + 1, "identifiers go on from the last"),
               If(Len(made) = n /\ \A t \in DOMAIN ev.counts : Len(ev.made[t]) = ev.counts[t], "number of creations"),
               If({m[1] : m \in Rng(made)} = (before + 1)..(before + n), "identifiers distinct and consecutive"),
               If({<<m[2], m[3]>> : m \in Rng(made)} = Asked(ev), "parents and letters returned"),
               If(\A t \in DOMAIN ev.counts : \A k \in DOMAIN ev.made[t] :
                     ev.made[t][k][2] = 10000 * t + k /\ ev.made[t][k][3] = 1000 * t + k, "node returned is the one asked for"),
               If(ev.next = before + n + 1 /\ Len(ev.stored) = before + n, "number of nodes"),
               If(\A i \in DOMAIN ev.stored : ev.stored[i][1] = i, "stored under its identifier"),
               If(\A m \in Rng(made) : m[1] \in DOMAIN ev.stored => ev.stored[m[1]] = m, "stored as created"),
               If(SubSeq(ev.stored, 1, before) = store, "older nodes unchanged"),
               If(~ev.beyond, "nodes that were not created") }
Init == l = 1 /\ store = <<>> /\ dead = FALSE
Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "reset" -> store' = <<>> /\ dead' = FALSE
         [] ev.op = "void" \/ dead -> UNCHANGED <<store, dead>>
         [] OTHER -> LET bad == Checks(ev) IN
                     /\ \A b \in bad : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
                     /\ store' = (IF ev.op = "make" /\ ev.res = "ok" THEN ev.stored ELSE store)
                     /\ dead' = (bad # {})
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
