------------------------------ MODULE TracePaths ------------------------------
(* Replays recorded calls of the path helpers in scratch directories against Paths. *)
EXTENDS Paths, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, root, cwd
tvars == <<l, fs, root, cwd>>
If(ok, text) == IF ok THEN {} ELSE {<<{"C20"}, text>>}
F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def

\* where a new entry would be made: the parent with links followed
NewAt(p) == LET full == IF p.abs THEN root \o Parts(p.c) ELSE cwd \o Parts(p.c)
            IN  Append(Leads(fs, root, Front(full))[2], Last(full))
Domain(d) == CleanAbs(<<>>, cwd \o DomainPath(d.c))

Checks(ev) ==
    LET op == ev.op
        res == F(ev, "res", "none")
    IN  IF res \in {"died", "panic", "hang"} THEN {<<{"C20"}, "no answer">>} ELSE
    CASE op \in {"mkdir", "file", "link", "cd"} -> If(res = "ok", "scenario")
      [] op = "resolve" ->
            LET full == FullPath(root, cwd, ev.p)
                w == Leads(fs, root, full)
            IN  IF full = <<>> \/ w[1] = "outside" THEN {}
                ELSE IF w[1] = "none" THEN If(res = "err", "missing path resolved")
                ELSE IF res # "ok" THEN {<<{"C20"}, "existing path refused">>}
                ELSE If(ev.dir = DirString(full), "directory") \cup If(ev.name = Stem(Last(full)), "base name")
                     \cup If(ev.ext = Ext(Last(full)), "extension")
                     \cup If(ev.dir \o ev.name \o ev.ext = AbsString(full), "parts do not make the path")
      [] op = "where" ->
            If(ev.data = DataDir, "data directory") \cup If(ev.domain = RelString(DomainPath(ev.d.c)), "domain directory")
            \cup If(ev.file = RelString(FileOf(ev.d.c, ev.f.c)), "domain file")
      [] op = "loader" ->
            LET has(name) == LoaderHas(fs, root, cwd, ev.d, name)
                right(name, seen) == has(name) = "outside" \/ seen = (has(name) \in {"file", "dir"})
            IN  If(res = "ok" /\ ev.dir = LoaderDir(root, ev.d), "loader's directory")
                \cup If(res = "ok" /\ right(ev.names[1], ev.has[1]) /\ right(ev.names[2], ev.has[2]), "loader's files")
      [] op = "mkdomain" ->
            LET full == Domain(ev.d) IN
            IF ~IsPre(root, full) THEN {}
            ELSE LET m == MkAll(fs, root, root, SubSeq(full, Len(root) + 1, Len(full))) IN
                 If((res = "ok") = m[1], "making the data directory")
      [] op = "tree" ->
            LET got == {<<root \o Split(ev.out[i][1]), ev.out[i][2]>> : i \in DOMAIN ev.out} IN
            If(res = "ok" /\ got = {<<p, fs[p].kind>> : p \in DOMAIN fs}, "files there")
      [] OTHER -> {<<{"C20"}, "unknown operation">>}

Effect(ev) ==
    LET op == ev.op IN
    CASE op = "reset" -> fs' = <<>> /\ root' = Split(ev.root) /\ cwd' = Split(ev.root)
      [] op \in {"mkdir", "file"} -> fs' = (NewAt(ev.p) :> [kind |-> IF op = "file" THEN "file" ELSE "dir"]) @@ fs /\ UNCHANGED <<root, cwd>>
      [] op = "link" -> fs' = (NewAt(ev.p) :> [kind |-> "link", to |-> ev.to]) @@ fs /\ UNCHANGED <<root, cwd>>
      [] op = "cd" -> cwd' = Leads(fs, root, IF ev.p.abs THEN root \o Parts(ev.p.c) ELSE cwd \o Parts(ev.p.c))[2] /\ UNCHANGED <<fs, root>>
      [] op = "mkdomain" ->
            LET full == Domain(ev.d) IN
            /\ fs' = IF IsPre(root, full) THEN MkAll(fs, root, root, SubSeq(full, Len(root) + 1, Len(full)))[2] ELSE fs
            /\ UNCHANGED <<root, cwd>>
      [] OTHER -> UNCHANGED <<fs, root, cwd>>

Init == l = 1 /\ fs = <<>> /\ root = <<>> /\ cwd = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "void" THEN UNCHANGED <<fs, root, cwd>>
       ELSE LET bad == IF ev.op = "reset" THEN {} ELSE Checks(ev) IN
            /\ \A b \in bad : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
            /\ Effect(ev)
Spec == Init /\ [][Next]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Sane == TreeOK(fs, root)
=============================================================================
