---------------------------- MODULE ConsoleMachine ----------------------------
(***************************************************************************)
(* The console as a machine: a dictionary file that others may replace,    *)
(* the dictionary loaded, lines answered one by one.                       *)
(***************************************************************************)
EXTENDS Console, Json
CONSTANT Deep
A == <<65, 65, 97, 97>>  B == <<78, 79, 85, 78>>  B2 == <<110, 111, 117, 110>>
It(p, i, w, v) == [p |-> p, id |-> i, l |-> w, v |-> v]
Img0 == [ok |-> TRUE, tags |-> <<>>, sets |-> <<>>, vars |-> <<>>, items |-> (0 :> It(0, 0, 0, <<0, 0>>))]
Img1 == [ok |-> TRUE, tags |-> <<[n |-> A, p |-> EmptyName], [n |-> B, p |-> A], [n |-> B2, p |-> B]>>,
         sets |-> <<<<<<1>>, <<0>>>>, <<<<0, 1>>>>>>,
         vars |-> <<<<<<<<0, 1>>>>>>, <<<<<<0, 0>>, <<1, 0>>>>>>>>,
         items |-> (0 :> It(0, 0, 0, <<0, 0>>)) @@ (1 :> It(0, 1, 97, <<1, 0>>)) @@ (2 :> It(1, 2, 1073, <<2, 0>>))
                   @@ (3 :> It(0, 3, 49, <<0, 0>>)) @@ (4 :> It(1, 4, 32, <<1, 0>>)) @@ (5 :> It(4, 5, 98, <<2, 0>>))]
Images == {Img0, Img1}
Disks == Images \cup {NoImage}
\* what can stand after a command
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Args == {Dec(n) : n \in 0..6} \cup {Count, Tables, Table, A, B, B2, <<78, 111, 117, 110>>, <<97>>, <<97, 1073>>, <<120>>, <<>>, <<45>>, <<43>>,
         <<45, 49>>, <<43, 49>>, <<48, 49>>, <<45, 48>>, <<49, 97>>, <<48, 120>>, <<48, 120, 49>>, <<48, 88, 49, 48, 48, 48, 49>>,
         <<48, 98, 49, 48>>, <<48, 98, 50>>, <<48, 111, 49>>, <<48, 56>>, <<48, 49, 48>>, <<54, 53, 53, 51, 54>>, <<54, 53, 53, 51, 55>>, <<49, 51, 49, 48, 55, 50>>,
         <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 55>>,
         <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<1085, 1086>>}
Cmds == {Tag, Set, Var, NodeW, Exit, Reload} \cup {<<c[1]>> : c \in {Tag, Set, Var, NodeW, Exit, Reload}}
Words == {<<>>, <<97>>, <<97, 1073>>, <<49>>, <<97, 32>>, <<97, 32, 98>>, <<32>>, <<98>>, <<116, 97>>, <<116, 97, 103, 115>>}
Join(ws) == FoldLeft(LAMBDA a, w : IF a = <<0>> THEN w ELSE a \o <<32>> \o w, <<0>>, ws)
Lines == Words \cup Cmds \cup {Join(<<c, x>>) : c \in Cmds, x \in Args}
         \cup {Join(<<c, Table, x>>) : c \in {Set, <<115>>}, x \in Args}
         \cup (IF Deep THEN {Join(<<c, x, y>>) : c \in Cmds, x \in Args, y \in {<<49>>, Count, <<>>}} ELSE {Join(<<c, <<49>>, <<49>>>>) : c \in Cmds})

VARIABLES mode, img, disk, ans
vars == <<mode, img, disk, ans>>
Init == mode = "off" /\ img = NoImage /\ disk \in Disks /\ ans = [k |-> "start"]
Start == mode = "off" /\ disk.ok /\ mode' = "on" /\ img' = disk /\ ans' = [k |-> "start"] /\ UNCHANGED disk
Line(x) == /\ mode = "on"
           /\ ans' = Answer(img, x)
           /\ IF ans'.k = "exit" THEN mode' = "off" /\ img' = NoImage
              ELSE IF ans'.k = "reload" THEN img' = disk /\ mode' = (IF disk.ok THEN "on" ELSE "off")
              ELSE UNCHANGED <<mode, img>>
           /\ UNCHANGED disk
Replace(d) == disk # d /\ disk' = d /\ ans' = [k |-> "replaced"] /\ UNCHANGED <<mode, img>>
Eof == mode = "on" /\ mode' = "off" /\ img' = NoImage /\ ans' = [k |-> "eof"] /\ UNCHANGED disk
Next == Start \/ (\E x \in Lines : Line(x)) \/ (\E d \in Disks : Replace(d)) \/ Eof
Spec == Init /\ [][Next]_vars

Kinds == {"start", "replaced", "eof", "err", "tag", "tagcount", "tables", "table", "set", "var", "node", "nodecount", "none", "empty", "found", "exit", "reload"}
Answered == ans.k \in Kinds
Loaded == mode = "on" => img.ok /\ WellFormed(img)
\* a dictionary in use changes by a reload only
Same == [][mode = "on" /\ mode' = "on" /\ ans'.k # "reload" => img' = img]_vars
\* answers agree with one another
Agree == mode = "on" =>
    /\ \A i \in DOMAIN img.items : LET a == NodeAns(img, i) IN
          /\ i # 0 => a = NodeAns(img, CHOOSE j \in NodeOf(img, a.w) : TRUE)
          /\ i # 0 /\ CommandOf(Split(a.w)) = "search" =>
               LET s == SearchAnswer(img, a.w) IN IF a.sets = {} THEN s.k = "empty" ELSE s = [k |-> "found", sets |-> a.sets]
          /\ a.v # <<0, 0>> => {x[2] : x \in VarAnswer(img, <<Var, Dec(0)>>).l} = {} /\ HasVar(img, a.v)
    /\ \A t \in DOMAIN img.sets :
          LET tab == SetAnswer(img, <<Set, Table, Dec(t - 1)>>) IN
          Len(tab.l) = SetAnswer(img, <<Set, Tables>>).l[t] /\ \A i \in DOMAIN tab.l : BagSize(tab.l[i]) = t
    /\ \A i \in DOMAIN img.tags : TagAnswer(img, <<Tag, Dec(i - 1)>>).n = img.tags[i].n
    /\ \A i \in DOMAIN img.tags : Fold(TagAnswer(img, <<Tag, img.tags[i].n>>).n) = Fold(img.tags[i].n)

\* every line once, for the driver
GenInit == mode = "line" /\ img = NoImage /\ disk = NoImage /\ ans \in {[k |-> x] : x \in Lines}
GenNext == UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_vars
Emit == PrintT(ToJson(ans.k))
=============================================================================
