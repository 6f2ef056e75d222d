------------------------------ MODULE GenUpdate ------------------------------
(* Every situation an update can meet, within small constants: one initial state each. *)
EXTENDS Update, FiniteSets, TLC, Json
VARIABLES case
F(vs, ts) == {Absent} \cup [v : vs, t : ts]
\* version 1 and 2 are good, 3 does not unpack, 4 does not compile
Odd == [v : {-3}, t : {0}]
SrcStates == F({1, 3, 4}, {2}) \cup [v : {-1}, t : {2}] \cup Odd
XmlStates == F({1, 4, -1}, {1, 2, 3}) \cup Odd
DatStates == F({1}, {1, 3, 4}) \cup F({-1}, {4}) \cup Odd
Odds(c) == {f \in FileNames : c.fs[f].v = -3 \/ (f = "src" /\ c.fs[f].v = -1)}
Servers == [head : {200, 404, -1}, lm : {-2, -1, 1, 2, 3}, get : {200, 503, -1}, v : {2, 3, 4}]
\* what is not asked for does not matter
Sane(c) == /\ Odds(c) # {} => Cardinality(Odds(c)) = 1 /\ c.srv.lm \in {-1, 1, 3} /\ c.srv.v = 2
           /\ c.srv.head # 200 => c.srv.lm = 1
           /\ LET p == Plan(c.fs, c.srv @@ [whole |-> TRUE], c.force) IN
              IF p = "get" THEN (c.srv.get # 200 => c.srv.v = 2) ELSE c.srv.get = 200 /\ c.srv.v = 2
Init == case \in {c \in [fs : [src : SrcStates, xml : XmlStates, dat : DatStates], srv : Servers, force : BOOLEAN] : Sane(c)}
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Emit == PrintT(ToJson(case))
=============================================================================
