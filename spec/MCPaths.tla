------------------------------- MODULE MCPaths -------------------------------
(***************************************************************************)
(* The laws of Paths over all trees of a few entries and all short paths:  *)
(* cleaning is idempotent, resolving and joining the parts gives the path  *)
(* back, making a directory makes it exist, twice is as good as once.      *)
(***************************************************************************)
EXTENDS Paths
CONSTANTS Comps, MaxEntries, MaxLen
VARIABLES fs
Root == <<<<114>>>>
A == <<97>>
B == <<98, 46, 99>>
C == <<46, 104>>
MCComps == {A, B, C}
Args == UNION {[1..n -> Comps \cup {Dot, DotDot}] : n \in 0..MaxLen}
Dirs == {Root} \cup {p \in DOMAIN fs : fs[p].kind = "dir"}
Init == fs = <<>>
Add == /\ Cardinality(DOMAIN fs) < MaxEntries
       /\ \E d \in Dirs, c \in Comps :
            /\ Append(d, c) \notin DOMAIN fs
            /\ \/ \E k \in {"file", "dir"} : fs' = (Append(d, c) :> [kind |-> k]) @@ fs
               \/ \E t \in {<<A>>, <<DotDot, C>>, <<B, A>>} : fs' = (Append(d, c) :> [kind |-> "link", to |-> [abs |-> FALSE, c |-> t, slash |-> FALSE]]) @@ fs
Next == Add
Spec == Init /\ [][Next]_fs
Fulls == {CleanAbs(<<>>, Root \o x) : x \in Args}
Parted == \A p \in Fulls \ {<<>>} : DirString(p) \o Stem(Last(p)) \o Ext(Last(p)) = AbsString(p)
                                   /\ Split(AbsString(p)) = p
Idem == \A p \in Fulls : CleanAbs(<<>>, p) = p
Made == \A x \in Args :
          LET p == CleanAbs(<<>>, Root \o x) IN
          IsPre(Root, p) =>
            LET m == MkAll(fs, Root, Root, SubSeq(p, 2, Len(p))) IN
            m[1] => /\ Leads(m[2], Root, p)[1] = "dir"
                    /\ TreeOK(m[2], Root)
                    /\ MkAll(m[2], Root, Root, SubSeq(p, 2, Len(p))) = m
                    /\ \A q \in DOMAIN fs : m[2][q] = fs[q]
Tree == TreeOK(fs, Root)
=============================================================================
