----------------------------- MODULE DictSystem -----------------------------
(***************************************************************************)
(* Dictionaries in memory (handles) and in files, and what users do with   *)
(* them.  The abstract level that IndexImpl.tla refines.                   *)
(***************************************************************************)
EXTENDS Dict

CONSTANTS Handles, Files, Names, Parents, Words, MaxSet, Lim, NoDict

VARIABLES idx,   \* handle -> dictionary
          file   \* file name -> dictionary or NoDict

dvars == <<idx, file>>

TagLists == UNION {[1..n -> Names] : n \in 0..MaxSet}

Init == idx = [h \in Handles |-> EmptyDict] /\ file = [f \in Files |-> NoDict]

New(h) == idx' = [idx EXCEPT ![h] = EmptyDict] /\ UNCHANGED file
RegisterTag(h, n, p) == /\ n \in KnownNames(idx[h]) \/ Len(idx[h].tags) <= Lim.tags
                        /\ idx' = [idx EXCEPT ![h] = DoTag(@, n, p)] /\ UNCHANGED file
AddWord(h, w) == w # <<>> /\ idx' = [idx EXCEPT ![h] = DoAdd(@, w)] /\ UNCHANGED file
AddBelow(h, p, w) == w # <<>> /\ (p = <<>> \/ p \in idx[h].nodes)
                     /\ idx' = [idx EXCEPT ![h] = DoAdd(@, p \o w)] /\ UNCHANGED file
Attach(h, w, ns) == /\ w \in idx[h].nodes /\ Attachable(idx[h], ns)
                    /\ idx' = [idx EXCEPT ![h] = DoAttach(@, w, ns)] /\ UNCHANGED file
\* Refused calls: bad words, bad parents, unknown tags, no identifier left.
Refused == UNCHANGED dvars
Compact(h) == UNCHANGED dvars
Save(h, f) == /\ Representable(idx[h], Lim)
              /\ file' = [file EXCEPT ![f] = Stored(idx[h])] /\ UNCHANGED idx
Load(h, f) == file[f] # NoDict /\ idx' = [idx EXCEPT ![h] = file[f]] /\ UNCHANGED file
\* A damaged file gives no dictionary; the handle is discarded by its user.
LoadDamaged(h, f) == file[f] # NoDict /\ idx' = [idx EXCEPT ![h] = EmptyDict] /\ UNCHANGED file

Next == \E h \in Handles :
    \/ New(h)
    \/ \E n \in Names, p \in Parents : RegisterTag(h, n, p)
    \/ \E w \in Words : AddWord(h, w)
    \/ \E p \in idx[h].nodes, w \in Words : AddBelow(h, p, w)
    \/ \E w \in idx[h].nodes, ns \in TagLists : Attach(h, w, ns)
    \/ Refused
    \/ Compact(h)
    \/ \E f \in Files : Save(h, f) \/ Load(h, f) \/ LoadDamaged(h, f)

Spec == Init /\ [][Next]_dvars

TypeOK == /\ \A h \in Handles : DictOK(idx[h])
          /\ \A f \in Files : file[f] = NoDict \/ (DictOK(file[f]) /\ Representable(file[f], Lim))

\* Growth never disturbs what is there: unless a handle is replaced as a whole (new, load)
\* its tags only get appended, its nodes and attachments only grow, word by word.
Grows(d, e) ==
    /\ Len(d.tags) <= Len(e.tags) /\ SubSeq(e.tags, 1, Len(d.tags)) = d.tags
    /\ d.nodes \subseteq e.nodes
    /\ \A w \in DOMAIN d.att : d.att[w] \subseteq TagSetsOf(e, w)
    /\ Cardinality({w \in e.nodes : TagSetsOf(e, w) # TagSetsOf(d, w)}) <= 1
Frame == [][\A h \in Handles : \/ Grows(idx[h], idx'[h])
                               \/ idx'[h] = EmptyDict
                               \/ \E f \in Files : idx'[h] = file[f]]_dvars
FileFrame == [][\A f \in Files : file'[f] # file[f] => \E h \in Handles : file'[f] = Stored(idx[h])]_dvars
=============================================================================
