-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Paths as sequences of components (sequences of bytes), a tree of files, *)
(* directories and symbolic links, and what the path helpers promise.      *)
(* An argument is [abs, c, slash]: absolute ones start from the scratch    *)
(* directory `root`.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Dot == <<46>>
DotDot == <<46, 46>>
Slash == 47
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* components of a string of bytes
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, cur) ==
    IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
    ELSE IF s[i] = Slash THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o SplitFrom(s, i + 1, <<>>)
    ELSE SplitFrom(s, i + 1, Append(cur, s[i]))
Split(s) == SplitFrom(s, 1, <<>>)
RECURSIVE Joined(_)
Joined(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<Slash>> \o Joined(Tail(cs))
\* components may contain slashes themselves
RECURSIVE Parts(_)
Parts(cs) == IF cs = <<>> THEN <<>> ELSE Split(Head(cs)) \o Parts(Tail(cs))

\* lexical cleaning of an absolute path
RECURSIVE CleanAbs(_, _)
CleanAbs(done, cs) ==
    IF cs = <<>> THEN done
    ELSE IF Head(cs) \in {<<>>, Dot} THEN CleanAbs(done, Tail(cs))
    ELSE IF Head(cs) = DotDot THEN CleanAbs(IF done = <<>> THEN done ELSE Front(done), Tail(cs))
    ELSE CleanAbs(Append(done, Head(cs)), Tail(cs))
\* and of a relative one
RECURSIVE CleanRel(_, _)
CleanRel(done, cs) ==
    IF cs = <<>> THEN done
    ELSE IF Head(cs) \in {<<>>, Dot} THEN CleanRel(done, Tail(cs))
    ELSE IF Head(cs) = DotDot /\ done # <<>> /\ Last(done) # DotDot THEN CleanRel(Front(done), Tail(cs))
    ELSE CleanRel(Append(done, Head(cs)), Tail(cs))
RelString(cs) == IF cs = <<>> THEN Dot ELSE Joined(cs)
AbsString(cs) == <<Slash>> \o Joined(cs)

FullPath(root, cwd, p) == IF p.abs THEN CleanAbs(<<>>, root \o Parts(p.c)) ELSE CleanAbs(<<>>, cwd \o Parts(p.c))

\* --- the tree: fs maps the paths below root to "dir", "file" or a link's argument ---------------
\* Where a path leads, links followed: <<kind, path>>, kind one of dir, file, none, outside
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, root, at, cs, fuel) ==
    IF fuel = 0 THEN <<"none", at>>
    ELSE IF cs = <<>> THEN <<IF at \in DOMAIN fs THEN fs[at].kind ELSE IF IsPre(at, root) THEN "dir" ELSE "outside", at>>
    ELSE LET c == Head(cs) IN
         IF c \in {<<>>, Dot} THEN Walk(fs, root, at, Tail(cs), fuel - 1)
         ELSE IF c = DotDot THEN Walk(fs, root, IF at = <<>> THEN at ELSE Front(at), Tail(cs), fuel - 1)
         ELSE LET next == Append(at, c) IN
              IF IsPre(next, root) THEN Walk(fs, root, next, Tail(cs), fuel - 1)
              ELSE IF ~IsPre(root, next) THEN <<"outside", next>>
              ELSE IF next \notin DOMAIN fs THEN <<"none", next>>
              ELSE IF fs[next].kind = "dir" THEN Walk(fs, root, next, Tail(cs), fuel - 1)
              ELSE IF fs[next].kind = "link"
              THEN IF fs[next].to.abs THEN Walk(fs, root, <<>>, root \o Parts(fs[next].to.c) \o Tail(cs), fuel - 1)
                   ELSE Walk(fs, root, at, Parts(fs[next].to.c) \o Tail(cs), fuel - 1)
              ELSE IF Tail(cs) = <<>> THEN <<"file", next>> ELSE <<"none", next>>
Leads(fs, root, cs) == Walk(fs, root, <<>>, cs, 200)

\* --- what resolving gives ---------------------------------------------------------------------
LastDot(s) == IF \E i \in DOMAIN s : s[i] = 46 THEN CHOOSE i \in DOMAIN s : s[i] = 46 /\ \A j \in (i + 1)..Len(s) : s[j] # 46
              ELSE Len(s) + 1
Stem(s) == SubSeq(s, 1, LastDot(s) - 1)
Ext(s) == SubSeq(s, LastDot(s), Len(s))
DirString(cs) == IF Len(cs) = 1 THEN <<Slash>> ELSE AbsString(Front(cs)) \o <<Slash>>

\* --- data locations ------------------------------------------------------------------------------
DataDir == <<46, 100, 97, 116, 97>>     \* .data
DomainPath(d) == CleanRel(<<>>, <<DataDir>> \o Parts(d))
FileOf(d, f) == CleanRel(<<>>, DomainPath(d) \o Parts(f))

\* a loader keeps its files in the directory it was given, or else in its domain's
Loaders == <<111, 112, 101, 110, 99, 111, 114, 112, 111, 114, 97>>     \* opencorpora
Empty(p) == ~p.abs /\ ~p.slash /\ \A i \in DOMAIN p.c : p.c[i] = <<>> /\ Len(p.c) <= 1
LoaderParts(p) == IF Empty(p) THEN DomainPath(<<Loaders>>) ELSE Parts(p.c)
\* the string a loader tells
LoaderDir(root, p) == IF p.abs THEN AbsString(CleanAbs(<<>>, root \o Parts(p.c))) ELSE RelString(CleanRel(<<>>, LoaderParts(p)))
LoaderHas(fs, root, cwd, p, name) ==
    LET at == IF p.abs THEN CleanAbs(<<>>, root \o Parts(p.c)) ELSE cwd \o CleanRel(<<>>, LoaderParts(p))
    IN  Leads(fs, root, Append(at, name))[1]

\* --- creating a directory with its parents -------------------------------------------------------
\* <<ok, fs>>
RECURSIVE MkAll(_, _, _, _)
MkAll(fs, root, at, cs) ==
    IF cs = <<>> THEN <<TRUE, fs>>
    ELSE LET next == Append(at, Head(cs))
             w == Leads(fs, root, next)
         IN  IF w[1] = "dir" THEN MkAll(fs, root, w[2], Tail(cs))
             ELSE IF w[1] = "none" /\ next \notin DOMAIN fs
             THEN MkAll((next :> [kind |-> "dir"]) @@ fs, root, next, Tail(cs))
             ELSE <<FALSE, fs>>

\* every entry's parent is a directory
TreeOK(fs, root) == \A p \in DOMAIN fs : IsPre(root, p) /\ p # root /\ (Front(p) = root \/ (Front(p) \in DOMAIN fs /\ fs[Front(p)].kind = "dir"))
=============================================================================
