------------------------------ MODULE MCCompile ------------------------------
(***************************************************************************)
(* Small documents, every way of writing them down, at most one defect:    *)
(* the machine of Compile.tla gives what the document means or refuses,    *)
(* and the compiled file is replaced only by a complete one.               *)
(***************************************************************************)
EXTENDS Compile, Json
CONSTANTS MaxMisc, Mode
NoFile == [ok |-> FALSE, d |-> EmptyDict, old |-> FALSE]
OldFile == [ok |-> TRUE, d |-> EmptyDict, old |-> TRUE]

A == <<65, 65, 65, 65>>
B == <<66, 66, 66, 66>>
Long == <<67, 67, 67, 67, 67>>
W1 == <<97>>
W2 == <<97, 98>>
Grams == {<<>>, <<[n |-> A, p |-> <<>>]>>, <<[n |-> A, p |-> <<>>], [n |-> B, p |-> A]>>, <<[n |-> B, p |-> A], [n |-> A, p |-> <<>>], [n |-> B, p |-> <<>>]>>,
          <<[n |-> Long, p |-> <<>>]>>}
Forms == {[w |-> W1, g |-> <<>>], [w |-> W1, g |-> <<B>>], [w |-> W2, g |-> <<B>>], [w |-> <<>>, g |-> <<>>]}
Lemmas == {[g |-> g, fs |-> fs] : g \in {<<>>, <<A>>, <<A, B>>}, fs \in {<<>>} \cup {<<f>> : f \in Forms} \cup {<<f, h>> : f \in Forms, h \in Forms}}
Docs == {[grams |-> g, lemmas |-> ls] : g \in Grams, ls \in {<<>>} \cup {<<x>> : x \in Lemmas}}
        \cup {[grams |-> <<[n |-> A, p |-> <<>>], [n |-> B, p |-> A]>>, lemmas |-> <<x, y>>] :
                 x \in {z \in Lemmas : Len(z.fs) <= 1}, y \in {z \in Lemmas : Len(z.fs) = 1}}
Lim0 == [name |-> 4, tags |-> 255, size |-> 255, sets |-> 65535, vars |-> 255]

\* --- writing down ------------------------------------------------------------
S(e, a) == [k |-> "s", e |-> e, a |-> a]
E == [k |-> "e"]
No == [x \in {} |-> 0]
GTok(n) == <<S("g", [v |-> n]), E>>
Gs(ns) == FoldLeft(LAMBDA a, n : a \o GTok(n), <<>>, ns)
TokGram(g, split) == <<S("grammeme", [parent |-> g.p]), S("name", No)>>
                     \o (IF split /\ Len(g.n) > 1 THEN <<[k |-> "t", s |-> <<g.n[1]>>], [k |-> "m"], [k |-> "t", s |-> Tail(g.n)]>>
                         ELSE <<[k |-> "t", s |-> g.n]>>) \o <<E, E>>
TokForm(f) == <<S("f", [t |-> f.w])>> \o Gs(f.g) \o <<E>>
TokL(l) == <<S("l", [t |-> W1])>> \o Gs(l.g) \o <<E>>
TokFs(l) == FoldLeft(LAMBDA a, f : a \o TokForm(f), <<>>, l.fs)
TokLemma(l, lfirst) == <<S("lemma", [id |-> <<49>>, rev |-> <<49>>])>> \o (IF lfirst THEN TokL(l) \o TokFs(l) ELSE TokFs(l) \o TokL(l)) \o <<E>>
Toks(doc, split, lfirst, extra) ==
    <<S("dictionary", No), S("grammemes", No)>> \o FoldLeft(LAMBDA a, g : a \o TokGram(g, split), <<>>, doc.grams) \o <<E>>
    \o (IF extra THEN <<S("restrictions", No), S("restr", No), E, E>> ELSE <<>>)
    \o <<S("lemmata", No)>> \o FoldLeft(LAMBDA a, l : a \o TokLemma(l, lfirst), <<>>, doc.lemmas) \o <<E>>
    \o (IF extra THEN <<S("links", No), S("link", No), E, E>> ELSE <<>>) \o <<E>>

\* --- the run -----------------------------------------------------------------
VARIABLES doc, todo, p, misc, defect, cfile, was, read
vars == <<doc, todo, p, misc, defect, cfile, was, read>>
Init == /\ doc \in Docs
        /\ \E split, lfirst, extra \in BOOLEAN : todo = Toks(doc, split, lfirst, extra)
        /\ p = Start /\ misc = 0 /\ defect = "none" /\ read = <<>>
        /\ was \in {NoFile, OldFile} /\ cfile = was
Log(t) == read' = (IF Mode = "gen" THEN Append(read, t) ELSE read)
Feed == /\ todo # <<>> /\ p' = Step(p, Head(todo)) /\ todo' = Tail(todo) /\ Log(Head(todo))
        /\ UNCHANGED <<doc, misc, defect, cfile, was>>
\* in random scripts such things come rarely, so that most of the document is read
Rare(n) == IF Mode = "check" THEN TRUE ELSE RandomElement(1..n) = 1
Misc == /\ Rare(10) /\ misc < MaxMisc /\ todo # <<>> /\ misc' = misc + 1
        /\ \E t \in {[k |-> "m"], [k |-> "t", s |-> <<32>>]} :
              /\ (IF t.k = "t" /\ p.path # <<>> THEN Last(p.path) # "name" ELSE TRUE)
              /\ p' = Step(p, t) /\ Log(t)
        /\ UNCHANGED <<doc, todo, defect, cfile, was>>
\* one defect, anywhere
Cut == Rare(40) /\ defect = "none" /\ todo # <<>> /\ todo' = <<>> /\ defect' = "cut" /\ UNCHANGED <<doc, p, misc, cfile, was, read>>
Broken == /\ Rare(40) /\ defect = "none" /\ todo # <<>> /\ defect' = "broken" /\ p' = Step(p, [k |-> "x"]) /\ todo' = <<>> /\ Log([k |-> "x"])
          /\ UNCHANGED <<doc, misc, cfile, was>>
Unexpected == /\ Rare(40) /\ defect = "none" /\ todo # <<>> /\ defect' = "unexpected"
              /\ \E e \in {"other", "lemma", "g", "name"} :
                   /\ Append(p.path, e) \notin Known
                   /\ todo' = <<S(e, [id |-> <<49>>, rev |-> <<49>>, v |-> A, parent |-> <<>>, t |-> W1]), E>> \o todo
              /\ UNCHANGED <<doc, p, misc, cfile, was, read>>
NoAttr == /\ Rare(20) /\ defect = "none" /\ todo # <<>> /\ Head(todo).k = "s" /\ defect' = "attribute"
          /\ \E x \in Needs(Append(p.path, Head(todo).e)) :
               todo' = <<[Head(todo) EXCEPT !.a = [y \in DOMAIN Head(todo).a \ {x} |-> Head(todo).a[y]]]>> \o Tail(todo)
          /\ UNCHANGED <<doc, p, misc, cfile, was, read>>
\* a number that is none
NoNumber == /\ Rare(20) /\ defect = "none" /\ todo # <<>> /\ Head(todo).k = "s" /\ defect' = "number"
            /\ \E x \in {"id", "rev", "version", "revision"}, v \in {<<>>, <<97>>, <<49, 97>>, <<45>>, <<49, 32, 49>>} :
                 /\ x \in {"version", "revision"} => p.path = <<>> /\ Head(todo).e = "dictionary"
                 /\ x \in {"id", "rev"} => x \in DOMAIN Head(todo).a /\ Append(p.path, Head(todo).e) = Lemma
                 /\ todo' = <<[Head(todo) EXCEPT !.a = (x :> v) @@ @]>> \o Tail(todo)
            /\ UNCHANGED <<doc, p, misc, cfile, was, read>>
Write == LET r == Finish(p, Lim0) IN
         /\ todo = <<>> /\ misc # MaxMisc + 1 /\ misc' = MaxMisc + 1     \* once
         /\ cfile' = (IF r.ok THEN [ok |-> TRUE, d |-> r.d, old |-> FALSE] ELSE cfile)
         /\ UNCHANGED <<doc, todo, p, defect, was, read>>
Next == Feed \/ Misc \/ Cut \/ Broken \/ Unexpected \/ NoAttr \/ NoNumber \/ Write
Spec == Init /\ [][Next]_vars
Over == misc = MaxMisc + 1
Right == Over => (IF defect = "none" /\ DocGood(doc, Lim0)
                  THEN cfile = [ok |-> TRUE, d |-> DocDict(doc), old |-> FALSE]
                  ELSE cfile = was)
Whole == cfile = was \/ (cfile.ok /\ ~cfile.old /\ DictOK(cfile.d) /\ Representable(cfile.d, Lim0))
\* what the machine read, for test generation
EmitC == (misc' = MaxMisc + 1) => PrintT(ToJson(read))
=============================================================================
