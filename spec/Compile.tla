------------------------------- MODULE Compile -------------------------------
(***************************************************************************)
(* Compiling a dictionary document, token by token.  A document is what an *)
(* XML reader makes of it:                                                 *)
(*   [k |-> "s", e |-> element, a |-> attributes]   element begins         *)
(*   [k |-> "e"]                                    innermost element ends *)
(*   [k |-> "t", s |-> text]                        a portion of text      *)
(*   [k |-> "m"]                                    comment and the like   *)
(*   [k |-> "x"]                                    not well-formed here   *)
(* DocDict says what a document means; Step is the machine that reads it.  *)
(***************************************************************************)
EXTENDS Dict, SequencesExt

\* --- meaning ----------------------------------------------------------------
\* doc == [grams |-> seq of [n, p], lemmas |-> seq of [g |-> names, fs |-> seq of [w, g]]]
DictOfForm(d, l, f) == DoAttach(DoAdd(d, f.w), f.w, l.g \o f.g)
DictOfLemma(d, l) == FoldLeft(LAMBDA a, f : DictOfForm(a, l, f), d, l.fs)
DocDict(doc) == FoldLeft(DictOfLemma, FoldLeft(LAMBDA a, g : DoTag(a, g.n, g.p), EmptyDict, doc.grams), doc.lemmas)
\* every tag is declared, every form has letters, and everything fits into a file
DocGood(doc, lim) ==
    LET names == {doc.grams[i].n : i \in DOMAIN doc.grams} IN
    /\ \A i \in DOMAIN doc.lemmas : LET l == doc.lemmas[i] IN
          /\ l.fs # <<>> => Rng(l.g) \subseteq names
          /\ \A j \in DOMAIN l.fs : l.fs[j].w # <<>> /\ Rng(l.fs[j].g) \subseteq names
    /\ Representable(DocDict(doc), lim)

\* --- reading ----------------------------------------------------------------
D == <<"dictionary">>
Gram == <<"dictionary", "grammemes", "grammeme">>
Lemma == <<"dictionary", "lemmata", "lemma">>
Known == {D, <<"dictionary", "grammemes">>, Gram, Append(Gram, "name"), Append(Gram, "alias"), Append(Gram, "description"),
          <<"dictionary", "restrictions">>, <<"dictionary", "restrictions", "restr">>,
          <<"dictionary", "restrictions", "restr", "left">>, <<"dictionary", "restrictions", "restr", "right">>,
          <<"dictionary", "lemmata">>, Lemma, Append(Lemma, "l"), Append(Lemma, "l") \o <<"g">>,
          Append(Lemma, "f"), Append(Lemma, "f") \o <<"g">>,
          <<"dictionary", "link_types">>, <<"dictionary", "link_types", "type">>,
          <<"dictionary", "links">>, <<"dictionary", "links", "link">>}
Needs(path) == CASE path = Gram -> {"parent"}
                 [] path = Lemma -> {"id", "rev"}
                 [] path = Append(Lemma, "l") \/ path = Append(Lemma, "f") -> {"t"}
                 [] path = Append(Lemma, "l") \o <<"g">> \/ path = Append(Lemma, "f") \o <<"g">> -> {"v"}
                 [] OTHER -> {}

\* what is written as a number, and what may be taken for one
Digits == 48..57
Numeral(s) == s # <<>> /\ Rng(s) \subseteq Digits
Decimal(s) == \E i \in 0..Len(s) : LET whole == SubSeq(s, 1, i)  rest == SubSeq(s, i + 1, Len(s)) IN
                 Numeral(whole) /\ (rest = <<>> \/ (Head(rest) = 46 /\ Numeral(Tail(rest))))
NumbersOK(path, a) == CASE path = D -> /\ "version" \in DOMAIN a => Decimal(a.version)
                                       /\ "revision" \in DOMAIN a => Numeral(a.revision)
                        [] path = Lemma -> Numeral(a.id) /\ Numeral(a.rev)
                        [] OTHER -> TRUE

NoForm == [w |-> <<>>, g |-> <<>>]
Start == [st |-> "run", path |-> <<>>, seen |-> FALSE, d |-> EmptyDict, name |-> <<>>, parent |-> <<>>,
          lg |-> <<>>, fs |-> <<>>, f |-> NoForm]
Refuse(p) == [p EXCEPT !.st = "refused"]

Begin(p, e, a) ==
    LET path == Append(p.path, e)
        q == [p EXCEPT !.path = path]
    IN  IF path \notin Known \/ ~(Needs(path) \subseteq DOMAIN a) THEN Refuse(p)
        ELSE IF ~NumbersOK(path, a) THEN Refuse(p)
        ELSE CASE path = Gram -> [q EXCEPT !.name = <<>>, !.parent = a.parent]
               [] path = Lemma -> [q EXCEPT !.lg = <<>>, !.fs = <<>>]
               [] path = Append(Lemma, "f") -> [q EXCEPT !.f = [w |-> a.t, g |-> <<>>]]
               [] path = Append(Lemma, "l") \o <<"g">> -> [q EXCEPT !.lg = Append(@, a.v)]
               [] path = Append(Lemma, "f") \o <<"g">> -> [q EXCEPT !.f.g = Append(@, a.v)]
               [] OTHER -> q
\* a lemma is indexed when it ends, whatever the order of its parts
Indexed(p) == LET ok(d, f) == f.w # <<>> /\ Attachable(d, p.lg \o f.g)
              IN  FoldLeft(LAMBDA q, f : IF q.st = "run" /\ ok(q.d, f) THEN [q EXCEPT !.d = DictOfForm(@, [g |-> p.lg], f)]
                                         ELSE Refuse(q), p, p.fs)
End(p) ==
    IF p.path = <<>> THEN Refuse(p)
    ELSE LET q == [p EXCEPT !.path = Front(@)] IN
         CASE p.path = D -> [q EXCEPT !.seen = TRUE]
           [] p.path = Gram -> [q EXCEPT !.d = DoTag(@, p.name, p.parent)]
           [] p.path = Append(Lemma, "f") -> [q EXCEPT !.fs = Append(@, p.f)]
           [] p.path = Lemma -> Indexed(q)
           [] OTHER -> q
Step(p, tok) ==
    IF p.st # "run" THEN p
    ELSE CASE tok.k = "s" -> Begin(p, tok.e, tok.a)
           [] tok.k = "e" -> End(p)
           [] tok.k = "t" -> IF p.path = Append(Gram, "name") THEN [p EXCEPT !.name = @ \o tok.s] ELSE p
           [] tok.k = "m" -> p
           [] OTHER -> Refuse(p)
\* the end of the document
Finish(p, lim) == IF p.st = "run" /\ p.path = <<>> /\ p.seen /\ Representable(p.d, lim)
                  THEN [ok |-> TRUE, d |-> p.d] ELSE [ok |-> FALSE, d |-> EmptyDict]
Compiled(toks, lim) == Finish(FoldLeft(Step, Start, toks), lim)
=============================================================================
