----------------------------- MODULE TraceIndex -----------------------------
(***************************************************************************)
(* Replays recorded executions of the real index against DictSystem.       *)
(* Every line of the trace is a call with its observation.  The abstract   *)
(* state is stepped by DictSystem's own actions; what was observed must be *)
(* what the abstract state implies.  An observation that is not explained  *)
(* is printed as REJECTED with the properties it breaks; the episode goes  *)
(* on as long as the abstract state is still known.                        *)
(***************************************************************************)
EXTENDS DictSystem, Steps, Format, Compile, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

T == INSTANCE Text
TraceLim == [name |-> 4, tags |-> 255, size |-> 255, sets |-> 65535, vars |-> 255]

VARIABLES l,      \* next line
          known,  \* handle -> identifiers of words seen so far
          meta,   \* file -> what is known of it
          hst,    \* handle -> how it came about
          clean,  \* nothing was rejected in this episode so far
          chain,  \* handle, file -> what identifiers of tag sets and combinations were seen to stand for
          prints  \* in episodes that ask for it: the effective steps behind each handle and file, and what they were saved as
tvars == <<idx, file, l, known, meta, hst, clean, chain, prints>>

NoMany == [ws |-> <<>>, ids |-> <<>>]     \* many words added at once, and their identifiers
NoMeta == [many |-> NoMany, ok |-> FALSE, len |-> 0, bytes |-> <<>>, known |-> <<>>, taint |-> FALSE, doc |-> {}]
Fresh == [many |-> NoMany, dead |-> FALSE, loaded |-> FALSE, golden |-> FALSE, compacted |-> FALSE, tight |-> FALSE,
          taint |-> FALSE, from |-> "", len |-> 0, par |-> FALSE, doc |-> {}]

\* --- pieces of observations ------------------------------------------------
F(ev, key, def) == IF key \in DOMAIN ev THEN ev[key] ELSE def
ObsTag(t) == [n |-> t[1], p |-> t[2]]
ObsBag(s) == BagOf([i \in DOMAIN s |-> ObsTag(s[i])])
ObsBags(ss) == {ObsBag(ss[i]) : i \in DOMAIN ss}
SetsOK(d, w, ss) == LET want == TagSetsOf(d, w) IN Len(ss) = Cardinality(want) /\ ObsBags(ss) = want
IdOK(k, w, id) == /\ id >= 1
                  /\ IF w \in DOMAIN k THEN k[w] = id ELSE \A x \in DOMAIN k : k[x] # id
Learn(k, w, id) == IF w \in DOMAIN k THEN k ELSE (w :> id) @@ k

\* A failed check is a pair <<properties, text>>; ones that hold give no pair.
If(ok, props, text) == IF ok THEN {} ELSE {<<props, text>>}

\* properties concerned when handle h no longer says what it should
Also(x) == (IF x.loaded /\ ~x.golden /\ ~x.taint THEN {"C03"} ELSE {})
           \cup (IF x.golden /\ ~x.taint THEN {"C18"} ELSE {})
           \cup (IF x.compacted /\ ~x.taint THEN {"C05"} ELSE {})
           \cup (IF x.par /\ clean THEN {"C12"} ELSE {})
           \cup x.doc   \* the compiled dictionary: {"C14"}, or {"C15"} after a document was refused

DumpChecks(d, k, x, o) ==
    IF o.res # "ok" THEN {<<{"C01", "C02"} \cup Also(x), "walk failed">>}
    ELSE LET ns == o.nodes
             listed == {ns[i][1] : i \in DOMAIN ns}
             ids == {ns[i][2] : i \in DOMAIN ns}
         IN  UNION {
               If(listed = d.nodes /\ Len(ns) = Cardinality(listed), {"C02"} \cup Also(x), "enumerated words"),
               If(Cardinality(ids) = Len(ns) /\ \A i \in DOMAIN ns : ns[i][2] >= 1 /\ ns[i][2] <= o.nc, {"C02"} \cup Also(x), "identifiers distinct"),
               If(\A i \in DOMAIN ns : ns[i][1] \in DOMAIN k => k[ns[i][1]] = ns[i][2], {"C02"} \cup Also(x), "identifiers stable"),
               If(\A i \in DOMAIN ns : ns[i][3] = TextOf(ns[i][1]), {"C02"} \cup Also(x), "node text"),
               If(\A i \in DOMAIN ns : SetsOK(d, ns[i][1], ns[i][4]), {"C01"} \cup Also(x), "tag sets"),
               If(\A i \in DOMAIN ns : ns[i][5] = ns[i][2] /\ ns[i][6] = ns[i][2], {"C01"} \cup Also(x), "found by lookup"),
               If(\A i \in DOMAIN ns : ns[i][7] = TextOf(ns[i][1]) /\ ns[i][8] = ns[i][2], {"C02"} \cup Also(x), "found by identifier"),
               If(\A i \in DOMAIN ns : /\ ns[i][9] = ns[i][12] /\ ns[i][10] = ns[i][1][Len(ns[i][1])]
                                       /\ ns[i][11] = ns[i][2], {"C02"} \cup Also(x), "node details"),
               If(o.nc = NodesCount(d), {"C02"} \cup Also(x), "node count"),
               If(o.wc = WordsCount(d), {"C02"} \cup Also(x), "word count"),
               If([i \in DOMAIN o.tags |-> ObsTag(o.tags[i])] = d.tags, {"C07"} \cup Also(x), "tags"),
               If(o.over = <<>>, {"C02", "C22"}, "identifiers beyond the last"),
               If(o.root = [id |-> 0, w |-> <<>>, sets |-> 0, attach |-> "err"], {"C02"} \cup Also(x), "the root"),
               If(\A i \in DOMAIN o.probes : LET w == o.probes[i][1] IN
                     o.probes[i][2] = (IF w \in d.nodes THEN 7 ELSE 0), {"C01"} \cup Also(x), "absent words") }
DumpIds(k, o) == IF o.res # "ok" THEN k
                 ELSE LET ps == {<<o.nodes[i][1], o.nodes[i][2]>> : i \in DOMAIN o.nodes}
                          ws == {p[1] : p \in ps}
                      IN  [w \in ws |-> (CHOOSE p \in ps : p[1] = w)[2]] @@ k

Named(ev) == ev.tags
\* --- effective steps ----------------------------------------------------------
\* What made an index what it is, leaving out whatever has no effect: lookups, refused calls, names, nodes and
\* tag sets that were there already. Indexes that came about by the same effective steps are saved to the same
\* bytes.
NoPrints == [on |-> FALSE, h |-> [h \in Handles |-> <<>>], f |-> [f \in Files |-> <<>>], seen |-> <<>>]
Opaque(did) == Append(did, <<"?", l>>)          \* never equal to any other
StepsAfter(ev, d, did) ==
    LET op == ev.op  res == F(ev, "res", "none") IN
    CASE op = "tag" /\ res = "ok" -> did \o TagSteps(d, ev.n, ev.p)
      [] op = "add" /\ res = "ok" -> did \o NodeSteps(d, ev.w)
      [] op = "addto" /\ res = "ok" -> did \o NodeSteps(d, F(ev, "p", <<>>) \o ev.w)
      [] op = "attach" /\ res \in {"ok", "err"} ->
            LET nodes == IF F(ev, "via", "") = "add" THEN NodeSteps(d, ev.w) ELSE <<>>
            IN  did \o nodes \o (IF res = "ok" /\ Attachable(d, Named(ev)) THEN AttachSteps(d, ev.w, Named(ev)) ELSE <<>>)
      [] op = "opt" -> CompactSteps(did)
      [] op \in {"tagall", "addall", "attachall"} \/ res \in {"panic", "hang", "died"} -> Opaque(did)
      [] OTHER -> did
\* what a document makes of an empty index, in order
DocStep(acc, tok) ==
    LET p == acc[1]  q == Step(p, tok)
        forms == [i \in DOMAIN p.fs |-> <<"f", p.fs[i].w, IdsOf(p.d, p.lg \o p.fs[i].g)>>]
    IN  IF p.st # "run" \/ q.st # "run" \/ tok.k # "e" THEN <<q, acc[2]>>
        ELSE <<q, acc[2] \o (IF p.path = Gram THEN TagSteps(p.d, p.name, p.parent) ELSE IF p.path = Lemma THEN forms ELSE <<>>)>>
DocSteps(toks) == << <<"c">> >> \o FoldLeft(DocStep, <<Start, <<>>>>, toks)[2]

SavedAs(did, ev) == IF ~prints.on \/ ev.res # "ok" THEN {}
                    ELSE If(\A i \in DOMAIN prints.seen : prints.seen[i][1] = did => prints.seen[i][2] = ev.sum,
                            {"C21"}, "same steps, different file")
Seen(pr, did, ev) == [pr EXCEPT !.seen = Append(@, <<did, ev.sum>>)]
PrintsAfter(ev) ==
    LET op == ev.op
        h == F(ev, "h", "")
        ok == F(ev, "res", "none") = "ok"
    IN
    CASE op = "new" -> [prints EXCEPT !.h[h] = <<>>]
      [] op = "save" /\ ok -> Seen([prints EXCEPT !.f[ev.f] = IF Stored(idx[h]) = idx[h] THEN prints.h[h] ELSE Append(prints.h[h], <<"l">>)],
                                  prints.h[h], ev)
      [] op = "load" /\ ok -> [prints EXCEPT !.h[h] = prints.f[ev.f]]
      [] op = "loadbytes" /\ ok -> [prints EXCEPT !.h[h] = << <<"b", ev.bytes>> >>]
      [] op = "compile" /\ ok -> Seen([prints EXCEPT !.f["c"] = DocSteps(ev.toks)], DocSteps(ev.toks), ev)
      [] op = "loadindex" /\ ok -> [prints EXCEPT !.h[h] = prints.f["c"]]
      [] op \in {"tag", "add", "addto", "attach", "opt", "tagall", "addall", "attachall"} ->
            [prints EXCEPT !.h[h] = StepsAfter(ev, idx[h], @)]
      [] OTHER -> prints

\* --- identifiers ------------------------------------------------------------------
\* What a "chain" observation says: s, tag set identifier -> bag of tag numbers; v, combination identifier -> set
\* of tag set identifiers; canon, whether the content came about by calls alone (files may hold what is not used).
NoChain == [s |-> <<>>, v |-> <<>>, canon |-> TRUE]
ChainS(o) == LET ps == {<<o.sets[i][1], BagOf(o.sets[i][3])>> : i \in DOMAIN o.sets}
                 is == {p[1] : p \in ps}
             IN  [i \in is |-> (CHOOSE p \in ps : p[1] = i)[2]]
ChainV(o) == LET ps == {<<o.combos[i][1], Rng(o.combos[i][2])>> : i \in DOMAIN o.combos}
                 is == {p[1] : p \in ps}
             IN  [i \in is |-> (CHOOSE p \in ps : p[1] = i)[2]]
Agree(f, g) == \A i \in DOMAIN f : i \in DOMAIN g /\ f[i] = g[i]
ChainChecks(d, c, x, o) ==
    IF o.res # "ok" THEN {<<{"C22"}, "following identifiers failed">>}
    ELSE LET ss == o.sets
             ns == o.nodes
             cs == o.combos
             s == ChainS(o)
             v == ChainV(o)
             listed == DOMAIN s
             bags == {s[i] : i \in listed}
             tagged(b) == LET ts == {d.tags[n + 1] : n \in DOMAIN b} IN [g \in ts |-> b[TagIdOf(d, g.n)]]
             okbags == \A b \in bags : \A n \in DOMAIN b : n < Len(d.tags)
             stood == {tagged(b) : b \in bags}
             used == {ns[i][2] : i \in DOMAIN ns}
             P == {"C22"}
             also == P \cup Also(x)
         IN  UNION {
               If(Cardinality(listed) = Len(ss) /\ \A i \in DOMAIN ss : ss[i][2], P, "tag sets listed once and found"),
               If(o.size = Len(ss), P, "number of tag sets"),
               If(okbags /\ \A i \in DOMAIN ss : ss[i][4] /\ [k \in DOMAIN ss[i][5] |-> ObsTag(ss[i][5][k])]
                                                          = [k \in DOMAIN ss[i][3] |-> d.tags[ss[i][3][k] + 1]], P, "tags of a listed tag set"),
               If(Rng(o.found) = listed, P, "tag set found by an identifier not listed"),
               If(o.over = <<>>, {"C02", "C22"}, "nodes beyond the last"),
               If(Rng(o.good) = {n \in 0..255 : n < Len(d.tags)}, P, "tag identifiers accepted"),
               If(okbags => (IF c.canon THEN stood = AllTagSets(d) /\ Cardinality(bags) = Len(ss) ELSE AllTagSets(d) \subseteq stood),
                  also, "tag sets stored"),
               If({ns[i][1] : i \in DOMAIN ns} = d.nodes /\ Len(ns) = Cardinality(d.nodes), {"C02", "C22"} \cup Also(x), "enumerated words"),
               If(\A i \in DOMAIN ns : /\ ns[i][3] /\ (ns[i][2] = <<0, 0>>) = (ns[i][4] = <<>>)
                                       /\ Rng(ns[i][4]) \subseteq listed /\ Cardinality(Rng(ns[i][4])) = Len(ns[i][4])
                                       /\ okbags => {tagged(s[k]) : k \in Rng(ns[i][4])} = TagSetsOf(d, ns[i][1]), also, "tag sets behind a node's combination"),
               If(c.canon => Cardinality({Rng(ns[i][4]) : i \in DOMAIN ns}) = Cardinality(used), P, "one identifier for each combination"),
               If(\A i \in DOMAIN cs : /\ cs[i][1] \in used \/ cs[i][1] = <<0, 0>> \/ cs[i][2] # <<>>
                                       /\ Rng(cs[i][2]) \subseteq listed, P, "combination found by an identifier of none"),
               If(c.canon => Cardinality({Rng(cs[i][2]) : i \in DOMAIN cs}) = Len(cs), P, "combination found by two identifiers"),
               If(x.tight => {cs[i][1] : i \in DOMAIN cs} \subseteq used \cup {<<0, 0>>}, {"C05", "C22"}, "unused combination after compaction"),
               If(Agree(c.s, s), also, "identifier of a tag set stands for another"),
               If(Agree([i \in {i \in DOMAIN c.v : i[1] <= o.span[1] /\ i[2] <= o.span[2]} |-> c.v[i]], v), also, "identifier of a combination stands for another") }
ChainAfter(ev) ==
    LET op == ev.op
        h == F(ev, "h", "")
        ok == F(ev, "res", "none") = "ok"
    IN
    CASE op = "new" -> [chain EXCEPT !.h[h] = NoChain]
      [] op = "chain" /\ ok -> [chain EXCEPT !.h[h].s = ChainS(ev) @@ @, !.h[h].v = ChainV(ev) @@ @]
      [] op = "opt" -> [chain EXCEPT !.h[h].v = <<>>]
      [] op = "save" /\ ok -> [chain EXCEPT !.f[ev.f] = chain.h[h]]
      [] op = "load" /\ ok -> [chain EXCEPT !.h[h] = chain.f[ev.f]]
      [] op = "loadbytes" -> [chain EXCEPT !.h[h] = [NoChain EXCEPT !.canon = FALSE]]
      [] op = "compile" /\ ok -> [chain EXCEPT !.f["c"] = NoChain]
      [] op = "loadindex" -> [chain EXCEPT !.h[h] = chain.f["c"]]
      [] OTHER -> chain
NoChains == [h |-> [h \in Handles |-> NoChain], f |-> [f \in Files |-> NoChain]]

AttachTo(d, ev) == IF F(ev, "via", "") = "add" /\ ev.w # <<>> THEN DoAdd(d, ev.w) ELSE d

\* --- what must have been observed ---------------------------------------------
RECURSIVE Checks(_)
Checks(ev) ==
    LET op == ev.op
        h == F(ev, "h", "")
        d == idx[h]
        x == hst[h]
        also == Also(x)
        res == F(ev, "res", "none")
    IN
    CASE "raw" \in DOMAIN ev /\ ~Assert(T!LettersOf(ev.raw) = ev.w, <<"text", ev>>) -> {}
      [] op = "tag" ->
            LET full == ev.n \notin KnownNames(d) /\ Len(d.tags) > Lim.tags
            IN  IF full THEN If(res \in {"panic", "err"}, {"C06", "C07"}, "tag identifier overflow accepted")
                ELSE If(res = "ok", {"C07", "C06"} \cup also, "tag refused")
                     \cup If(res = "ok" => ev.id = TagIdOf(DoTag(d, ev.n, ev.p), ev.n), {"C07"} \cup also, "tag identifier")
      [] op = "tagall" ->
            LET all == FoldLeft(LAMBDA a, n : DoTag(a, n, ev.p), d, ev.ns)
            IN  If(res = "ok", {"C07", "C06"} \cup also, "tags refused")
                \cup If(res = "ok" => ev.ids = [i \in DOMAIN ev.ns |-> TagIdOf(all, ev.ns[i])], {"C07"} \cup also, "tag identifiers")
      [] op = "add" ->
            IF ev.w = <<>> THEN If(res = "err", {"C02"}, "empty word accepted")
            ELSE If(res = "ok", {"C01", "C02"} \cup also, "word refused")
                 \cup If(res = "ok" => ev.word = TextOf(ev.w), {"C02"} \cup also, "text of added node")
                 \cup If(res = "ok" => IdOK(known[h], ev.w, ev.id), {"C02"} \cup also, "identifier of added node")
      [] op = "addto" ->
            LET p == F(ev, "p", <<>>) IN
            IF "over" \in DOMAIN ev THEN If(res = "err", {"C02"}, "addition below a missing node")
            ELSE IF p # <<>> /\ p \notin d.nodes THEN If(res = "noparent", {"C01"} \cup also, "missing parent found")
            ELSE IF ev.w = <<>> THEN If(res = "err", {"C02"}, "empty word accepted")
            ELSE If(res = "ok", {"C01", "C02"} \cup also, "word refused")
                 \cup If(res = "ok" => ev.word = TextOf(p \o ev.w), {"C02"} \cup also, "text of added node")
                 \cup If(res = "ok" => IdOK(known[h], p \o ev.w, ev.id), {"C02"} \cup also, "identifier of added node")
      [] op = "attach" ->
            IF ev.w \notin AttachTo(d, ev).nodes THEN If(res \in {"nonode"}, {"C01"} \cup also, "missing word found")
            ELSE IF ~Attachable(d, Named(ev)) THEN If(res = "err", {"C01"} \cup also, "unknown tag accepted")
            ELSE If(res = "ok", {"C01"} \cup also, "tag set refused")
      [] op = "attachall" ->
            IF ev.w \notin d.nodes THEN If(res = "nonode", {"C01"}, "missing word found")
            ELSE If(res = "ok", {"C01", "C06"} \cup also, "tag sets refused")
      [] op = "addall" ->
            If(res = "ok", {"C01", "C02"} \cup also, "words refused")
            \cup If(res = "ok" => /\ Len(ev.ids) = Len(ev.ws) /\ Cardinality(Rng(ev.ids)) = Cardinality(Rng(ev.ws))
                                  /\ \A i \in DOMAIN ev.ids : ev.ids[i] >= 1, {"C02"} \cup also, "identifiers distinct")
            \cup If(res = "ok" /\ ev.ws = x.many.ws => ev.ids = x.many.ids, {"C02"} \cup also, "identifiers stable")
      [] op \in {"fetch", "path", "held"} ->
            IF ev.w \in d.nodes
            THEN If(res = "ok", {"C01"} \cup also, "word not found")
                 \cup If(res = "ok" => SetsOK(d, ev.w, ev.sets), {"C01"} \cup also, "tag sets")
                 \cup If(res = "ok" => ev.word = TextOf(ev.w), {"C02"} \cup also, "text of node")
                 \cup If(res = "ok" => IdOK(known[h], ev.w, ev.id), {"C02"} \cup also, "identifier of node")
            ELSE If(res = "err", {"C01"} \cup also, "absent word found")
      [] op = "opt" -> If(res = "ok", {"C05"}, "compaction failed")
      [] op = "save" -> SavedAs(prints.h[h], ev) \cup
            IF ~Representable(d, Lim) THEN If(res = "err", {"C06"} \cup also, "unrepresentable data saved")
            ELSE If(res = "ok", {"C03", "C06"} \cup also, "save failed")
                 \cup If(res = "ok" /\ x.compacted /\ x.len > 0 => ev.len <= x.len, {"C05"}, "larger after compaction")
                 \cup (IF res = "ok" /\ "bytes" \in DOMAIN ev
                       THEN LET img == Decode(ev.bytes) IN
                            IF ~img.ok \/ img.next # Len(ev.bytes) + 1 \/ Len(ev.bytes) # ev.len THEN {<<{"C18"} \cup also, "layout">>}
                            ELSE IF ~WellFormed(img) THEN {<<{"C18", "C03"} \cup also, "content of file is inconsistent">>}
                            ELSE If(Encode(img) = ev.bytes, {"C18"}, "encoding")
                                 \cup If(AbsImage(img) = Stored(d), {"C18", "C03"} \cup also, "content of file")
                                 \cup If(LET k == IdsOfImage(img) IN \A w \in DOMAIN known[h] : w \in DOMAIN k /\ known[h][w] = k[w],
                                         {"C18", "C02"} \cup also, "identifiers in file")
                                 \cup If(x.tight => StoredVars(img) = UsedVars(img), {"C05"}, "unused combinations stored after compaction")
                       ELSE {})
      [] op = "counts" ->
            If(res = "ok" /\ ev.nc = NodesCount(d) /\ ev.wc = WordsCount(d), {"C02"} \cup also, "counts")
            \cup If(res = "ok" /\ [i \in DOMAIN ev.tags |-> ObsTag(ev.tags[i])] = d.tags, {"C07"} \cup also, "tags")
      [] op = "par" ->
            \* what goroutines saw, side by side or (seq) one after another: each observation is judged as
            \* if it had been made alone. Once something was wrong without concurrency, nothing is said of it.
            LET all == UNION {Checks(ev.obs[i]) : i \in IF res = "ok" THEN DOMAIN ev.obs ELSE {}} IN
            IF F(ev, "seq", FALSE) THEN all \cup If(res = "ok", {"C01"}, "reading failed")
            ELSE IF ~clean THEN {}
            ELSE {<<{"C12"}, b[2]>> : b \in all} \cup If(res = "ok", {"C12"}, "reading at the same time failed")
      [] op = "resave" -> If(x.from = ev.f => res = "ok" /\ ev.same, (IF x.loaded THEN {"C03"} ELSE {}) \cup also, "saved again differently")
      [] op = "failsave" -> If((ev.after < 38 => res = "err") /\ F(ev, "quiet", <<>>) = <<>>, {"C03", "C17"}, "write error ignored")
      [] op = "load" -> If(meta[ev.f].ok => res = "ok", {"C03"}, "saved file refused")
      [] op = "loadbytes" ->
            LET img == Decode(ev.bytes) IN
            IF ~img.ok THEN If(res = "err", {"C04"}, "damaged file accepted")
            ELSE IF WellFormed(img) THEN If(res = "ok", {"C18"}, "well-formed file refused")
            ELSE {}
      [] op = "cuts" ->
            IF ~meta[ev.f].ok THEN {}
            ELSE If(res = "ok" /\ ev.accepted = <<>>, {"C04"}, "truncated file accepted")
                 \cup If(res = "ok" /\ ev.panicked = <<>>, {"C04"}, "truncated file brings the program down")
      [] op = "marks" ->
            IF meta[ev.f].bytes = <<>> THEN {}
            ELSE LET marks == MarkPositions(meta[ev.f].bytes) IN
                 If(res = "ok" /\ \A i \in DOMAIN ev.accepted : ev.accepted[i][1] \notin marks, {"C04"}, "changed marker accepted")
                 \cup If(res = "ok" /\ \A i \in DOMAIN ev.panicked : ev.panicked[i][1] \notin marks, {"C04"}, "changed marker brings the program down")
                 \cup If(res = "ok" /\ marks \subseteq Rng(ev.tried), {"C18"}, "marker missing")
      [] op = "sections" -> \* files made of its sections otherwise: none of them is an index
            IF meta[ev.f].bytes = <<>> \/ (res = "ok" /\ ~({p : p \in Rng(ev.at)} \subseteq MarkPositions(meta[ev.f].bytes))) THEN {}
            ELSE If(res = "ok" /\ \A i \in DOMAIN ev.accepted : Decode(ev.accepted[i][2]).ok, {"C04"}, "sections missing, repeated or out of order accepted")
                 \cup If(res = "ok" => ev.panicked = <<>>, {"C04"}, "sections missing, repeated or out of order bring the program down")
      [] op = "dump" -> DumpChecks(d, known[h], x, ev)
      [] op = "chain" -> ChainChecks(d, chain.h[h], x, ev)
      [] op = "children" ->
            IF ev.w # <<>> /\ ev.w \notin d.nodes THEN If(res = "err", {"C01"} \cup also, "absent word found")
            ELSE If(res = "ok", {"C02"} \cup also, "children not given")
                 \cup (IF res # "ok" THEN {} ELSE
                       LET below == {w \in d.nodes : Len(w) = Len(ev.w) + 1 /\ SubSeq(w, 1, Len(ev.w)) = ev.w} IN
                       If({ev.letters[i][1] : i \in DOMAIN ev.letters} = {w[Len(w)] : w \in below}
                          /\ Len(ev.letters) = Cardinality(below), {"C02"} \cup also, "letters below a word")
                       \cup If(\A i \in DOMAIN ev.letters : IdOK(known[h], Append(ev.w, ev.letters[i][1]), ev.letters[i][2]),
                              {"C02"} \cup also, "identifiers of children"))
      [] op = "kept" -> If(res = "ok" /\ ev.now = ev.then, {"C24"}, "answer given before has changed")
      [] op = "cmp" -> DumpChecks(d, known[h], x, ev.d1) \cup DumpChecks(idx[ev.g], known[ev.g], hst[ev.g], ev.d2)
      [] op = "bigdump" ->
            If(res = "ok" /\ \A i \in DOMAIN ev.ids : ev.ids[i] >= 1, {"C01"} \cup also, "word not found")
            \cup If(res = "ok" /\ LET bags == [k \in DOMAIN ev.kinds |-> ObsBags(ev.kinds[k])] IN
                                  /\ \A k \in DOMAIN ev.kinds : Len(ev.kinds[k]) = Cardinality(bags[k])
                                  /\ \A i \in DOMAIN ev.ws : ev.sets[i] >= 0 /\ bags[ev.sets[i] + 1] = TagSetsOf(d, ev.ws[i]),
                    {"C01"} \cup also, "tag sets")
            \cup If(res = "ok" /\ ev.ws = x.many.ws => ev.ids = x.many.ids, {"C02"} \cup also, "identifiers stable")
            \cup If(res = "ok" /\ Cardinality(Rng(ev.ids)) = Cardinality(Rng(ev.ws)) /\ ev.bad = <<>>, {"C02"} \cup also, "text and identifiers")
            \cup If(res = "ok" /\ ev.nc = NodesCount(d) /\ ev.wc = WordsCount(d), {"C02"} \cup also, "counts")
      [] op = "compile" ->
            LET r == Compiled(ev.toks, Lim) IN
            (IF prints.on /\ res = "ok" THEN SavedAs(DocSteps(ev.toks), ev) ELSE {}) \cup
            (IF r.ok THEN If(res = "ok" /\ ev.after # "absent", {"C14"}, "document refused")
             ELSE If(res = "err", {"C15"}, "bad document compiled"))
            \cup (IF res # "ok" THEN If(ev.after = (IF ev.before THEN "same" ELSE "absent"), {"C15"}, "compiled file touched") ELSE {})
      [] op = "removecompiled" -> {}
      [] op = "loadindex" ->
            IF meta["c"].ok THEN If(res = "ok", meta["c"].doc, "compiled dictionary does not load")
            ELSE IF file["c"] = NoDict THEN If(res = "err", {"C15"}, "missing dictionary loaded")
            ELSE {}
      [] OTHER -> {}

\* --- what the calls do --------------------------------------------------------
KeepFiles == UNCHANGED meta
KeepHst == UNCHANGED hst
Keep == UNCHANGED <<known, meta, hst>>
SetH(h, r) == hst' = [hst EXCEPT ![h] = r]
Changed(h) == SetH(h, [hst[h] EXCEPT !.from = "", !.len = 0, !.tight = FALSE])
Dead(h) == Refused /\ UNCHANGED <<known, meta>> /\ SetH(h, [hst[h] EXCEPT !.dead = TRUE])
Tainted(hs, bad) == hst' = [h \in Handles |-> IF h \in hs /\ bad THEN [hst[h] EXCEPT !.taint = TRUE] ELSE hst[h]]

AddAll(h, ev) ==  \* many words, in order, each with its tag set
    LET added == DoAddMany(idx[h], ev.ws)
        sets == F(ev, "sets", <<>>)
        attached == IF sets = <<>> THEN added
                    ELSE DoAttachMany(added, ev.ws, sets)
    IN  idx' = [idx EXCEPT ![h] = attached] /\ UNCHANGED file

Effect(ev, bad) ==
    LET op == ev.op
        h == F(ev, "h", "")
        d == idx[h]
        res == F(ev, "res", "none")
    IN
    CASE op = "new" -> New(h) /\ known' = [known EXCEPT ![h] = <<>>] /\ KeepFiles /\ SetH(h, Fresh)
      [] op = "compile" ->
            LET r == Compiled(ev.toks, Lim)
                unknown == (r.ok /\ res # "ok") \/ (~r.ok /\ res = "ok") \/ (res # "ok" /\ ev.after = "changed")
            IN  /\ UNCHANGED <<idx, known, hst>>
                /\ IF r.ok /\ res = "ok"
                   THEN file' = [file EXCEPT !["c"] = Stored(r.d)] /\ meta' = [meta EXCEPT !["c"] = [NoMeta EXCEPT !.ok = TRUE, !.doc = {"C14"}]]
                   ELSE IF unknown THEN file' = [file EXCEPT !["c"] = EmptyDict] /\ meta' = [meta EXCEPT !["c"] = NoMeta]
                   ELSE UNCHANGED file /\ meta' = [meta EXCEPT !["c"].doc = {"C15"}]
      [] op = "removecompiled" ->
            file' = [file EXCEPT !["c"] = NoDict] /\ meta' = [meta EXCEPT !["c"] = NoMeta] /\ UNCHANGED <<idx, known, hst>>
      [] op = "loadindex" ->
            IF meta["c"].ok /\ res = "ok"
            THEN /\ Load(h, "c") /\ known' = [known EXCEPT ![h] = <<>>] /\ KeepFiles
                 /\ SetH(h, [Fresh EXCEPT !.doc = meta["c"].doc])
            ELSE Dead(h)
      [] op = "load" /\ meta[ev.f].ok /\ res = "ok" ->
            /\ Load(h, ev.f) /\ known' = [known EXCEPT ![h] = meta[ev.f].known] /\ KeepFiles
            /\ SetH(h, [Fresh EXCEPT !.loaded = TRUE, !.from = ev.f, !.taint = meta[ev.f].taint, !.many = meta[ev.f].many, !.len = meta[ev.f].len])
      [] op = "load" /\ ~(meta[ev.f].ok /\ res = "ok") -> Dead(h)
      [] op = "loadbytes" /\ res = "ok" /\ Decode(ev.bytes).ok /\ WellFormed(Decode(ev.bytes)) ->
            /\ idx' = [idx EXCEPT ![h] = AbsImage(Decode(ev.bytes))] /\ UNCHANGED file
            /\ known' = [known EXCEPT ![h] = IdsOfImage(Decode(ev.bytes))] /\ KeepFiles
            /\ SetH(h, [Fresh EXCEPT !.loaded = TRUE, !.golden = TRUE])
      [] op = "loadbytes" /\ ~(res = "ok" /\ Decode(ev.bytes).ok /\ WellFormed(Decode(ev.bytes))) -> Dead(h)
      [] res \in {"panic", "hang", "died"} /\ h # "" -> Dead(h)
      [] op = "tag" /\ res = "ok" ->
            IF ev.n \in KnownNames(d) \/ Len(d.tags) <= Lim.tags
            THEN RegisterTag(h, ev.n, ev.p) /\ UNCHANGED <<known, meta>>
                 /\ (IF ev.n \in KnownNames(d) THEN KeepHst ELSE Changed(h))
            ELSE Dead(h)
      [] op = "tagall" /\ res = "ok" ->
            /\ idx' = [idx EXCEPT ![h] = FoldLeft(LAMBDA a, n : DoTag(a, n, ev.p), d, ev.ns)]
            /\ UNCHANGED <<file, known, meta>> /\ Changed(h)
      [] op = "add" /\ res = "ok" /\ ev.w # <<>> ->
            AddWord(h, ev.w) /\ known' = [known EXCEPT ![h] = Learn(@, ev.w, ev.id)] /\ KeepFiles /\ Changed(h)
      [] op = "addto" /\ res = "ok" /\ ev.w # <<>> /\ "over" \notin DOMAIN ev /\ (F(ev, "p", <<>>) = <<>> \/ ev.p \in d.nodes) ->
            LET p == F(ev, "p", <<>>) IN
            AddBelow(h, p, ev.w) /\ known' = [known EXCEPT ![h] = Learn(@, p \o ev.w, ev.id)] /\ KeepFiles /\ Changed(h)
      [] op = "attach" /\ res \in {"ok", "err"} /\ F(ev, "via", "") = "add" /\ ev.w # <<>> ->
            \* a word added and, if the tags are known, given the tag set: two of DictSystem's actions
            /\ idx' = [idx EXCEPT ![h] = LET e == DoAdd(@, ev.w) IN
                                         IF res = "ok" /\ Attachable(e, Named(ev)) THEN DoAttach(e, ev.w, Named(ev)) ELSE e]
            /\ UNCHANGED <<file, known, meta>> /\ Changed(h)
      [] op = "attach" /\ res = "ok" /\ F(ev, "via", "") # "add" ->
            IF ev.w \in d.nodes /\ Attachable(d, Named(ev))
            THEN Attach(h, ev.w, Named(ev)) /\ UNCHANGED <<known, meta>> /\ Changed(h)
            ELSE Dead(h)
      [] op = "attachall" /\ res = "ok" /\ ev.w \in d.nodes ->
            /\ idx' = [idx EXCEPT ![h] = FoldLeft(LAMBDA a, s : DoAttach(a, ev.w, s), d, ev.sets)]
            /\ UNCHANGED <<file, known, meta>> /\ Changed(h)
      [] op = "addall" -> /\ AddAll(h, ev) /\ UNCHANGED <<known, meta>>
                           /\ SetH(h, [hst[h] EXCEPT !.from = "", !.len = 0, !.tight = FALSE,
                                           !.many = IF res = "ok" /\ Len(ev.ws) > Len(@.ws) THEN [ws |-> ev.ws, ids |-> ev.ids] ELSE @])
      [] op = "par" ->
            Refused /\ UNCHANGED <<known, meta>> /\ SetH(h, [hst[h] EXCEPT !.par = @ \/ ~F(ev, "seq", FALSE)])
      [] op = "opt" -> Compact(h) /\ UNCHANGED <<known, meta>> /\ SetH(h, [hst[h] EXCEPT !.compacted = TRUE, !.tight = TRUE, !.from = ""])
      [] op = "save" /\ res = "ok" ->
            /\ IF Representable(d, Lim) THEN Save(h, ev.f) ELSE file' = [file EXCEPT ![ev.f] = Stored(d)] /\ UNCHANGED idx
            /\ meta' = [meta EXCEPT ![ev.f] = [ok |-> TRUE, len |-> ev.len, bytes |-> F(ev, "bytes", <<>>),
                                               known |-> known[h], many |-> hst[h].many, taint |-> hst[h].taint \/ bad]]
            /\ UNCHANGED known
            /\ hst' = [g \in Handles |-> IF g = h THEN [hst[g] EXCEPT !.len = ev.len, !.from = ev.f, !.taint = @ \/ bad]
                                        ELSE IF hst[g].from = ev.f THEN [hst[g] EXCEPT !.from = ""] ELSE hst[g]]
      [] op = "dump" ->
            Refused /\ known' = [known EXCEPT ![h] = DumpIds(@, ev)] /\ KeepFiles /\ Tainted({h}, bad)
      [] op = "cmp" ->
            /\ Refused /\ known' = [known EXCEPT ![h] = DumpIds(@, ev.d1), ![ev.g] = DumpIds(@, ev.d2)]
            /\ KeepFiles /\ Tainted({h, ev.g}, bad)
      [] op = "fetch" /\ res = "ok" -> Refused /\ known' = [known EXCEPT ![h] = Learn(@, ev.w, ev.id)] /\ KeepFiles /\ Tainted({h}, bad)
      [] OTHER -> Refused /\ Keep

TraceInit == /\ Init /\ l = 1 /\ clean = TRUE /\ prints = NoPrints /\ chain = NoChains
             /\ known = [h \in Handles |-> <<>>] /\ meta = [f \in Files |-> NoMeta] /\ hst = [h \in Handles |-> Fresh]
Reset == /\ idx' = [h \in Handles |-> EmptyDict] /\ file' = [f \in Files |-> NoDict]
         /\ known' = [h \in Handles |-> <<>>] /\ meta' = [f \in Files |-> NoMeta] /\ hst' = [h \in Handles |-> Fresh]
Ignored(ev) == \/ ev.op \in {"void"}
               \/ /\ ev.op \notin {"new", "load", "loadbytes", "loadindex", "cuts", "marks", "sections"}
                  /\ "h" \in DOMAIN ev /\ hst[ev.h].dead
               \/ ev.op = "cmp" /\ hst[ev.g].dead
\* What a caller lends comes back as it was; what it does with its own memory afterwards changes nothing.
Bad(ev) == {IF clean /\ F(ev, "vandal", FALSE) THEN <<b[1] \cup {"C24"}, b[2]>> ELSE b : b \in Checks(ev)}
           \cup If(F(ev, "args", "same") = "same", {"C24"}, "argument changed")
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.op = "reset" THEN Reset /\ clean' = TRUE /\ chain' = NoChains /\ prints' = [NoPrints EXCEPT !.on = F(ev, "prints", FALSE)]
       ELSE IF Ignored(ev) THEN UNCHANGED <<idx, file, known, meta, hst, clean, chain, prints>>
       ELSE LET bad == Bad(ev) IN
            /\ \A b \in bad : PrintT(ToJson([rejected |-> l, op |-> ev.op, props |-> b[1], text |-> b[2]]))
            /\ Effect(ev, bad # {})
            /\ clean' = (clean /\ bad = {})
            /\ chain' = ChainAfter(ev)
            /\ prints' = IF prints.on THEN PrintsAfter(ev) ELSE prints
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
\* the abstract state keeps DictSystem's invariants all along
TraceOK == \A h \in Handles : DictOK(idx[h])
=============================================================================
