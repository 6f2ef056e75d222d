-------------------------------- MODULE Many --------------------------------
(***************************************************************************)
(* Dictionaries of very many words which follow a rule, so that they can   *)
(* be told in closed form: the i-th word has one or two letters, and is    *)
(* given the i-th of some tag sets, over and over.  A tag set is the       *)
(* sorted sequence of the numbers of its tags.  MCMany.tla checks that     *)
(* what is said here of many words is what Dict.tla says of each.          *)
(***************************************************************************)
EXTENDS Dict

\* shape: [n, b1, w, b2]; words of one letter if w = 0, else w words below each first letter
Letters(s, i) == IF s.w = 0 THEN <<s.b1 + i - 1>> ELSE <<s.b1 + ((i - 1) \div s.w), s.b2 + ((i - 1) % s.w)>>
Firsts(s) == IF s.w = 0 THEN 0 ELSE (s.n + s.w - 1) \div s.w      \* nodes above the words
NoShape == [n |-> 0, b1 |-> 0, w |-> 0, b2 |-> 0]

\* at: tag sets of the i-th word; ids: its identifier
NoMany == [tags |-> <<>>, shape |-> NoShape, at |-> <<>>, ids |-> <<>>, above |-> <<>>, ever |-> {}, combos |-> {}, refused |-> FALSE, tight |-> FALSE]
Nth(sets, div, i) == sets[(((i - 1) \div div) % Len(sets)) + 1]
\* words from..to, every one whose number leaves a rest of `rests` by `by`
Chosen(rule, i) == i - 1 >= rule.from /\ i - 1 < rule.to /\ ((i - 1) % rule.by) \in rule.rests
Given(at, rule) ==
    [i \in 1..Len(at) |-> IF Chosen(rule, i) THEN at[i] \cup {Nth(rule.sets, rule.div, i)} ELSE at[i]]

\* what is stored: each tag set once, each combination once
BagsOf(at) == UNION {at[i] : i \in DOMAIN at}
CombosOf(at) == {at[i] : i \in DOMAIN at} \ {{}}
Longest(sizes(_), things) ==
    LET all == {sizes(x) : x \in things} IN
    IF things = {} THEN 0
    ELSE LET count(n) == Cardinality({x \in things : sizes(x) = n}) IN
         CHOOSE c \in {count(n) : n \in all} : \A n \in all : count(n) <= c
Room(bags, combos) == Longest(Len, bags) <= 65536 /\ Longest(Cardinality, combos) <= 65536
\* a file tells how many tag sets of one size there are by 16 bits
Savable(bags) == Longest(Len, bags) <= 65535
Nodes(m) == m.shape.n + Firsts(m.shape)
Tagged(m) == Cardinality({i \in DOMAIN m.at : m.at[i] # {}})

\* the same as a dictionary
AsDict(m) ==
    LET ws == {Letters(m.shape, i) : i \in 1..m.shape.n}
        bag(s) == BagOf([k \in DOMAIN s |-> m.tags[s[k] + 1]])
        at(w) == LET i == CHOOSE i \in 1..m.shape.n : Letters(m.shape, i) = w IN {bag(s) : s \in m.at[i]}
    IN  [tags |-> m.tags, nodes |-> UNION {WordPrefixes(w) : w \in ws},
         att |-> [w \in {w \in ws : at(w) # {}} |-> at(w)]]
=============================================================================
