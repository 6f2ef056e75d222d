------------------------------- MODULE Console -------------------------------
(***************************************************************************)
(* What the query console answers to a line, given the content of the      *)
(* dictionary file it has loaded (an image of Format.tla).  A line is a    *)
(* sequence of code points without the line end.                           *)
(***************************************************************************)
EXTENDS Format, Integers

(* --- words of a line ------------------------------------------------------ *)
RECURSIVE Split(_)
Split(line) == IF \A i \in DOMAIN line : line[i] # 32 THEN <<line>>
               ELSE LET k == CHOOSE i \in DOMAIN line : line[i] = 32 /\ \A j \in 1..(i - 1) : line[j] # 32
                    IN  <<SubSeq(line, 1, k - 1)>> \o Split(SubSeq(line, k + 1, Len(line)))
\* texts used by the console
Tag == <<116, 97, 103>>            Set == <<115, 101, 116>>        Var == <<118, 97, 114>>
NodeW == <<110, 111, 100, 101>>    Exit == <<101, 120, 105, 116>>  Reload == <<114, 101, 108, 111, 97, 100>>
Count == <<99, 111, 117, 110, 116>>
Tables == <<116, 97, 98, 108, 101, 115>>  Table == <<116, 97, 98, 108, 101>>
Is(x, full) == x = full \/ x = <<full[1]>>
CommandOf(items) ==
    LET c == items[1] IN
    IF Is(c, Tag) THEN "tag" ELSE IF Is(c, Set) THEN "set" ELSE IF Is(c, Var) THEN "var"
    ELSE IF Is(c, NodeW) THEN "node" ELSE IF Is(c, Exit) THEN "exit" ELSE IF Is(c, Reload) THEN "reload" ELSE "search"

(* --- numbers -------------------------------------------------------------- *)
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
NoNumber == [ok |-> FALSE, neg |-> FALSE, big |-> FALSE, v |-> 0]
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
\* at least 28 bits are exact, what is longer is big
Room(base) == CASE base = 2 -> 28 [] base = 8 -> 9 [] base = 10 -> 8 [] base = 16 -> 7
Digits(neg, s, base) ==
    IF s = <<>> \/ \E i \in DOMAIN s : Digit(s[i]) >= base THEN NoNumber
    ELSE LET z == NoZeros(s) IN
         IF Len(z) > Room(base) THEN [ok |-> TRUE, neg |-> neg, big |-> TRUE, v |-> 0]
         ELSE LET v == FoldLeft(LAMBDA a, c : a * base + Digit(c), 0, z)
              IN  [ok |-> TRUE, neg |-> neg /\ v > 0, big |-> FALSE, v |-> v]
Signed(s, Read(_, _)) == IF s # <<>> /\ s[1] \in {43, 45} THEN Read(s[1] = 45, Tail(s)) ELSE Read(FALSE, s)
Decimal(s) == Signed(s, LAMBDA neg, t : Digits(neg, t, 10))
Prefixed(neg, t) ==
    IF Len(t) >= 2 /\ t[1] = 48
    THEN IF t[2] \in {120, 88} THEN Digits(neg, SubSeq(t, 3, Len(t)), 16)
         ELSE IF t[2] \in {98, 66} THEN Digits(neg, SubSeq(t, 3, Len(t)), 2)
         ELSE IF t[2] \in {111, 79} THEN Digits(neg, SubSeq(t, 3, Len(t)), 8)
         ELSE Digits(neg, Tail(t), 8)
    ELSE Digits(neg, t, 10)
AnyBase(s) == Signed(s, LAMBDA neg, t : Prefixed(neg, t))
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN NoNumber ELSE Prefixed(FALSE, s)

(* --- answers --------------------------------------------------------------- *)
Err == [k |-> "err"]
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Fold(s) == [i \in DOMAIN s |-> Low(s[i])]
Names(img, x) == BagOf([i \in DOMAIN SetAt(img, x) |-> img.tags[SetAt(img, x)[i] + 1].n])
TagAns(img, i) == [k |-> "tag", id |-> i, n |-> img.tags[i + 1].n, p |-> img.tags[i + 1].p]
TagAnswer(img, items) ==
    IF Len(items) # 2 THEN Err
    ELSE IF items[2] = Count THEN [k |-> "tagcount", n |-> Len(img.tags)]
    ELSE LET n == Decimal(items[2])
             named == {i \in DOMAIN img.tags : Fold(img.tags[i].n) = Fold(items[2])}
         IN  IF n.ok /\ ~n.big THEN IF n.neg \/ n.v >= Len(img.tags) THEN Err ELSE TagAns(img, n.v)
             ELSE IF n.ok \/ named = {} THEN Err
             ELSE TagAns(img, (CHOOSE i \in named : \A j \in named : i <= j) - 1)
SetAnswer(img, items) ==
    IF Len(items) < 2 THEN Err
    ELSE IF items[2] = Tables THEN [k |-> "tables", l |-> [t \in DOMAIN img.sets |-> Len(img.sets[t])]]
    ELSE IF items[2] = Table
    THEN IF Len(items) # 3 THEN Err
         ELSE LET n == Decimal(items[3]) IN
              IF ~n.ok \/ n.big \/ n.neg \/ n.v >= Len(img.sets) THEN Err
              ELSE [k |-> "table", id |-> n.v, l |-> [i \in DOMAIN img.sets[n.v + 1] |-> BagOf(img.sets[n.v + 1][i])]]
    ELSE LET n == AnyBase(items[2])
             x == <<n.v \div 65536, n.v % 65536>>
         IN  IF ~n.ok \/ n.big \/ n.neg \/ ~HasSet(img, x) THEN Err ELSE [k |-> "set", id |-> x, names |-> Names(img, x)]
VarAnswer(img, items) ==
    IF Len(items) < 2 THEN Err
    ELSE LET n == Unsigned(items[2])
             x == <<n.v \div 65536, n.v % 65536>>
         IN  IF ~n.ok \/ n.big THEN Err
             ELSE IF n.v = 0 THEN [k |-> "var", id |-> 0, l |-> {}]
             ELSE IF ~HasVar(img, x) THEN Err
             ELSE [k |-> "var", id |-> n.v, l |-> {<<y, Names(img, y)>> : y \in Rng(VarAt(img, x))}]
NodeAns(img, i) ==
    LET x == img.items[i] IN
    [k |-> "node", id |-> i, w |-> WordOf(img, i), p |-> x.p, v |-> x.v,
     sets |-> IF x.v = <<0, 0>> THEN {} ELSE {Names(img, y) : y \in Rng(VarAt(img, x.v))},
     kids |-> {<<img.items[j].l, j>> : j \in {j \in NodeIds(img) : img.items[j].p = i}}]
NodeOf(img, w) == {i \in NodeIds(img) : WordOf(img, i) = w}
NodeAnswer(img, items) ==
    IF Len(items) # 2 /\ ~(Len(items) > 2 /\ items[2] = Count) THEN Err
    ELSE IF items[2] = Count THEN [k |-> "nodecount", n |-> Cardinality(NodeIds(img))]
    ELSE LET n == Decimal(items[2]) IN
         IF n.ok THEN IF n.big \/ n.neg \/ n.v \notin DOMAIN img.items THEN Err ELSE NodeAns(img, n.v)
         ELSE LET at == NodeOf(img, items[2]) IN
              IF at = {} THEN Err ELSE NodeAns(img, CHOOSE i \in at : TRUE)
SearchAnswer(img, line) ==
    LET at == NodeOf(img, line) IN
    IF at = {} THEN [k |-> "none"]
    ELSE LET a == NodeAns(img, CHOOSE i \in at : TRUE)
         IN  IF a.sets = {} THEN [k |-> "empty"] ELSE [k |-> "found", sets |-> a.sets]

Answer(img, line) ==
    LET items == Split(line)
        c == CommandOf(items)
    IN  CASE c = "tag" -> TagAnswer(img, items) [] c = "set" -> SetAnswer(img, items) [] c = "var" -> VarAnswer(img, items)
          [] c = "node" -> NodeAnswer(img, items) [] c = "search" -> SearchAnswer(img, line)
          [] OTHER -> [k |-> c]

\* What is said more than a command takes may be passed over or refused.
Surplus(line) ==
    LET items == Split(line)  c == CommandOf(items) IN
    \/ c \in {"set", "var"} /\ Len(items) > 2 /\ items[2] # Table
    \/ c = "node" /\ Len(items) > 2 /\ items[2] = Count
    \/ c \in {"exit", "reload"} /\ Len(items) > 1

(* --- kinds of lines, to name what goes wrong ------------------------------- *)
Shape(img, line) ==
    LET items == Split(line)
        c == CommandOf(items)
        n == IF Len(items) < 2 THEN NoNumber
             ELSE IF c = "set" /\ items[2] # Table THEN AnyBase(items[2])
             ELSE IF c = "set" THEN IF Len(items) = 3 THEN Decimal(items[3]) ELSE NoNumber
             ELSE IF c = "var" THEN AnyBase(items[2]) ELSE Decimal(items[2])
        what == IF c = "set" /\ Len(items) >= 2 /\ items[2] = Table THEN "set table" ELSE c
    IN  IF c = "search" \/ ~n.ok THEN what
        ELSE IF n.big THEN what \o " with a huge number"
        ELSE IF n.neg THEN what \o " with a negative number"
        ELSE IF c = "node" /\ n.v = Cardinality(DOMAIN img.items) - 1 THEN "node with the last number"
        ELSE what \o " with a number"
=============================================================================
