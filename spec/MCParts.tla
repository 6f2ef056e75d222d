------------------------------- MODULE MCParts -------------------------------
(***************************************************************************)
(* A writer puts parts into a stream one after another, a fault may cut    *)
(* the stream anywhere, and a reader takes the parts out again, one at a   *)
(* time, knowing only their kinds.  A reader may go wrong in the ways of   *)
(* readers: taking ahead of what it needs, padding what is missing, or     *)
(* adding to what the receiver held before.                                *)
(***************************************************************************)
EXTENDS Parts

CONSTANTS MaxParts, Reader   \* Reader: "exact", "ahead", "padding", "adding"

Nm(a) == <<65, 66, 67, a>>
Pool == { <<"s8", <<>>>>, <<"s8", <<0, 255>>>>, <<"s16", <<256>>>>, <<"ts", <<1, 1>>>>,
          <<"name", <<>>>>, <<"name", Nm(68)>>, <<"tag", <<Nm(69), <<>>>>>>,
          <<"reg", <<>>>>, <<"reg", <<<<Nm(70), Nm(71)>>, <<Nm(71), <<>>>>>>>>,
          <<"tst", <<>>>>, <<"tst", <<<<3>>, <<>>, <<4, 5>>>>>>,
          <<"tsi", <<>>>>, <<"tsi", <<<<>>, <<<<1, 2>>>>>>>>,
          <<"var", <<>>>>, <<"var", <<<<1, 0>>, <<0, 258>>>>>>,
          <<"vt", <<<<<<0, 1>>>>>>>>, <<"vi", <<>>>>, <<"vi", <<<<<<<<0, 0>>>>>>, <<>>>>>>,
          <<"item", <<<<0, 1>>, <<0, 2>>, <<1, 3>>, <<2, 0>>>>>>,
          <<"items", <<>>>>, <<"items", <<<<<<0, 0>>, <<0, 97>>, <<1, 0>>>>>>>> }

VARIABLES sent, bytes, cut, pos, got, failed
vars == <<sent, bytes, cut, pos, got, failed>>

Init == sent = <<>> /\ bytes = <<>> /\ cut = -1 /\ pos = 1 /\ got = <<>> /\ failed = FALSE

Write == /\ cut = -1 /\ pos = 1 /\ got = <<>> /\ Len(sent) < MaxParts
         /\ \E x \in Pool : sent' = Append(sent, x) /\ bytes' = bytes \o EncPart(x[1], x[2])
         /\ UNCHANGED <<cut, pos, got, failed>>
Cut == /\ cut = -1 /\ got = <<>> /\ sent # <<>>
       /\ \E n \in 0..Len(bytes) : cut' = n
       /\ UNCHANGED <<sent, bytes, pos, got, failed>>

There == SubSeq(bytes, 1, cut)
Take(kind) ==
    LET r == ReadPart(kind, IF Reader = "padding" THEN There \o Zeros(3) ELSE There, pos)
    IN  IF ~r.ok THEN r
        ELSE CASE Reader = "ahead" /\ kind \in {"tst", "vt"} /\ r.p <= cut -> [r EXCEPT !.p = @ + 1]
               [] Reader = "adding" /\ kind = "vt" /\ \E i \in DOMAIN got : got[i][1] = "vt" -> [r EXCEPT !.v = <<<<0, 9>>>> \o @]
               [] OTHER -> r
Read == /\ cut # -1 /\ ~failed /\ Len(got) < Len(sent)
        /\ LET k == sent[Len(got) + 1][1]
               r == Take(k)
           IN  IF r.ok THEN pos' = r.p /\ got' = Append(got, <<k, r.v>>) /\ UNCHANGED failed
               ELSE failed' = TRUE /\ UNCHANGED <<pos, got>>
        /\ UNCHANGED <<sent, bytes, cut>>
Next == Write \/ Cut \/ Read
Spec == Init /\ [][Next]_vars

\* what is read is what was written, in order, and takes exactly its bytes
Ends == EndsOf(sent)
ReadRight == /\ \A i \in DOMAIN got : got[i] = <<sent[i][1], BackPart(sent[i][1], sent[i][2])>>
             /\ pos = 1 + (IF got = <<>> THEN 0 ELSE Ends[Len(got)])
\* exactly the parts which are there can be read
CutNoticed == /\ failed => Len(got) = FirstCut(Ends, cut)
              /\ cut # -1 /\ Len(got) > 0 => Ends[Len(got)] <= cut
Together == bytes = EncParts(sent)
=============================================================================
