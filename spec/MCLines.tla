-------------------------------- MODULE MCLines --------------------------------
(* The filters on a line, a character at a time: bottoms are counted, the    *)
(* lists are filtered by the base line and vote for the mean line, they are  *)
(* filtered by the mean line, then by the main font.                         *)
EXTENDS Lines
CONSTANTS Length
Words0 == {"a", "b", "c"}
\* lists without and with ambiguity
Lists0 == {<<>>, <<<<"a", 0>>>>, <<<<"a", 0>>, <<"a", 1>>>>, <<<<"a", 0>>, <<"b", 1>>>>, <<<<"b", 1>>, <<"a", 0>>, <<"a", 1>>>>,
           <<<<"a", 0>>, <<"b", 0>>, <<"a", 1>>>>, <<<<"c", 1>>, <<"a", 1>>, <<"b", 1>>>>}
Boxes0 == {<<0, 2, 1, 3>>, <<0, 4, 1, 1>>, <<0, 0, 1, 6>>, <<0, 2, 1, 5>>}
\* <<meanline, baseline>> of a and of b; nothing is known of c
Lines0 == {<<>>, <<0, 0, Below, Below>>, <<0, 0, Upper, Below>>, <<0, 0, Above, Upper>>, <<0, 0, Below, Above>>}
VARIABLES start, boxes, info, L, bottoms, tops, i, stage
vars == <<start, boxes, info, L, bottoms, tops, i, stage>>
Info(w) == IF w = "a" THEN info[1] ELSE IF w = "b" THEN info[2] ELSE <<>>
Zero == [y \in 0..8 |-> 0]
Init == /\ start \in [1..Length -> Lists0] /\ boxes \in [1..Length -> Boxes0] /\ info \in Lines0 \X Lines0
        /\ L = start /\ bottoms = Zero /\ tops = Zero /\ i = 1 /\ stage = "count"
Peak(f) == CHOOSE y \in DOMAIN f : (\A z \in DOMAIN f : f[z] <= f[y]) /\ (\A z \in DOMAIN f : f[z] = f[y] => y <= z)
Step(s) == IF i = Length THEN i' = 1 /\ stage' = s ELSE i' = i + 1 /\ stage' = stage
CountOne == /\ stage = "count"
            /\ bottoms' = [bottoms EXCEPT ![Bottom(boxes[i])] = @ + 1]
            /\ Step("base") /\ UNCHANGED <<start, boxes, info, L, tops>>
\* runs of the same word, the bad ones taken out one by one
\* the ones whose word is not among the bad ones, in order
Keep(l, bad(_)) == FoldLeft(LAMBDA acc, v : IF bad(v[1]) THEN acc ELSE Append(acc, v), <<>>, l)
Several(l) == \E k \in 2..Len(l) : l[k][1] # l[k - 1][1]
Runs(l) == Cardinality({k \in 1..Len(l) : k = 1 \/ l[k][1] # l[k - 1][1]})
RunsKept(l, bad(_)) == Cardinality({k \in 1..Len(l) : (k = 1 \/ l[k][1] # l[k - 1][1]) /\ ~bad(l[k][1])})
BaseOne == /\ stage = "base"
           /\ LET line == Peak(bottoms)
                  bad(w) == Info(w) # <<>> /\ Against(Info(w)[4], Bottom(boxes[i]), line)
                  l == IF Several(L[i]) THEN Keep(L[i], bad) ELSE L[i]
                  vote == /\ Several(L[i]) /\ RunsKept(L[i], bad) = 1
                          /\ Info(l[1][1]) # <<>> /\ Info(l[1][1])[3] = Below /\ Info(l[1][1])[4] = Below
              IN  /\ L' = [L EXCEPT ![i] = l]
                  /\ tops' = IF vote THEN [tops EXCEPT ![Top(boxes[i])] = @ + 1] ELSE tops
           /\ Step("mean") /\ UNCHANGED <<start, boxes, info, bottoms>>
MeanOne == /\ stage = "mean"
           /\ LET line == Peak(tops)
                  bad(w) == tops # Zero /\ Info(w) # <<>> /\ Against(Info(w)[3], Top(boxes[i]), line)
              IN  L' = [L EXCEPT ![i] = IF Several(L[i]) THEN Keep(L[i], bad) ELSE L[i]]
           /\ Step("font") /\ UNCHANGED <<start, boxes, info, bottoms, tops>>
FontStep == /\ stage = "font" /\ L' = FilterByFont(L) /\ stage' = "done"
            /\ UNCHANGED <<start, boxes, info, bottoms, tops, i>>
Spec == Init /\ [][CountOne \/ BaseOne \/ MeanOne \/ FontStep]_vars
Right == stage = "font" => L = FilterByLines(start, boxes, Info)
\* nothing is added, nothing changes place, and what is not ambiguous stays
RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] = b[1] THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
Shrinks == \A k \in 1..Length : IsSub(L[k], start[k])
Certain == stage \in {"base", "mean", "font"} => \A k \in 1..Length : ~Several(start[k]) => L[k] = start[k]
\* a word without line information is never removed by the lines
Unknown == stage = "font" => \A k \in 1..Length : \A m \in 1..Len(start[k]) :
    Info(start[k][m][1]) = <<>> => \E n \in 1..Len(L[k]) : L[k][n] = start[k][m]
\* the font filter leaves at most one candidate where it applies, never none where there was one
OneFont == [][stage = "font" => \A k \in 1..Length :
                 /\ (L'[k] = <<>>) = (L[k] = <<>>)
                 /\ FontApplies(L) => Len(L'[k]) <= 1]_vars
=============================================================================
