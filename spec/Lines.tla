-------------------------------- MODULE Lines --------------------------------
(* Filters on the candidates of a line of characters.  L is the sequence of  *)
(* the candidate lists, a candidate is <<word, font>>; boxes as in Segment;  *)
(* info(w) is <<>> or <<ascent, cap, mean, base>>, the lines of word w.      *)
EXTENDS Util

\* most frequent value of a non-empty sequence, the smallest in case of a tie
Mode(s) ==
    LET n(v) == Cardinality({i \in 1..Len(s) : s[i] = v})
        vals == {s[i] : i \in 1..Len(s)}
    IN  Min({v \in vals : \A u \in vals : n(u) <= n(v)})

Top(b)    == b[2]
Bottom(b) == b[2] + b[4]

\* does the position contradict the line, for this kind of word?
Upper == 1
Below == 2
Above == 4
Against(flag, pos, line) ==
    CASE flag = Upper         -> pos + 1 >= line
      [] flag = Below         -> Abs(pos - line) > 1
      [] flag = Above         -> pos <= line + 1
      [] flag = Upper + Below -> pos > line - 1
      [] flag = Below + Above -> pos < line + 1
      [] OTHER                -> FALSE

\* start and end of the runs of the same word
Starts(l) == {i \in 1..Len(l) : i = 1 \/ l[i][1] # l[i - 1][1]}
RunOf(l, i) == Max({s \in Starts(l) : s <= i})
\* a list whose candidates are all the same word is not ambiguous
Ambiguous(l) == Cardinality(Starts(l)) >= 2
Kept(l, bad(_)) == {i \in 1..Len(l) : ~bad(l[RunOf(l, i)][1])}
KeepOnly(l, K) == [k \in 1..Cardinality(K) |-> l[SortedInts(K)[k]]]
Filter(l, bad(_)) == IF Ambiguous(l) THEN KeepOnly(l, Kept(l, bad)) ELSE l
\* an ambiguous list of which exactly one run is kept
Resolved(l, bad(_)) ==
    Ambiguous(l) /\ Cardinality({s \in Starts(l) : ~bad(l[s][1])}) = 1

-----------------------------------------------------------------------------
(* base line: where most of the boxes end; then mean line: where most of the *)
(* characters begin, among those which the base line has just reduced to one *)
(* word resting on both lines                                                *)
FilterBase(L, boxes, info(_)) ==
    LET base == Mode([i \in 1..Len(boxes) |-> Bottom(boxes[i])])
        bad(i, w) == info(w) # <<>> /\ Against(info(w)[4], Bottom(boxes[i]), base)
    IN  [i \in 1..Len(L) |-> Filter(L[i], LAMBDA w : bad(i, w))]
Voters(L, boxes, info(_)) ==
    LET base == Mode([i \in 1..Len(boxes) |-> Bottom(boxes[i])])
        bad(i, w) == info(w) # <<>> /\ Against(info(w)[4], Bottom(boxes[i]), base)
        after == FilterBase(L, boxes, info)
        rests(w) == info(w) # <<>> /\ info(w)[4] = Below /\ info(w)[3] = Below
    IN  {i \in 1..Len(L) : Resolved(L[i], LAMBDA w : bad(i, w)) /\ rests(after[i][1][1])}
FilterMean(L, boxes, info(_), voters) ==
    IF voters = {} THEN L
    ELSE LET vs == SortedInts(voters)
             mean == Mode([k \in 1..Len(vs) |-> Top(boxes[vs[k]])])
             bad(i, w) == info(w) # <<>> /\ Against(info(w)[3], Top(boxes[i]), mean)
         IN  [i \in 1..Len(L) |-> Filter(L[i], LAMBDA w : bad(i, w))]
FilterByLines(L, boxes, info(_)) ==
    IF Len(L) = 0 THEN L
    ELSE FilterMean(FilterBase(L, boxes, info), boxes, info, Voters(L, boxes, info))

-----------------------------------------------------------------------------
(* fonts: that of most of the characters which have one candidate            *)
Singles(L) == {i \in 1..Len(L) : Len(L[i]) = 1}
NoFont == -1
MainFont(L) ==
    IF Singles(L) = {} THEN NoFont
    ELSE LET s == SortedInts(Singles(L)) IN Mode([k \in 1..Len(s) |-> L[s[k]][1][2]])
FontApplies(L) ==
    LET fs == {L[i][1][2] : i \in Singles(L)}
        n  == Cardinality({i \in Singles(L) : L[i][1][2] = MainFont(L)})
    IN  fs # {} /\ (Cardinality(fs) = 1 \/ n >= Len(L) \div 2)
OfFont(l, f) ==
    LET same == {k \in 1..Len(l) : l[k][2] = f}
    IN  IF Len(l) < 2 THEN l ELSE <<l[IF same = {} THEN 1 ELSE Min(same)]>>
FilterByFont(L) ==
    IF FontApplies(L) THEN [i \in 1..Len(L) |-> OfFont(L[i], MainFont(L))] ELSE L
=============================================================================
