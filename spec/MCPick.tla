-------------------------------- MODULE MCPick --------------------------------
(* The choice of a word among candidates as a search with one step at a      *)
(* time: a candidate is tried at a position, kept when it goes on a prefix   *)
(* of a word of the dictionary, otherwise the next one is tried, and when    *)
(* there is none left the search goes back.                                  *)
EXTENDS Spell
CONSTANTS Letters, MaxPositions, MaxWords
Strings == UNION {[1..n -> Letters] : n \in 1..2}
Words   == UNION {[1..n -> Letters] : n \in 1..3}
Lists   == {<<>>} \cup {<<a>> : a \in Strings} \cup {<<a, b>> : a, b \in Strings}
VARIABLES dict, pos, picked, next, state
vars == <<dict, pos, picked, next, state>>
Init == /\ dict \in UNION {kSubset(k, Words) : k \in 0..MaxWords}
        /\ pos \in UNION {[1..n -> Lists] : n \in 0..MaxPositions}
        /\ picked = <<>> /\ next = 1 /\ state = "search"
Made(s) == Flatten([i \in 1..Len(s) |-> pos[i][s[i]]])
Found == /\ state = "search" /\ Len(picked) = Len(pos) /\ pos # <<>> /\ Made(picked) \in dict
         /\ state' = "found" /\ UNCHANGED <<dict, pos, picked, next>>
\* nothing (more) to try here: back to the position before, or the end
Stuck == \/ Len(picked) = Len(pos) /\ (pos = <<>> \/ Made(picked) \notin dict)
         \/ Len(picked) < Len(pos) /\ next > Len(pos[Len(picked) + 1])
Back == /\ state = "search" /\ Stuck
        /\ IF picked = <<>> THEN state' = "failed" /\ UNCHANGED <<picked, next>>
           ELSE /\ next' = picked[Len(picked)] + 1
                /\ picked' = SubSeq(picked, 1, Len(picked) - 1)
                /\ state' = state
        /\ UNCHANGED <<dict, pos>>
Try == /\ state = "search" /\ Len(picked) < Len(pos) /\ next <= Len(pos[Len(picked) + 1])
       /\ IF IsPrefixOfWord(dict, Made(Append(picked, next)))
          THEN picked' = Append(picked, next) /\ next' = 1
          ELSE next' = next + 1 /\ UNCHANGED picked
       /\ UNCHANGED <<dict, pos, state>>
Next == Found \/ Back \/ Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == IF state = "found" THEN Made(picked) ELSE NoWord
Right  == state # "search" => Result = PickDecl(dict, pos) /\ Result = Pick(dict, pos)
\* it succeeds exactly when some choice spells a word, with a word of the dictionary
Sound  == state # "search" =>
    /\ (state = "found") <=> pos # <<>> /\ \E f \in Combos(pos) : Spelled(pos, f) \in dict
    /\ state = "found" => Result \in dict
\* never stuck
Live   == state = "search" => ENABLED Next
Ends   == <>(state # "search")
=============================================================================
