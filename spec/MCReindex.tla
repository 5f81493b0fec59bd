------------------------------ MODULE MCReindex ------------------------------
(* The elements are taken one after the other, in the order of the indexes,  *)
(* from a list which is left without them, and put in a new one; then the    *)
(* same is done with the order which undoes the first one.                   *)
EXTENDS Reindex
CONSTANTS Values, MaxLen
Nothing == 0                \* what is left of an element which was taken
ASSUME Nothing \notin Values
VARIABLES first,    \* the list at the beginning
          idx,      \* the order
          cont,     \* the list, some elements of which were taken
          new,      \* the new list
          turn      \* 1: the order; 2: the one which undoes it; 3: done
vars == <<first, idx, cont, new, turn>>
Init == /\ first \in UNION {[1..n -> Values] : n \in 0..MaxLen}
        /\ idx \in Orders(Len(first))
        /\ cont = first /\ new = <<>> /\ turn = 1
Order == IF turn = 1 THEN idx ELSE Undo(idx)
Take == /\ turn < 3 /\ Len(new) < Len(idx)
        /\ LET i == Order[Len(new) + 1] + 1
           IN  new' = Append(new, cont[i]) /\ cont' = [cont EXCEPT ![i] = Nothing]
        /\ UNCHANGED <<first, idx, turn>>
Turn == /\ turn < 3 /\ Len(new) = Len(idx)
        /\ cont' = new /\ new' = <<>> /\ turn' = turn + 1
        /\ UNCHANGED <<first, idx>>
Next == Take \/ Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

CountIn(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
\* nothing is lost, nothing is there twice, what was taken is never taken again
Kept  == \A v \in Values : CountIn(cont, v) + CountIn(new, v) = CountIn(first, v)
Whole == \A i \in 1..Len(new) : new[i] # Nothing
Right == (turn = 2 /\ new = <<>>) => cont = Reordered(idx, first)
Back  == turn = 3 => cont = first
\* the orders given by a rule are orders
Rules == \A n \in 1..7 : \A m \in 1..9 : \A s \in 0..3 :
    (\A d \in 2..n : ~(n % d = 0 /\ m % d = 0)) => [i \in 1..n |-> ByStep(n, m, s, i - 1)] \in Orders(n)
ASSUME Rules
Ends  == <>(turn = 3)
=============================================================================
