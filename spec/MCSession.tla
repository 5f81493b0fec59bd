------------------------------ MODULE MCSession ------------------------------
(* The loop of ocr2_extract_text over the characters of a line, with its     *)
(* cache of the drawings already recognised.  Drawings are numbers; what     *)
(* recognition answers for each is unknown and fixed.  The loop may be       *)
(* scheduled as it is or with the filters of a line applied afterwards: the  *)
(* lists given to the filters are copies, so what a filter does to one       *)
(* occurrence changes neither the cache nor the other occurrences.           *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Drawings, Answers, MaxLen
VARIABLES line,      \* the drawings of the line
          rec,       \* what recognition answers: [Drawings -> Answers]
          at, cache, lists, shown, filtered
vars == <<line, rec, at, cache, lists, shown, filtered>>

AllLines == UNION {[1..n -> Drawings] : n \in 0..MaxLen}
Init == /\ line \in AllLines /\ rec \in [Drawings -> Answers]
        /\ at = 0 /\ cache = [d \in {} |-> {}] /\ lists = <<>> /\ shown = <<>> /\ filtered = {}

Hit == /\ at < Len(line) /\ line[at + 1] \in DOMAIN cache
       /\ lists' = Append(lists, cache[line[at + 1]]) /\ at' = at + 1
       /\ UNCHANGED <<line, rec, cache, shown, filtered>>
Miss == /\ at < Len(line) /\ line[at + 1] \notin DOMAIN cache
        /\ LET d == line[at + 1]
           IN  /\ cache' = [x \in DOMAIN cache \cup {d} |-> IF x = d THEN rec[d] ELSE cache[x]]
               /\ lists' = Append(lists, rec[d]) /\ shown' = Append(shown, <<d, rec[d]>>)
        /\ at' = at + 1 /\ UNCHANGED <<line, rec, filtered>>
\* a filter removes any candidates of any one occurrence, once the line has been read
Drop == /\ at = Len(line)
        /\ \E i \in 1..Len(lists) : \E s \in SUBSET lists[i] :
              /\ i \notin filtered /\ lists' = [lists EXCEPT ![i] = s] /\ filtered' = filtered \cup {i}
        /\ UNCHANGED <<line, rec, at, cache, shown>>
Next == Hit \/ Miss \/ Drop
Spec == Init /\ [][Next]_vars

\* candidates depend on the drawing alone
SameEverywhere == \A i \in 1..Len(lists) : i \notin filtered => lists[i] = rec[line[i]]
\* each drawing is shown once, in the order of the first occurrences, with its candidates
FirstAt(d) == CHOOSE i \in 1..at : line[i] = d /\ \A j \in 1..(i - 1) : line[j] # d
ShownOnce == /\ {shown[k][1] : k \in 1..Len(shown)} = {line[i] : i \in 1..at}
             /\ \A j, k \in 1..Len(shown) : j < k => FirstAt(shown[j][1]) < FirstAt(shown[k][1])
             /\ \A k \in 1..Len(shown) : shown[k][2] = rec[shown[k][1]]
CacheRight == \A d \in DOMAIN cache : cache[d] = rec[d]
OneListEach == Len(lists) = at
=============================================================================
