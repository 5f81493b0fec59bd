------------------------------- MODULE MCRewrite -------------------------------
(* Replacing as a scan: the text is copied from left to right; where the     *)
(* pattern begins its replacement is copied instead and the scan goes on     *)
(* after the pattern; one scan per replacement.                              *)
EXTENDS Spell
CONSTANTS Letters, MaxText, MaxReps
Texts(n) == UNION {[1..k -> Letters] : k \in 0..n}
VARIABLES first, reps, k, text, i, out
vars == <<first, reps, k, text, i, out>>
Init == /\ first \in Texts(MaxText)
        /\ reps \in UNION {[1..n -> Texts(2) \X Texts(2)] : n \in 0..MaxReps}
        /\ k = 1 /\ text = first /\ i = 1 /\ out = <<>>
More == k <= Len(reps)
Pat  == reps[k][1]
Here == Pat # <<>> /\ i + Len(Pat) - 1 <= Len(text) /\ SubSeq(text, i, i + Len(Pat) - 1) = Pat
Swap == More /\ i <= Len(text) /\ Here
        /\ out' = out \o reps[k][2] /\ i' = i + Len(Pat) /\ UNCHANGED <<first, reps, k, text>>
Copy == More /\ i <= Len(text) /\ ~Here
        /\ out' = Append(out, text[i]) /\ i' = i + 1 /\ UNCHANGED <<first, reps, k, text>>
Turn == More /\ i > Len(text)
        /\ text' = out /\ out' = <<>> /\ i' = 1 /\ k' = k + 1 /\ UNCHANGED <<first, reps>>
Next == Swap \/ Copy \/ Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == ~More => text = Rewrite(first, reps)
\* what the scan has already written is what the definition gives so far
SoFar == text = Rewrite(first, SubSeq(reps, 1, k - 1))
\* without the pattern nothing changes
Neutral == (~More /\ \A m \in 1..Len(reps) : Rewrite(first, <<reps[m]>>) = first) => text = first
Ends  == <>(~More)
=============================================================================
