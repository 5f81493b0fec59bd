------------------------------- MODULE MCAssemble -------------------------------
(* The text of a line, made from left to right: an accumulator of the        *)
(* characters of the word under way, emptied at each stop and gap.           *)
EXTENDS Assemble
CONSTANTS Length, MaxWords
A == <<97>>
B == <<98>>
Lists0 == {<<>>, <<<<A, 0>>>>, <<<<B, 0>>>>, <<<<A, 0>>, <<B, 0>>>>, <<<<B, 0>>, <<A, 0>>, <<A, 1>>>>, <<<<<<46>>, 0>>>>, <<<<<<46>>, 0>>, <<A, 0>>>>,
           <<<<A, 0>>, <<<<46>>, 0>>>>}
Dict0 == {A, <<97, 98>>, <<98, 97>>, <<98, 98>>, <<97, 97, 98>>, <<97, 46>>}
VARIABLES dict, L, gaps, i, word, text
vars == <<dict, L, gaps, i, word, text>>
Init == /\ dict \in UNION {kSubset(k, Dict0) : k \in 0..MaxWords}
        /\ L \in UNION {[1..n -> Lists0] : n \in 0..Length} /\ gaps \in SUBSET (1..Length)
        /\ i = 1 /\ word = <<>> /\ text = <<>>
\* the word under way, as written
Words == [k \in 1..Len(word) |-> [m \in 1..Len(word[k]) |-> word[k][m][1]]]
Flushed == IF word = <<>> THEN <<>>
           ELSE LET p == PickDecl(dict, Words)
                IN  IF p # NoWord THEN p ELSE Flatten([k \in 1..Len(word) |-> Words[k][1]])
Gap == i # 1 /\ i \in gaps
Char == /\ i <= Len(L)
        /\ LET done == text \o (IF Gap \/ Stop(L[i]) THEN Flushed ELSE <<>>) \o (IF Gap THEN Space ELSE <<>>)
           IN  IF Stop(L[i]) THEN word' = <<>> /\ text' = done \o (IF L[i] = <<>> THEN Question ELSE L[i][1][1])
               ELSE word' = Append(IF Gap THEN <<>> ELSE word, L[i]) /\ text' = done
        /\ i' = i + 1 /\ UNCHANGED <<dict, L, gaps>>
End == /\ i = Len(L) + 1 /\ text' = text \o Flushed /\ word' = <<>> /\ i' = i + 1 /\ UNCHANGED <<dict, L, gaps>>
Spec == Init /\ [][Char \/ End]_vars
Done == i > Len(L) + 1
Right == Done => text = LineText(dict, L, gaps)
\* a space per gap (the candidates have none), a '?' per character without candidate
Spaces    == Done => Cardinality({k \in 1..Len(text) : text[k] = 32}) = Cardinality(gaps \cap (2..Len(L)))
Questions == Done => Cardinality({k \in 1..Len(text) : text[k] = 63}) = Unrecognized(L)
\* without a dictionary, the first candidates
Plain == (Done /\ dict = {} /\ gaps = {}) =>
    text = Flatten([k \in 1..Len(L) |-> IF L[k] = <<>> THEN Question ELSE L[k][1][1]])
=============================================================================
