-------------------------------- MODULE MCTrie --------------------------------
(* Building a dictionary: words are inserted one after the other in a tree,  *)
(* a character at a time; then the tree is laid flat in breadth-first order. *)
EXTENDS Spell
CONSTANTS Letters, MaxLen, MaxWords
AllWords == UNION {[1..n -> Letters] : n \in 1..MaxLen}
VARIABLES words,    \* the words inserted
          tree,     \* prefix -> does a word end there?
          cursor,   \* [on, word, at]: the insertion under way
          queue,    \* prefixes not yet laid, in order
          nodes,    \* the flat form
          stage
vars == <<words, tree, cursor, queue, nodes, stage>>
Idle == [on |-> FALSE, word |-> <<>>, at |-> 0]
Kids(p) == LET k == {q \in DOMAIN tree : Len(q) = Len(p) + 1 /\ HasPrefix(q, p)}
           IN  SetToSortSeq(k, LtSeq)
Init == /\ words = {} /\ tree = (<<>> :> FALSE) /\ cursor = Idle
        /\ queue = <<>> /\ nodes = <<>> /\ stage = "insert"
Begin == /\ stage = "insert" /\ ~cursor.on /\ Cardinality(words) < MaxWords
         /\ \E w \in AllWords : cursor' = [on |-> TRUE, word |-> w, at |-> 0]
         /\ UNCHANGED <<words, tree, queue, nodes, stage>>
Advance == /\ cursor.on /\ cursor.at < Len(cursor.word)
           /\ LET p == SubSeq(cursor.word, 1, cursor.at + 1)
              IN  tree' = (IF p \in DOMAIN tree THEN tree ELSE tree @@ (p :> FALSE))
           /\ cursor' = [cursor EXCEPT !.at = @ + 1]
           /\ UNCHANGED <<words, queue, nodes, stage>>
Mark == /\ cursor.on /\ cursor.at = Len(cursor.word)
        /\ tree' = [tree EXCEPT ![cursor.word] = TRUE]
        /\ words' = words \cup {cursor.word}
        /\ cursor' = Idle
        /\ UNCHANGED <<queue, nodes, stage>>
Lay == /\ stage = "insert" /\ ~cursor.on
       /\ stage' = "lay" /\ queue' = Kids(<<>>)
       /\ UNCHANGED <<words, tree, cursor, nodes>>
Node == /\ stage = "lay" /\ queue # <<>>
        /\ LET p == queue[1] IN
           /\ nodes' = Append(nodes, [c |-> <<p[Len(p)]>>, pos |-> Len(queue), n |-> Len(Kids(p)),
                                      t |-> IF tree[p] THEN 1 ELSE 0])
           /\ queue' = Tail(queue) \o Kids(p)
        /\ UNCHANGED <<words, tree, cursor, stage>>
Next == Begin \/ Advance \/ Mark \/ Lay \/ Node
Spec == Init /\ [][Next]_vars

Settled == ~cursor.on
Laid == stage = "lay" /\ queue = <<>>
\* the tree says of every sequence what the set of the words says
Walks == Settled => \A s \in AllWords \cup {<<>>} :
    Walk(words, s) = IF s \notin DOMAIN tree THEN <<0, 0>>
                     ELSE <<IF tree[s] THEN 2 ELSE 1, Len(Kids(s))>>
\* so does the rule for many words at once
Rule == Laid => \A m \in 1..MaxLen : \A s \in AllWords \cup {<<>>} :
    WalkAll(Letters, m, words, s) = Walk(words \cup [1..m -> Letters], s)
\* a tree never has a leaf where no word ends
NoDeadEnd == Settled => \A p \in DOMAIN tree \ {<<>>} : tree[p] \/ Kids(p) # <<>>
\* the flat form stands for the same words, and so does its file
FlatAgrees == Laid => FlatSound(nodes) /\ Language(nodes) = {Chars(w) : w \in words}
LineOf(n) == Digits(n.c[1]) \o <<32>> \o Digits(n.pos) \o <<32>> \o Digits(n.n) \o <<32>> \o Digits(n.t) \o <<10>>
FileAgrees == Laid => NodesOf(Flatten([i \in 1..Len(nodes) |-> LineOf(nodes[i])])) = nodes
Grows == [][stage = "insert" => words \subseteq words' /\ DOMAIN tree \subseteq DOMAIN tree']_vars
=============================================================================
