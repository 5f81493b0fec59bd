-------------------------------- MODULE Spell --------------------------------
(* Words, the dictionary and the choice of a word among candidates.  A word  *)
(* is a sequence of bytes; its characters are UTF-8 sequences; a dictionary  *)
(* is a set of non-empty words.                                              *)
EXTENDS Text

CharLen(b) == IF b >= 240 THEN 4 ELSE IF b >= 224 THEN 3 ELSE IF b >= 192 THEN 2 ELSE 1
RECURSIVE CharsFrom(_, _)
CharsFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE <<SubSeq(s, i, i + CharLen(s[i]) - 1)>> \o CharsFrom(s, i + CharLen(s[i]))
\* the characters of a word, each as its bytes
Chars(s) == CharsFrom(s, 1)

(* Bytes which are not UTF-8.  A first byte says how many bytes a character  *)
(* has; a character which the end of the string cuts, a byte which cannot be *)
(* the first one, and the byte zero end the word.                            *)
Stray(b) == b \in 128..191
RECURSIVE RawFrom(_, _)
RawFrom(s, i) ==
    IF i > Len(s) \/ s[i] = 0 \/ Stray(s[i]) THEN <<>>
    ELSE LET c == SubSeq(s, i, Min({i + CharLen(s[i]) - 1, Len(s)}))
         IN  IF Len(c) < CharLen(s[i]) \/ \E k \in 1..Len(c) : c[k] = 0 THEN <<>>
             ELSE <<c>> \o RawFrom(s, i + Len(c))
RawChars(s) == RawFrom(s, 1)
\* what is read of a word
Readable(s) == Flatten(RawChars(s))
IsUtf8(s) == Readable(s) = s /\ \A c \in Range(RawChars(s)) : \A k \in 2..Len(c) : Stray(c[k])

\* code point of a character given by its bytes
CodePoint(c) ==
    CASE Len(c) = 1 -> c[1]
      [] Len(c) = 2 -> (c[1] % 32) * 64 + (c[2] % 64)
      [] Len(c) = 3 -> (c[1] % 16) * 4096 + (c[2] % 64) * 64 + (c[3] % 64)
      [] Len(c) = 4 -> (c[1] % 8) * 262144 + (c[2] % 64) * 4096 + (c[3] % 64) * 64 + (c[4] % 64)

NonEmpty(ws) == {ws[i] : i \in {k \in 1..Len(ws) : ws[k] # <<>>}}

HasPrefix(w, p) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
IsPrefixOfWord(D, p) == \E w \in D : HasPrefix(w, p)

-----------------------------------------------------------------------------
(* A tree of the words: what a walk along s tells: 0 nothing there, 1 some   *)
(* word goes on from there, 2 and s is a word; and in how many ways it goes  *)
(* on.                                                                       *)
Walk(D, s) ==
    LET known == s = <<>> \/ IsPrefixOfWord(D, s)
        next  == {w[Len(s) + 1] : w \in {v \in D : HasPrefix(v, s) /\ Len(v) > Len(s)}}
    IN  IF ~known THEN <<0, 0>> ELSE <<IF s \in D THEN 2 ELSE 1, Cardinality(next)>>

\* the same of the words of D and of every word of n characters of al
WalkAll(al, n, D, s) ==
    LET own   == Len(s) <= n /\ \A i \in 1..Len(s) : s[i] \in al
        known == s = <<>> \/ own \/ IsPrefixOfWord(D, s)
        next  == (IF own /\ Len(s) < n THEN al ELSE {})
                     \cup {w[Len(s) + 1] : w \in {v \in D : HasPrefix(v, s) /\ Len(v) > Len(s)}}
    IN  IF ~known THEN <<0, 0>>
        ELSE <<IF s \in D \/ (own /\ Len(s) = n) THEN 2 ELSE 1, Cardinality(next)>>

(* The flat form: nodes in breadth-first order, each [c, pos, n, t]: its     *)
(* character, the distance to its first child, the number of its children,   *)
(* and whether a word ends there.  The first level ends where the children   *)
(* of the first node begin.                                                  *)
RECURSIVE WordsUnder(_, _, _)
WordsUnder(nodes, i, prefix) ==
    LET w == Append(prefix, nodes[i].c)
        kids == (i + nodes[i].pos)..(i + nodes[i].pos + nodes[i].n - 1)
    IN  (IF nodes[i].t = 1 THEN {w} ELSE {}) \cup UNION {WordsUnder(nodes, k, w) : k \in kids}
FlatSound(nodes) ==     \* children exist, after their parent, sorted by character
    \A i \in 1..Len(nodes) :
        nodes[i].n > 0 =>
            /\ nodes[i].pos > 0
            /\ i + nodes[i].pos + nodes[i].n - 1 <= Len(nodes)
            /\ \A k \in (i + nodes[i].pos)..(i + nodes[i].pos + nodes[i].n - 2) :
                   LtSeq(nodes[k].c, nodes[k + 1].c)
TopLevel(nodes) == IF nodes = <<>> THEN {} ELSE 1..nodes[1].pos
\* the words (as sequences of characters) a flat form stands for
Language(nodes) == UNION {WordsUnder(nodes, i, <<>>) : i \in TopLevel(nodes)}

(* The file of a dictionary: a line "code distance children terminal" per    *)
(* node; the code of a character is its bytes as one number.                 *)
RECURSIVE MulAdd(_, _, _)
\* n * 10 + d in base 256, least significant digit first
MulAdd(n, d, i) ==
    IF i > Len(n) THEN (IF d = 0 THEN n ELSE Append(n, d))
    ELSE LET v == n[i] * 10 + d
         IN  MulAdd([n EXCEPT ![i] = v % 256], v \div 256, i + 1)
BytesOfNumber(t) == Reverse(FoldLeft(LAMBDA n, c : MulAdd(n, c - 48, 1), <<>>, t))
NodesOf(text) ==
    LET ls == Lines(text)
        node(l) == LET f == Tokens(l)
                   IN  [c |-> BytesOfNumber(f[1]), pos |-> ToNum(f[2]), n |-> ToNum(f[3]), t |-> ToNum(f[4])]
    IN  [i \in 1..Len(ls) |-> node(ls[i])]

-----------------------------------------------------------------------------
(* Choice.  pos is a sequence of positions, each a sequence of candidate     *)
(* words in order of preference.                                             *)
NoWord == <<>>
RECURSIVE Search(_, _, _, _)
\* the preferred word of D which goes on prefix with one candidate of each position from i
Search(D, prefix, pos, i) ==
    IF i > Len(pos) THEN (IF prefix \in D THEN prefix ELSE NoWord)
    ELSE IF ~IsPrefixOfWord(D, prefix) THEN NoWord
    ELSE LET RECURSIVE Try(_)
             Try(k) == IF k > Len(pos[i]) THEN NoWord
                       ELSE LET r == Search(D, prefix \o pos[i][k], pos, i + 1)
                            IN  IF r # NoWord THEN r ELSE Try(k + 1)
         IN  Try(1)
Pick(D, pos) == IF pos = <<>> THEN NoWord ELSE Search(D, <<>>, pos, 1)

\* candidates of any bytes: of each, what is read of it
PickRead(D, pos) ==
    Pick(D, [i \in 1..Len(pos) |-> SelectSeq([k \in 1..Len(pos[i]) |-> Readable(pos[i][k])], LAMBDA w : w # <<>>)])

\* the same without the search: all the choices, and the first in the order of preference
Combos(pos) == {f \in [1..Len(pos) -> 1..Max({1} \cup {Len(pos[i]) : i \in 1..Len(pos)})] :
                    \A i \in 1..Len(pos) : f[i] <= Len(pos[i])}
Spelled(pos, f) == Flatten([i \in 1..Len(pos) |-> pos[i][f[i]]])
PickDecl(D, pos) ==
    LET good == {f \in Combos(pos) : Spelled(pos, f) \in D}
    IN  IF pos = <<>> \/ good = {} THEN NoWord
        ELSE Spelled(pos, CHOOSE f \in good : \A g \in good : CmpSeq(f, g) <= 0)

-----------------------------------------------------------------------------
(* Replacements                                                              *)
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(t, i, pat, rep) ==
    IF i > Len(t) THEN <<>>
    ELSE IF i + Len(pat) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(pat) - 1) = pat
         THEN rep \o ReplaceFrom(t, i + Len(pat), pat, rep)
         ELSE <<t[i]>> \o ReplaceFrom(t, i + 1, pat, rep)
ReplaceOne(t, pat, rep) == IF pat = <<>> THEN t ELSE ReplaceFrom(t, 1, pat, rep)
RECURSIVE Rewrite(_, _)
Rewrite(t, rs) ==
    IF rs = <<>> THEN t ELSE Rewrite(ReplaceOne(t, rs[1][1], rs[1][2]), Tail(rs))
\* the file: a line per replacement, its pattern then, if it is not empty, its replacement
ReplacementsOf(text) ==
    LET ls == SelectSeq([i \in 1..Len(Lines(text)) |-> Tokens(Lines(text)[i])], LAMBDA t : t # <<>>)
    IN  [i \in 1..Len(ls) |-> <<ls[i][1], IF Len(ls[i]) = 1 THEN <<>> ELSE ls[i][2]>>]
=============================================================================
