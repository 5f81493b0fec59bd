---------------------------------- MODULE Db ----------------------------------
(* The glyph database as recognition sees it: for each glyph the sequence of *)
(* its views <<word, font>>; words and fonts are any values.                 *)
EXTENDS Text

WordsOf(views)   == [k \in 1..Len(views) |-> views[k][1]]
SameClass(V, i, j) == WordsOf(V[i]) = WordsOf(V[j])
\* the other glyphs which have the same first word
Siblings(V, i) == {j \in 1..Len(V) : j # i /\ V[j][1][1] = V[i][1][1]}

\* fonts are numbered from 0 in the order in which they are met
Distinct(s) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, s)
FontNumbers(fonts) ==
    LET all == Distinct(fonts)
    IN  [i \in 1..Len(fonts) |-> (CHOOSE k \in 1..Len(all) : all[k] = fonts[i]) - 1]

\* line information: entries <<word, lines>>; <<>> stands for none
NoInfo == <<>>
Infos(entries, word) ==
    LET mine == {k \in 1..Len(entries) : entries[k][1] = word}
    IN  IF mine = {} THEN {NoInfo} ELSE {entries[k][2] : k \in mine}
\* the file: word, ascent, cap, mean, base; words longer than 8 bytes are passed over
MaxWordOfInfo == 8
InfoEntries(text) ==
    LET t == Tokens(text)
        all == [k \in 1..(Len(t) \div 5) |->
                   <<t[5 * k - 4], <<ToNum(t[5 * k - 3]), ToNum(t[5 * k - 2]), ToNum(t[5 * k - 1]), ToNum(t[5 * k])>>>>]
    IN  SelectSeq(all, LAMBDA e : Len(e[1]) <= MaxWordOfInfo)
=============================================================================
