------------------------------ MODULE GlyphFile ------------------------------
(* Glyph files: a sequence of glyphs [img, views]; a view is                 *)
(* <<word, font, line information>>.                                         *)
EXTENDS Img, Db

\* the tokens of a glyph
GlyphTokens(g) ==
    <<NumText(g.img.w), NumText(g.img.h), g.img.p, NumText(Len(g.views))>>
    \o Flatten([i \in 1..Len(g.views) |-> <<g.views[i][1], g.views[i][2], NumText(g.views[i][3])>>])
\* as it is written: the image on a line, the number of views on the next, then a view a line
SP == <<32>>
EL == <<10>>
GlyphBytes(g) == NumText(g.img.w) \o SP \o NumText(g.img.h) \o SP \o g.img.p \o EL \o NumText(Len(g.views)) \o EL
                 \o Flatten([i \in 1..Len(g.views) |-> g.views[i][1] \o SP \o g.views[i][2] \o SP \o NumText(g.views[i][3]) \o EL])
FileBytes(gs) == Flatten([i \in 1..Len(gs) |-> GlyphBytes(gs[i])])
FileTokens(gs) == Flatten([i \in 1..Len(gs) |-> GlyphTokens(gs[i])])

\* the glyphs a sequence of tokens stands for
RECURSIVE GlyphsFrom(_, _)
GlyphsFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE LET n == ToNum(t[i + 3])
         IN  <<[img   |-> [w |-> ToNum(t[i]), h |-> ToNum(t[i + 1]), p |-> t[i + 2]],
                views |-> [k \in 1..n |-> <<t[i + 3 * k + 1], t[i + 3 * k + 2], ToNum(t[i + 3 * k + 3])>>]]>>
             \o GlyphsFrom(t, i + 4 + 3 * n)
GlyphsOf(bytes) == GlyphsFrom(Tokens(bytes), 1)

\* the database: for each glyph its views <<word, number of the font>>
FontsNumbered(vs) ==
    LET start(i) == Sum(i - 1, LAMBDA k : Len(vs[k]))
        nums == FontNumbers(Flatten([i \in 1..Len(vs) |-> [k \in 1..Len(vs[i]) |-> vs[i][k][2]]]))
    IN  [i \in 1..Len(vs) |-> LET s == start(i) IN [k \in 1..Len(vs[i]) |-> <<vs[i][k][1], nums[s + k]>>]]
DbOf(gs) == FontsNumbered([i \in 1..Len(gs) |-> gs[i].views])

ViewSet(g) == {g.views[i] : i \in 1..Len(g.views)}
Pairs(gs)  == UNION {{<<gs[i].img, v>> : v \in ViewSet(gs[i])} : i \in 1..Len(gs)}
Images(gs) == {gs[i].img : i \in 1..Len(gs)}

(* normal form: every image once, in order, with all its views               *)
IsNormalOf(gs, out) ==
    /\ \A i \in 1..(Len(out) - 1) : ImgLt(out[i].img, out[i + 1].img)
    /\ Images(out) = Images(gs)
    /\ Pairs(out) = Pairs(gs)
    \* no view is written twice for a glyph, unless it was already twice in one of the inputs
    /\ \A i \in 1..Len(out) :
          \/ \A k, m \in 1..Len(out[i].views) : out[i].views[k] = out[i].views[m] => k = m
          \/ \E j \in 1..Len(gs) : gs[j] = out[i]
IsNormal(gs) == \A i \in 1..(Len(gs) - 1) : ImgLt(gs[i].img, gs[i + 1].img)
=============================================================================
