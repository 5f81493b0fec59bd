----------------------------- MODULE MCGlyphFile -----------------------------
(* Glyphs are collected, written to a file, read back; and normalised: taken *)
(* one at a time, put at their place or merged with the glyph of their image.*)
EXTENDS GlyphFile
CONSTANT MaxGlyphs
VARIABLES glyphs, todo, normal, stage
vars == <<glyphs, todo, normal, stage>>
Images0 == {MkImg(1, 1, LAMBDA x, y : Ink), MkImg(1, 1, LAMBDA x, y : Dash), MkImg(2, 1, LAMBDA x, y : IF x = 0 THEN Ink ELSE Dash)}
Views0  == {<<<<97>>, <<102>>, -1>>, <<<<97>>, <<103>>, 0>>, <<<<97, 98>>, <<102>>, 12>>}
ViewLists == {<<>>} \cup {<<v>> : v \in Views0} \cup {<<v, w>> : v, w \in Views0}
Glyph0 == [img : Images0, views : ViewLists]
Init == glyphs = <<>> /\ todo = <<>> /\ normal = <<>> /\ stage = "collect"
Collect == stage = "collect" /\ Len(glyphs) < MaxGlyphs
           /\ \E g \in Glyph0 : glyphs' = Append(glyphs, g)
           /\ UNCHANGED <<todo, normal, stage>>
Begin == stage = "collect" /\ stage' = "normalise" /\ todo' = glyphs /\ UNCHANGED <<glyphs, normal>>
NoTwice(s) == FoldLeft(LAMBDA acc, v : IF v \in {acc[i] : i \in 1..Len(acc)} THEN acc ELSE Append(acc, v), <<>>, s)
Put == /\ stage = "normalise" /\ todo # <<>>
       /\ LET g == todo[1]
              at == {i \in 1..Len(normal) : normal[i].img = g.img}
              below == Cardinality({i \in 1..Len(normal) : ImgLt(normal[i].img, g.img)})
          IN  normal' = IF at = {} THEN SubSeq(normal, 1, below) \o <<g>> \o SubSeq(normal, below + 1, Len(normal))
                        ELSE LET i == CHOOSE k \in at : TRUE
                             IN  [normal EXCEPT ![i].views = NoTwice(@ \o g.views)]
       /\ todo' = Tail(todo) /\ UNCHANGED <<glyphs, stage>>
Spec == Init /\ [][Collect \/ Begin \/ Put]_vars
\* blank-separated, whatever the blanks
Bytes(gs) == Flatten([i \in 1..Len(FileTokens(gs)) |-> FileTokens(gs)[i] \o (IF i % 3 = 0 THEN <<10>> ELSE <<32>>)])
RoundTrip == stage = "collect" => GlyphsOf(Bytes(glyphs)) = glyphs
Merged == (stage = "normalise" /\ todo = <<>>) =>
    /\ IsNormalOf(glyphs, normal) /\ IsNormal(normal)
    /\ IsNormalOf(normal, normal)              \* again: nothing changes
\* what has been put so far is the normal form of what was taken
Partial == stage = "normalise" => IsNormalOf(SubSeq(glyphs, 1, Len(glyphs) - Len(todo)), normal)
\* only one sequence of images and sets of views is a normal form
Unique == (stage = "normalise" /\ todo = <<>>) =>
    \A i \in 1..Len(normal) : \A v \in Views0 :
        v \notin ViewSet(normal[i]) => ~IsNormalOf(glyphs, [normal EXCEPT ![i].views = Append(@, v)])
\* numbers of the fonts: as many as fonts, in the order in which they come
Fonts == stage = "collect" =>
    LET fs == Flatten([i \in 1..Len(glyphs) |-> [k \in 1..Len(glyphs[i].views) |-> glyphs[i].views[k][2]]])
        n  == FontNumbers(fs)
    IN  /\ \A i, j \in 1..Len(fs) : n[i] = n[j] <=> fs[i] = fs[j]
        /\ \A i \in 1..Len(fs) : n[i] <= Max({0} \cup {n[k] + 1 : k \in 1..(i - 1)})
        /\ Flatten(DbOf(glyphs)) = [i \in 1..Len(fs) |->
               <<Flatten([a \in 1..Len(glyphs) |-> [b \in 1..Len(glyphs[a].views) |-> glyphs[a].views[b][1]]])[i], n[i]>>]
=============================================================================
