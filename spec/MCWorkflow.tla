------------------------------ MODULE MCWorkflow ------------------------------
(* From an image and its text to the text read back, on every small image    *)
(* and every labelling of its drawings: what the predicates on the outputs   *)
(* of the programs accept, and that a labelled line is recognised.           *)
EXTENDS Workflow
CONSTANTS Areas, MaxWidth
VARIABLES img, word, phase, glyphs, normal, rows, text
vars == <<img, word, phase, glyphs, normal, rows, text>>

Dims == {d \in (1..MaxWidth) \X (1..MaxWidth) : d[1] * d[2] \in Areas \/ (d[2] = 1 /\ d[1] <= MaxWidth)}
ImagesOf(d) == {[w |-> d[1], h |-> d[2], p |-> p] : p \in [1..(d[1] * d[2]) -> {Ink, 45}]}
Words == {<<97>>, <<98>>}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Cutting(i) == LET bs == Boxes(i) IN [k \in 1..Len(bs) |-> Section(i, bs[k][1], bs[k][2], bs[k][3], bs[k][4])]

\* bytes of the files
P1(i) == <<80, 49, 10>> \o NumText(i.w) \o <<32>> \o NumText(i.h) \o <<10>>
         \o [k \in 1..Len(i.p) |-> IF i.p[k] = Ink THEN 49 ELSE 48] \o <<10>>
Font == <<102>>
BytesOf(gs) == FileBytes(gs)
RowText(l) == IF l = <<>> THEN <<>> ELSE Flatten([k \in 1..Len(l) |-> NumText(l[k]) \o <<32>>])
RowsText(rs) == LET ls == FileLines(rs) IN Flatten([k \in 1..Len(ls) |-> RowText(ls[k]) \o <<10>>])

Init == /\ img \in UNION {ImagesOf(d) : d \in Dims}
        /\ word \in [SetOf(Cutting(img)) -> Words]
        /\ phase = "images" /\ glyphs = <<>> /\ normal = <<>> /\ rows = <<>> /\ text = <<>>
Label == /\ phase = "images" /\ phase' = "glyphs"
         /\ glyphs' = LET c == Cutting(img) IN [k \in 1..Len(c) |-> [img |-> c[k], views |-> <<<<word[c[k]], Font, NoLines>>>>]]
         /\ UNCHANGED <<img, word, normal, rows, text>>
RECURSIVE Sorted2(_)
Sorted2(S) == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE a \in S : \A b \in S \ {a} : ImgLt(a, b) IN <<x>> \o Sorted2(S \ {x})
Normalize == /\ phase = "glyphs" /\ phase' = "normal"
             /\ normal' = LET o == Sorted2(Images(glyphs))
                          IN  [k \in 1..Len(o) |-> [img |-> o[k], views |-> <<<<word[o[k]], Font, NoLines>>>>]]
             /\ UNCHANGED <<img, word, glyphs, rows, text>>
Measure == /\ phase = "normal" /\ phase' = "rows"
           /\ rows' = [k \in 1..Len(normal) |-> Row(normal[k].img)]
           /\ UNCHANGED <<img, word, glyphs, normal, text>>

\* an output of ocr2_extract_text: one representative per class, classes in any order of ties
RECURSIVE Some(_, _)
Some(V, G) == IF G = {} THEN <<>>
              ELSE LET x == CHOOSE a \in G : \A b \in G : CmpNat(a.score, b.score) >= 0
                   IN  V[CHOOSE i \in x.reps : TRUE] \o Some(V, G \ {x})
Base == [rows |-> rows, views |-> DbOf(normal)]
Found(q) == LET g == Groups(Base, q) IN Some(Base.views, {x \in g.groups : CmpNat(Mul(x.score, 2), g.limit) >= 0})
Out ==
    LET c == Cutting(img)
        ds == Distinct(c)
        show(d) == Draw(d) \o Flatten([k \in 1..Len(Found(Row(d))) |-> Found(Row(d))[k][1] \o <<32>>]) \o <<10>>
        L == FilterByFont([k \in 1..Len(c) |-> Found(Row(c[k]))])
    IN  SDatas \o NumText(Len(rows)) \o <<10>> \o SGlyphs \o NumText(Len(normal)) \o <<10>> \o SGo
        \o Flatten([k \in 1..Len(ds) |-> show(ds[k])])
        \o SResult \o LineText({}, L, Gaps(Boxes(img))) \o <<10>>
        \o SUnrec \o SCount \o NumText(Unrecognized(L)) \o <<10>>
        \o SCount \o NumText(Len(c)) \o <<10>> \o SUnrec \o SRate \o <<48, 10>>
Read == /\ phase = "rows" /\ phase' = "text" /\ text' = Out
        /\ UNCHANGED <<img, word, glyphs, normal, rows>>
Next == Label \/ Normalize \/ Measure \/ Read
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Nothing == [have |-> FALSE, b |-> <<>>]
Words1 == LET c == Cutting(img) IN Flatten([k \in 1..Len(c) |-> word[c[k]] \o <<10>>])
\* what the programs may write is what the files stand for, and nothing near
LabelAccepted == phase = "glyphs" =>
    /\ LabelOk(<<<<P1(img), Words1, Font>>>>, DefaultLuminance, 0, BytesOf(glyphs))
    /\ ~LabelOk(<<<<P1(img), Words1 \o <<97>>, Font>>>>, DefaultLuminance, 0, BytesOf(glyphs))
    /\ LabelOk(<<<<P1(img), Words1 \o <<97>>, Font>>>>, DefaultLuminance, 1, <<>>)
    /\ glyphs # <<>> => ~LabelOk(<<<<P1(img), Words1, Font>>>>, DefaultLuminance, 0, BytesOf(Tail(glyphs)))
NormalAccepted == phase = "normal" =>
    /\ NormalizeOk(<<BytesOf(glyphs)>>, 0, BytesOf(normal))
    /\ NormalizeOk(<<BytesOf(normal)>>, 0, BytesOf(normal))
    /\ Len(normal) >= 2 => ~NormalizeOk(<<BytesOf(glyphs)>>, 0, BytesOf(Reverse(normal)))
    /\ normal # <<>> => ~NormalizeOk(<<BytesOf(glyphs)>>, 0, BytesOf(Tail(normal)))
RowsAccepted == phase = "rows" =>
    /\ DatasOk(BytesOf(normal), 0, RowsText(rows))
    /\ RowsOf(NumLines(RowsText(rows))) = rows
    /\ normal # <<>> => ~DatasOk(BytesOf(Tail(normal)), 0, RowsText(rows))
TextAccepted == phase = "text" =>
    LET in == [glyphs |-> BytesOf(normal), datas |-> RowsText(rows), img |-> P1(img), infos |-> Nothing, dict |-> Nothing]
    IN  /\ ExtractOk(in, 0, text) /\ ~ExtractOk(in, 1, text) /\ ~ExtractOk(in, 0, Tail(text))
        /\ ~ExtractOk([in EXCEPT !.glyphs = BytesOf(normal \o <<[img |-> img, views |-> <<<<<<97>>, Font, NoLines>>>>]>>)], 0, text)
\* a labelled drawing is recognised: its word is among the candidates
Recognised == phase = "rows" => \A d \in SetOf(Cutting(img)) :
    \E k \in 1..Len(Found(Row(d))) : Found(Row(d))[k][1] = word[d]
\* and when no other word looks the same, the text is the one of the labels
ReadBack == phase = "text" =>
    LET c == Cutting(img)
    IN  (\A k \in 1..Len(c) : \A j \in 1..Len(Found(Row(c[k]))) : Found(Row(c[k]))[j][1] = word[c[k]]) =>
            LineText({}, [k \in 1..Len(c) |-> <<<<word[c[k]], 0>>>>], Gaps(Boxes(img)))
            = LineText({}, [k \in 1..Len(c) |-> Found(Row(c[k]))], Gaps(Boxes(img)))
=============================================================================
