-------------------------------- MODULE Damage --------------------------------
(* What may be taken of a file of a database which may be damaged.  For each *)
(* kind of file: Strict*(b), the content of a file which holds all that the  *)
(* writer writes (such a file must be accepted), and what a reader which     *)
(* needs only a part of it (Views of the glyphs, Drawings) cannot do without *)
(* (a file without that must be refused).                                    *)
EXTENDS Scan, GlyphFile, FeatureFile, Spell

Refusal == [ok |-> FALSE, v |-> <<>>]
Whole(v) == [ok |-> TRUE, v |-> v]

-----------------------------------------------------------------------------
(* glyphs: "w h", one byte, w*h pixels; a number of views, and the views     *)
Drawing(b, i) ==
    LET w == Num32(b, i)
        h == IF w.ok THEN Num32(b, w.next) ELSE Bad
        from == h.next + 1
    IN  IF ~h.ok THEN Bad
        ELSE IF w.v = 0 \/ h.v = 0 THEN Bad                     \* an image has pixels
        ELSE IF w.v < 0 \/ h.v < 0 \/ w.v > Len(b) \/ h.v > Len(b) THEN Bad
        ELSE IF from + w.v * h.v - 1 > Len(b) THEN Bad
        ELSE Got([w |-> w.v, h |-> h.v, p |-> SubSeq(b, from, from + w.v * h.v - 1)], from + w.v * h.v)
View(b, i) ==
    LET w == Token(b, i)
        f == IF w.ok THEN Token(b, w.next) ELSE Bad
        n == IF f.ok THEN Num32(b, f.next) ELSE Bad
    IN  IF n.ok THEN Got(<<w.v, f.v, n.v>>, n.next) ELSE Bad
Glyph(b, i) ==
    LET d == Drawing(b, i)
        n == IF d.ok THEN Num32(b, d.next) ELSE Bad
        vs == IF n.ok THEN Times(b, n.v, n.next, LAMBDA j : View(b, j)) ELSE Bad
    IN  IF vs.ok THEN Got([img |-> d.v, views |-> vs.v], vs.next) ELSE Bad
RECURSIVE GlyphsUpTo(_, _, _)
GlyphsUpTo(b, i, gs) ==
    IF Ended(b, i) THEN Whole(gs)
    ELSE LET g == Glyph(b, i) IN IF g.ok THEN GlyphsUpTo(b, g.next, Append(gs, g.v)) ELSE Refusal
StrictGlyphs(b) == GlyphsUpTo(b, 1, <<>>)

\* those who need only the words and fonts: they go from line to line
WordAndFont(b, i) ==
    LET w == Token(b, i)
        f == IF w.ok THEN Token(b, w.next) ELSE Bad
    IN  IF f.ok THEN Got(<<w.v, f.v>>, After(b, f.next, "line") + 1) ELSE Bad
RECURSIVE ViewsUpTo(_, _, _)
ViewsUpTo(b, i, gs) ==
    IF Ended(b, i) THEN Whole(gs)
    ELSE LET l == RestOfLine(b, After(b, i, "blanks"))
             n == IF l.ok THEN Num32(b, l.next) ELSE Bad
             vs == IF n.ok THEN Times(b, n.v, n.next, LAMBDA j : WordAndFont(b, j)) ELSE Bad
         IN  IF vs.ok THEN ViewsUpTo(b, vs.next, Append(gs, vs.v)) ELSE Refusal
ViewsOnly(b) == ViewsUpTo(b, 1, <<>>)
\* those who need only the drawings
RECURSIVE DrawingsUpTo(_, _, _)
DrawingsUpTo(b, i, ds) ==
    IF Ended(b, i) THEN Whole(ds)
    ELSE LET d == Drawing(b, i)
             n == IF d.ok THEN Num32(b, d.next) ELSE Bad
             l == IF n.ok THEN (IF n.v = 0 THEN Got(<<>>, After(b, n.next, "line") + 1)
                                ELSE Times(b, n.v + 1, n.next, LAMBDA j : RestOfLine(b, j))) ELSE Bad
         IN  IF l.ok THEN DrawingsUpTo(b, l.next, Append(ds, d.v)) ELSE Refusal
DrawingsOnly(b) == DrawingsUpTo(b, 1, <<>>)

-----------------------------------------------------------------------------
(* features: the number of rows and the columns                              *)
BitAt(b, i) == LET n == Num32(b, i) IN IF n.ok /\ n.v \in {0, 1} THEN n ELSE Bad
AltCell(b, i) == LET s == BitAt(b, i)
                 c == IF s.ok THEN Num32(b, s.next) ELSE Bad
             IN  IF c.ok THEN Got(<<s.v, c.v>>, c.next) ELSE Bad
ShareList(b, i) == LET n == Num32(b, i) IN IF n.ok THEN Times(b, n.v, n.next, LAMBDA j : Num32(b, j)) ELSE Bad
ColumnCell(b, k, i) ==
    IF k <= 22 THEN Num32(b, i)
    ELSE IF k = 23 THEN LET r == Times(b, 7, i, LAMBDA j : AltCell(b, j)) IN IF r.ok THEN Got(Flatten(r.v), r.next) ELSE Bad
    ELSE IF k = 24 THEN Times(b, 7, i, LAMBDA j : Num32(b, j))
    ELSE ShareList(b, i)
StrictRows(b) ==
    LET n == Num32(b, 1)
        cols == FoldLeft(LAMBDA acc, k : IF ~acc.ok THEN acc
                             ELSE LET c == Times(b, n.v, acc.next, LAMBDA j : ColumnCell(b, k, j))
                                  IN  IF c.ok THEN Got(Append(acc.v, c.v), c.next) ELSE Bad,
                         Got(<<>>, n.next), [k \in 1..25 |-> k])
    IN  IF ~n.ok THEN Refusal
        ELSE IF ~cols.ok THEN Refusal
        ELSE IF ~Ended(b, cols.next) THEN Refusal
        ELSE Whole([i \in 1..n.v |-> [n |-> [k \in 1..22 |-> cols.v[k][i]], a |-> cols.v[23][i], z |-> cols.v[24][i], pz |-> cols.v[25][i]]])

-----------------------------------------------------------------------------
(* dictionaries: lines "code distance children terminal"                     *)
DictLines(b) ==
    LET ls == Split(b, LAMBDA c : c = 10)
    IN  SubSeq(ls, 1, Len(ls) - 1)
At32(l, i) == i <= Len(l) /\ l[i] = 32
Field(l, i) ==      \* a number of a line, and what follows it
    LET n == Num32(l, i) IN IF i > Len(l) THEN Bad ELSE IF ~IsDigit(l[i]) THEN Bad ELSE n
NodeLine(l) ==
    LET c == Field(l, 1)
        p == IF c.ok /\ At32(l, c.next) THEN Field(l, c.next + 1) ELSE Bad
        n == IF p.ok /\ At32(l, p.next) THEN Field(l, p.next + 1) ELSE Bad
        t == IF n.ok /\ At32(l, n.next) THEN Field(l, n.next + 1) ELSE Bad
    IN  t.ok /\ t.v \in {0, 1} /\ t.next = Len(l) + 1
\* every node on a line of its own, the last line as the others
DictReadable(b) ==
    /\ b = <<>> \/ b[Len(b)] = 10
    /\ \A k \in 1..Len(DictLines(b)) : NodeLine(DictLines(b)[k])
\* no node has a child out of the file, or before itself; the first level ends in the file
DictInside(nodes) ==
    \A i \in 1..Len(nodes) : nodes[i].n # 0 \/ i = 1 =>
        /\ nodes[i].pos >= 1 /\ nodes[i].n >= 0
        /\ nodes[i].pos <= Len(nodes) /\ nodes[i].n <= Len(nodes)
        /\ (IF nodes[i].n = 0 THEN i + nodes[i].pos - 1 ELSE i + nodes[i].pos + nodes[i].n - 1) <= Len(nodes)
DictRefused(b) == ~DictReadable(b) \/ ~DictInside(NodesOf(b))
\* as the writer makes them: breadth first, of characters in order
OneChar(c) == LET k == Len(c) IN
    CASE k = 1 -> c[1] \in 1..127
      [] k = 2 -> c[1] \in 192..223
      [] k = 3 -> c[1] \in 224..239
      [] k = 4 -> c[1] \in 240..247
      [] OTHER -> FALSE
DictWritten(b) ==
    /\ DictReadable(b)
    /\ LET nodes == NodesOf(b) IN
         /\ DictInside(nodes) /\ FlatSound(nodes)
         /\ \A i \in 1..Len(nodes) : OneChar(nodes[i].c)
         /\ \A i \in 1..(IF nodes = <<>> THEN 0 ELSE nodes[1].pos - 1) : LtSeq(nodes[i].c, nodes[i + 1].c)
         /\ \A i \in 1..(Len(nodes) - 1) : i + nodes[i].pos + nodes[i].n = i + 1 + nodes[i + 1].pos

-----------------------------------------------------------------------------
(* line information: words and four numbers each                             *)
Info(b, i) ==
    LET w == Token(b, i)
        ns == IF w.ok THEN Times(b, 4, w.next, LAMBDA j : Num32(b, j)) ELSE Bad
    IN  IF ns.ok THEN Got(<<w.v, ns.v>>, ns.next) ELSE Bad
RECURSIVE InfosUpTo(_, _, _)
InfosUpTo(b, i, es) ==
    IF Ended(b, i) THEN Whole(es)
    ELSE LET e == Info(b, i) IN IF e.ok THEN InfosUpTo(b, e.next, Append(es, e.v)) ELSE Refusal
StrictInfos(b) ==
    LET r == InfosUpTo(b, 1, <<>>)
    IN  IF r.ok THEN Whole(SelectSeq(r.v, LAMBDA e : Len(e[1]) <= MaxWordOfInfo)) ELSE Refusal
=============================================================================
