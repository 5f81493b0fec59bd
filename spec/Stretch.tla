------------------------------- MODULE Stretch -------------------------------
(* Large images.  A stretched image is a small drawing g whose column c is    *)
(* repeated cw[c] times and whose row r is repeated rh[r] times: what the      *)
(* system answers about it is known from the drawing and from the widths and   *)
(* heights, whatever the number of pixels (millions).  MCStretch checks that   *)
(* this is the same as what the other modules say about Expand(s).             *)
(* Weighted sums do not fit in an integer of TLC: they are pairs               *)
(* <<millions, units>>.                                                        *)
EXTENDS Features, Segment

\* s: [g: image, cw: widths, rh: heights]; At: with its partial sums
Ends(ws) == TLCEval([k \in 1..(Len(ws) + 1) |-> SumSeq(SubSeq(ws, 1, k - 1))])
Stretched(g, cw, rh) ==
    LET xs == Ends(cw)
        ys == Ends(rh)
    IN  [g |-> g, cw |-> cw, rh |-> rh, xs |-> xs, ys |-> ys, w |-> xs[g.w + 1], h |-> ys[g.h + 1]]
ColOf(s, x) == CHOOSE c \in 1..s.g.w : s.xs[c] <= x /\ x < s.xs[c + 1]
RowOf(s, y) == CHOOSE r \in 1..s.g.h : s.ys[r] <= y /\ y < s.ys[r + 1]
CellInk(s, c, r) == IsInk(s.g, c - 1, r - 1)
SPix(s, x, y) == Pix(s.g, ColOf(s, x) - 1, RowOf(s, y) - 1)
Expand(s) == MkImg(s.w, s.h, LAMBDA x, y : SPix(s, x, y))

Reversed(ws) == [k \in 1..Len(ws) |-> ws[Len(ws) + 1 - k]]
Turned(s) == Stretched(Rotate90(s.g), s.rh, Reversed(s.cw))

SInk(s) == SumSeq([i \in 1..Area(s.g) |->
    IF s.g.p[i] # Ink THEN 0 ELSE s.cw[((i - 1) % s.g.w) + 1] * s.rh[((i - 1) \div s.g.w) + 1]])

-----------------------------------------------------------------------------
Million == 1000000
Norm(hi, lo) == <<hi + (lo \div Million), lo % Million>>
AddN(p, n) == Norm(p[1], p[2] + n)                   \* n >= 0
AddP(p, q) == Norm(p[1] + q[1], p[2] + q[2])
SubP(p, q) == Norm(p[1] - q[1], p[2] - q[2])         \* p >= q
MulP(p, k) == Norm(p[1] * k, p[2] * k)               \* k <= 200
GeP(p, q)  == p[1] > q[1] \/ (p[1] = q[1] /\ p[2] >= q[2])
Zero == <<0, 0>>
SumP(n, f(_)) == FoldFunction(LAMBDA v, acc : AddN(acc, v), Zero, [i \in 1..n |-> f(i)])
\* the k of 0..200 such that k = floor(m * p / q)
RECURSIVE QuotFrom(_, _, _, _)
QuotFrom(p, q, lo, hi) ==       \* lo * q <= p < (hi + 1) * q
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF GeP(p, MulP(q, mid)) THEN QuotFrom(p, q, mid, hi) ELSE QuotFrom(p, q, lo, mid - 1)
Quot(m, p, q) == QuotFrom(MulP(p, m), q, 0, 200)

-----------------------------------------------------------------------------
\* ink of the row y (from 0) between the columns x0 and x1 - 1
SRowInk(s, r, x0, x1) ==        \* r: row of the drawing
    SumSeq([c \in 1..s.g.w |->
        IF CellInk(s, c, r) THEN Max2(0, Min2(x1, s.xs[c + 1]) - Max2(x0, s.xs[c])) ELSE 0])
SHalf(s) == s.h \div 2

\* what the measures need, once: for each row, the row of the drawing it comes from
DrawnRows(s) == TLCEval([y \in 1..s.h |-> RowOf(s, y - 1)])
FullInk(s) == TLCEval([r \in 1..s.g.h |-> SRowInk(s, r, 0, s.w)])

SNumbers4(s) ==       \* the half and triangle measures of one direction
    LET n    == SHalf(s)
        of   == DrawnRows(s)
        full == FullInk(s)
        bot(i) == s.h - n + i                             \* i-th row of the lower half, from 1
        topf == TLCEval([i \in 1..n |-> full[of[i]]])
        botf == TLCEval([i \in 1..n |-> full[of[bot(i)]]])
        mtop == TLCEval([i \in 1..n |-> Margin(s.w, i)])
        topd == TLCEval([i \in 1..n |-> SRowInk(s, of[i], mtop[i], s.w - mtop[i])])
        botd == TLCEval([i \in 1..n |-> SRowInk(s, of[bot(i)], mtop[n - i + 1], s.w - mtop[n - i + 1])])
        band == TLCEval([i \in 1..n |-> s.w - 2 * mtop[i]])
        ti == SumP(n, LAMBDA i : topf[i])
        bi == SumP(n, LAMBDA i : botf[i])
        tg == SumP(n, LAMBDA i : (n - i + 1) * topf[i])
        bg == SumP(n, LAMBDA i : i * botf[i])
        a1 == SumP(n, LAMBDA i : s.w)
        a2 == SumP(n, LAMBDA i : i * s.w)
        di == SumP(n, LAMBDA i : topd[i])
        ei == SumP(n, LAMBDA i : botd[i])
        dg == SumP(n, LAMBDA i : (n - i + 1) * topd[i])
        eg == SumP(n, LAMBDA i : i * botd[i])
        b1 == SumP(n, LAMBDA i : band[i])
        b2 == SumP(n, LAMBDA i : (n - i + 1) * band[i])
        share(t, b) == IF t = Zero /\ b = Zero THEN 100 ELSE Quot(200, t, AddP(t, b))
        half(a, t, b) == IF a = Zero THEN 50 ELSE Quot(100, SubP(AddP(a, t), b), MulP(a, 2))
        part(t, a) == IF a = Zero THEN 50 ELSE Quot(100, t, a)
    IN  [hdir |-> share(ti, bi), hdir2 |-> half(a1, ti, bi), hgrav |-> share(tg, bg), hgrav2 |-> half(a2, tg, bg),
         ddir |-> share(di, ei), dgrav |-> share(dg, eg), ddir2 |-> part(di, b1), dgrav2 |-> part(dg, b2)]

SBandX0(s, y) == Max2(0, CeilDiv(3 * s.w + 3 * s.w * y - s.w * s.h, 3 * s.h))
SBandX1(s, y) == Min2(s.w, (3 * s.w * y + s.w * s.h) \div (3 * s.h))
SDzDensity(s) ==
    IF s.w < 3 \/ s.h < 3 THEN 0
    ELSE LET of == DrawnRows(s)
             n == SumP(s.h, LAMBDA i : SRowInk(s, of[i], SBandX0(s, i - 1), SBandX1(s, i - 1)))
             a == SumP(s.h, LAMBDA i : SBandX1(s, i - 1) - SBandX0(s, i - 1))
         IN  Quot(100, n, a)

SNumbers(s) ==
    LET r == Turned(s)
        m == SNumbers4(s)
        t == SNumbers4(r)
    IN  << t.dgrav2, t.ddir2, SDzDensity(s), SDzDensity(r), m.ddir2, m.dgrav2,
           m.hdir, t.hdir, m.hdir2, t.hdir2, m.hgrav, t.hgrav, m.hgrav2, t.hgrav2,
           (100 * s.w) \div (s.w + s.h), m.ddir, t.ddir, m.dgrav, t.dgrav,
           Quot(100, AddN(Zero, SInk(s)), AddN(Zero, s.w * s.h)), HBar(s.g), HBar(r.g) >>

\* a profile has as many runs as that of the drawing; n rows from y0
SProfile(s, y0, n) ==
    LET rows == IF n = 0 THEN {} ELSE RowOf(s, y0)..RowOf(s, y0 + n - 1)
    IN  [c \in 1..s.g.w |-> \E r \in rows : CellInk(s, c, r)]
SAlternations(s) ==
    LET r == Turned(s)
        third(i) == i.h \div 3
    IN  << IF s.h < 2 THEN <<0, 0>> ELSE Alt(SProfile(s, (s.h - 2) \div 3, 1)),
           Alt(SProfile(s, (2 * s.h - 1) \div 3, 1)),
           Alt(SProfile(s, 0, third(s))),
           Alt(SProfile(s, s.h - third(s), third(s))),
           Alt(SProfile(r, (r.h - 1) \div 2, 1)),
           Alt(SProfile(r, r.h - third(r), third(r))),
           Alt(SProfile(r, 0, third(r))) >>

\* zones: those of the drawing, their sides as long as the cells
SSides(s, z) ==
    LET cols(S) == SumSeq(LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> s.cw[((q[k] - 1) % s.g.w) + 1]])
        rows(S) == SumSeq(LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> s.rh[((q[k] - 1) \div s.g.w) + 1]])
    IN  [t |-> cols(z \cap TopCells(s.g)), r |-> rows(z \cap RightCells(s.g)),
         b |-> cols(z \cap BottomCells(s.g)), l |-> rows(z \cap LeftCells(s.g))]
SZones(s) == LET zs == SetToSeq(Zones(s.g)) IN [i \in 1..Len(zs) |-> SSides(s, zs[i])]

SRow(s) ==
    LET zs == SZones(s)
    IN  [n |-> SNumbers(s), a |-> Flatten(SAlternations(s)), z |-> ZoneFeatureOf(s.g, zs), pz |-> PropZoneOf(zs)]

-----------------------------------------------------------------------------
\* cutting: the boxes of the drawing, as large as their cells
SBoxes(s) ==
    LET bs == Boxes(s.g)
    IN  [k \in 1..Len(bs) |->
            LET b == bs[k]
            IN  << s.xs[b[1] + 1], s.ys[b[2] + 1],
                   s.xs[b[1] + b[3] + 1] - s.xs[b[1] + 1], s.ys[b[2] + b[4] + 1] - s.ys[b[2] + 1] >>]

\* what can be seen of an image x of the system: its size, its ink, some pixels
Seen(s, at) == [w |-> s.w, h |-> s.h, ink |-> SInk(s), at |-> [k \in 1..Len(at) |-> SPix(s, at[k][1], at[k][2])]]

\* a part of a stretched image is one: the cells which are kept, with what is kept of them
Cut(ends, k, a, b) == Max2(0, Min2(b, ends[k + 1]) - Max2(a, ends[k]))
Part(s, x, y, w, h) ==
    LET cs == SelectSeq([k \in 1..s.g.w |-> k], LAMBDA k : Cut(s.xs, k, x, x + w) > 0)
        rs == SelectSeq([k \in 1..s.g.h |-> k], LAMBDA k : Cut(s.ys, k, y, y + h) > 0)
    IN  Stretched(MkImg(Len(cs), Len(rs), LAMBDA i, j : Pix(s.g, cs[i + 1] - 1, rs[j + 1] - 1)),
                  [k \in 1..Len(cs) |-> Cut(s.xs, cs[k], x, x + w)],
                  [k \in 1..Len(rs) |-> Cut(s.ys, rs[k], y, y + h)])
\* order of two images: with the same stretching of both, that of the drawings
=============================================================================
