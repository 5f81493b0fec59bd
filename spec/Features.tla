------------------------------ MODULE Features ------------------------------
(* The 16 measures made on the image of a character.  Each is a function of *)
(* the image alone; a glyph database stores 25 of them (some are also made  *)
(* on the image turned by a quarter).                                       *)
EXTENDS Img

Half(img) == img.h \div 2      \* rows of the upper (and of the lower) half;
                               \* the middle row of an odd height is ignored
BotRow(img, j) == img.h - Half(img) + j    \* j-th row of the lower half

RowInk(img, y, x0, x1) == Cardinality({x \in x0..(x1 - 1) : IsInk(img, x, y)})
FullRowInk(img, y) == RowInk(img, y, 0, img.w)

\* 100 when there is no ink in either half, else share of the top on 0..200
Share200(t, b) == IF t + b = 0 THEN 100 ELSE (2 * t * 100) \div (t + b)

-----------------------------------------------------------------------------
(* direction: quantity of ink in each half                                  *)
TopInk(img) == Sum(Half(img), LAMBDA i : FullRowInk(img, i - 1))
BotInk(img) == Sum(Half(img), LAMBDA i : FullRowInk(img, BotRow(img, i - 1)))
HDirection(img)  == Share200(TopInk(img), BotInk(img))
HDirection2(img) ==
    LET a == Half(img) * img.w
    IN  IF Half(img) = 0 THEN 50 ELSE ((a + TopInk(img) - BotInk(img)) * 100) \div (2 * a)

(* gravity: the rows far from the... nearest to the top of the upper half and to *)
(* the bottom of the lower half weigh more                                  *)
TopGrav(img) == Sum(Half(img), LAMBDA i : (Half(img) - (i - 1)) * FullRowInk(img, i - 1))
BotGrav(img) == Sum(Half(img), LAMBDA i : i * FullRowInk(img, BotRow(img, i - 1)))
HGravity(img)  == Share200(TopGrav(img), BotGrav(img))
HGravity2(img) ==
    LET n == Half(img)
        a == ((n * (n + 1)) \div 2) * img.w
    IN  IF n = 0 THEN 50 ELSE ((a + TopGrav(img) - BotGrav(img)) * 100) \div (2 * a)

(* the same in the two triangles whose base is the top (resp. bottom) row:  *)
(* the k-th row from the base is cut by Margin on both sides                *)
Margin(w, k)  == w \div 2 - (w \div k) \div 2
DTopRow(img, i) == RowInk(img, i - 1, Margin(img.w, i), img.w - Margin(img.w, i))
DBotRow(img, i) ==     \* i = 1 is the row next to the middle
    LET m == Margin(img.w, Half(img) - i + 1)
    IN  RowInk(img, BotRow(img, i - 1), m, img.w - m)

DTopInk(img) == Sum(Half(img), LAMBDA i : DTopRow(img, i))
DBotInk(img) == Sum(Half(img), LAMBDA i : DBotRow(img, i))
DTopGrav(img) == Sum(Half(img), LAMBDA i : (Half(img) - i + 1) * DTopRow(img, i))
DBotGrav(img) == Sum(Half(img), LAMBDA i : i * DBotRow(img, i))

DvDirection(img) == Share200(DTopInk(img), DBotInk(img))
DvGravity(img)   == Share200(DTopGrav(img), DBotGrav(img))

DvDirection2(img) ==
    LET a == 2 * Sum(Half(img), LAMBDA i : img.w - 2 * Margin(img.w, i))
    IN  IF a = 0 THEN 50 ELSE (2 * DTopInk(img) * 100) \div a
DvGravity2(img) ==
    LET n == Half(img)
        a == 2 * Sum(n, LAMBDA i : (img.w - 2 * Margin(img.w, i)) * (n - i + 1))
    IN  IF a = 0 THEN 50 ELSE (2 * DTopGrav(img) * 100) \div a

-----------------------------------------------------------------------------
Density(img) == (Cardinality(InkSet(img)) * 100) \div Area(img)
Proportionality(img) == (img.w * 100) \div (img.w + img.h)

(* density in the band around the diagonal, a third of the image wide       *)
BandX0(img, y) == Max2(0, CeilDiv(3 * img.w + 3 * img.w * y - Area(img), 3 * img.h))
BandX1(img, y) == Min2(img.w, (3 * img.w * y + Area(img)) \div (3 * img.h))
DzDensity(img) ==
    IF img.w < 3 \/ img.h < 3 THEN 0
    ELSE LET n == Sum(img.h, LAMBDA i : RowInk(img, i - 1, BandX0(img, i - 1), BandX1(img, i - 1)))
             a == Sum(img.h, LAMBDA i : BandX1(img, i - 1) - BandX0(img, i - 1))
         IN  (n * 100) \div a

-----------------------------------------------------------------------------
(* structure *)
PlainRow(img, y) == \A x \in 0..(img.w - 1) : IsInk(img, x, y)
\* number of groups of consecutive rows entirely of ink
HBar(img) == Cardinality({y \in 0..(img.h - 1) :
                 PlainRow(img, y) /\ (y = 0 \/ ~PlainRow(img, y - 1))})

\* profile of the rows y0 .. y0+n-1: a column is true when it has ink
Profile(img, y0, n) ==
    [i \in 1..img.w |-> \E y \in y0..(y0 + n - 1) : IsInk(img, i - 1, y)]
\* first value and number of runs
Alt(s) == <<IF s[1] THEN 1 ELSE 0,
            1 + Cardinality({i \in 2..Len(s) : s[i] # s[i - 1]})>>
Alternations(img) ==
    LET r == Rotate90(img)
        third(i) == i.h \div 3
    IN  << IF img.h < 2 THEN <<0, 0>> ELSE Alt(Profile(img, (img.h - 2) \div 3, 1)),
           Alt(Profile(img, (2 * img.h - 1) \div 3, 1)),
           Alt(Profile(img, 0, third(img))),
           Alt(Profile(img, img.h - third(img), third(img))),
           Alt(Profile(r, (r.h - 1) \div 2, 1)),
           Alt(Profile(r, r.h - third(r), third(r))),
           Alt(Profile(r, 0, third(r))) >>

-----------------------------------------------------------------------------
(* zones: the 4-connected areas of background                               *)
Neigh(img, i) ==      \* i is 1-based
    LET x == (i - 1) % img.w
        y == (i - 1) \div img.w
    IN  (IF x > 0 THEN {i - 1} ELSE {}) \cup (IF x + 1 < img.w THEN {i + 1} ELSE {})
        \cup (IF y > 0 THEN {i - img.w} ELSE {}) \cup (IF y + 1 < img.h THEN {i + img.w} ELSE {})

\* free: background cells not yet reached
RECURSIVE Flood(_, _, _, _)
Flood(img, zone, front, free) ==
    IF front = {} THEN zone
    ELSE LET next == UNION {Neigh(img, i) : i \in front} \cap free
         IN  Flood(img, zone \cup next, next, free \ next)
RECURSIVE ZonesOf(_, _)
ZonesOf(img, free) ==
    IF free = {} THEN {}
    ELSE LET i == Min(free)
             z == Flood(img, {i}, {i}, free \ {i})
         IN  {z} \cup ZonesOf(img, free \ z)
Zones(img) == ZonesOf(img, {i \in 1..Area(img) : img.p[i] # Ink})

TopCells(img)    == 1..img.w
BottomCells(img) == (Area(img) - img.w + 1)..Area(img)
LeftCells(img)   == {y * img.w + 1 : y \in 0..(img.h - 1)}
RightCells(img)  == {y * img.w + img.w : y \in 0..(img.h - 1)}

\* what is asked of a zone: its length on each side
Sides(img, z) == [t |-> Cardinality(z \cap TopCells(img)),  r |-> Cardinality(z \cap RightCells(img)),
                  b |-> Cardinality(z \cap BottomCells(img)), l |-> Cardinality(z \cap LeftCells(img))]
ZonesByFlood(img) == LET zs == SetToSeq(Zones(img)) IN [i \in 1..Len(zs) |-> Sides(img, zs[i])]

(* The same without the zones themselves, row after row (used on big images; *)
(* MCZone checks that both are the same).  A zone which is not finished is   *)
(* known by its columns in the last row (prev) and in the current one (cur). *)
BgRuns(img, y) ==
    LET bg(x) == ~IsInk(img, x, y)
        start == SelectSeq([x \in 1..img.w |-> x - 1], LAMBDA x : bg(x) /\ (x = 0 \/ ~bg(x - 1)))
        stop  == SelectSeq([x \in 1..img.w |-> x - 1], LAMBDA x : bg(x) /\ (x = img.w - 1 \/ ~bg(x + 1)))
    IN  [k \in 1..Len(start) |-> <<start[k], stop[k]>>]
Together(cs, x0, x1, side) ==
    [prev |-> UNION {c.prev : c \in cs}, cur |-> UNION {c.cur : c \in cs} \cup x0..x1,
     s |-> LET all == [c \in cs |-> c.s]
               tot(f(_)) == FoldFunction(LAMBDA c, n : f(c) + n, 0, all)
           IN  [t |-> side.t + tot(LAMBDA c : c.t), r |-> side.r + tot(LAMBDA c : c.r),
                b |-> side.b + tot(LAMBDA c : c.b), l |-> side.l + tot(LAMBDA c : c.l)]]
SweepRow(img, st, y) ==      \* st: [open: set of zones, done: sequence of sides]
    LET n(p, k) == IF p THEN k ELSE 0
        add(open, run) ==
            LET hit == {c \in open : \E x \in c.prev : run[1] <= x /\ x <= run[2]}
                len == run[2] - run[1] + 1
            IN  (open \ hit) \cup {Together(hit, run[1], run[2],
                     [t |-> n(y = 0, len), r |-> n(run[2] = img.w - 1, 1),
                      b |-> n(y = img.h - 1, len), l |-> n(run[1] = 0, 1)])}
        after == FoldLeft(add, st.open, BgRuns(img, y))
        gone  == SetToSeq({c \in after : c.cur = {}})
    IN  [open |-> {[prev |-> c.cur, cur |-> {}, s |-> c.s] : c \in {d \in after : d.cur # {}}},
         done |-> st.done \o [i \in 1..Len(gone) |-> gone[i].s]]
ZonesBySweep(img) ==
    LET last == FoldLeft(LAMBDA st, y : SweepRow(img, st, y - 1), [open |-> {}, done |-> <<>>],
                         [y \in 1..img.h |-> y])
        open == SetToSeq(last.open)
    IN  last.done \o [i \in 1..Len(open) |-> open[i].s]

ZoneSides(img) == IF Area(img) <= 300 THEN ZonesByFlood(img) ELSE ZonesBySweep(img)

HowMany(zs, P(_)) == Cardinality({i \in 1..Len(zs) : P(zs[i])})
ZoneFeatureOf(img, zs) ==
    << IF img.p[1] = Ink THEN 1 ELSE 0,
       IF img.p[Area(img)] = Ink THEN 1 ELSE 0,
       HowMany(zs, LAMBDA z : z.t > 0), HowMany(zs, LAMBDA z : z.r > 0),
       HowMany(zs, LAMBDA z : z.b > 0), HowMany(zs, LAMBDA z : z.l > 0),
       HowMany(zs, LAMBDA z : z.t + z.r + z.b + z.l = 0) >>
ZoneFeature(img) == ZoneFeatureOf(img, ZoneSides(img))

\* length of a zone on the first border it touches: top, right, bottom, left
BorderLen(z) == IF z.t > 0 THEN z.t ELSE IF z.r > 0 THEN z.r ELSE IF z.b > 0 THEN z.b ELSE z.l
PropZoneOf(zs) ==
    LET lens == SelectSeq([i \in 1..Len(zs) |-> BorderLen(zs[i])], LAMBDA n : n > 0)
        tot  == SumSeq(lens)
    IN  SortSeq([i \in 1..Len(lens) |-> (lens[i] * 100) \div tot], <)
PropZone(img) == PropZoneOf(ZoneSides(img))

-----------------------------------------------------------------------------
(* the columns of a glyph database, in order                                *)
Columns == << "dvgravity2'", "dvdirection2'", "dzdensity", "dzdensity'", "dvdirection2", "dvgravity2",
              "hdirection", "hdirection'", "hdirection2", "hdirection2'", "hgravity", "hgravity'",
              "hgravity2", "hgravity2'", "proportionality", "dvdirection", "dvdirection'",
              "dvgravity", "dvgravity'", "density", "hbar", "hbar'", "alternations",
              "zone", "proportionality_zone" >>
NumSimple == 20
Interval == << 100, 100, 100, 100, 100, 100, 200, 200, 100, 100, 200, 200, 100, 100, 100,
               200, 200, 200, 200, 100 >>

\* the 20 numbers of the first group, then the two bars
Numbers(img) ==
    LET r == Rotate90(img)
    IN  << DvGravity2(r), DvDirection2(r), DzDensity(img), DzDensity(r), DvDirection2(img),
           DvGravity2(img), HDirection(img), HDirection(r), HDirection2(img), HDirection2(r),
           HGravity(img), HGravity(r), HGravity2(img), HGravity2(r), Proportionality(img),
           DvDirection(img), DvDirection(r), DvGravity(img), DvGravity(r), Density(img),
           HBar(img), HBar(r) >>
AltFlat(img) == Flatten(Alternations(img))

\* a row of a glyph database
Row(img) ==
    LET zs == ZoneSides(img)
    IN  [n |-> Numbers(img), a |-> AltFlat(img), z |-> ZoneFeatureOf(img, zs), pz |-> PropZoneOf(zs)]
=============================================================================
