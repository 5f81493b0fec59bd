------------------------------ MODULE TraceFeat ------------------------------
(* Conformance of the measures, of the comparison of their values, and of    *)
(* the files of features.                                                    *)
EXTENDS Distance, FeatureFile, Stretch, Replay

Bit01(p) == IF p THEN 1 ELSE 0
Rows(imgs) == [i \in 1..Len(imgs) |-> Row(imgs[i])]
\* the value of the columns as the file of the case gives them
Flat(k, v) == IF k <= 22 THEN v[1] ELSE v

BigOf(e) == Stretched(e.img, e.cw, e.rh)

Explains(e) ==
    CASE e.st # "ok" -> FALSE
      [] e.op = "row"     -> e.out = Row(e.img)
      \* the measures of one family
      [] e.op = "numeric" -> SubSeq(e.out.n, 1, 20) = SubSeq(Numbers(e.img), 1, 20)
                             /\ \A k \in 1..20 : e.out.n[k] \in 0..Interval[k]
      [] e.op = "shape"   -> SubSeq(e.out.n, 21, 22) = <<HBar(e.img), HBar(Rotate90(e.img))>>
                             /\ e.out.a = AltFlat(e.img)
      [] e.op = "zones"   -> e.out.z = ZoneFeature(e.img) /\ e.out.pz = PropZone(e.img)
      \* large images
      [] e.op = "bignumeric" -> SubSeq(e.out.n, 1, 20) = SubSeq(SNumbers(BigOf(e)), 1, 20)
      [] e.op = "bigshape" -> LET s == BigOf(e)
                              IN  SubSeq(e.out.n, 21, 22) = <<HBar(s.g), HBar(Turned(s).g)>>
                                  /\ e.out.a = Flatten(SAlternations(s))
      [] e.op = "bigzones" -> LET s == BigOf(e)
                                  zs == SZones(s)
                              IN  e.out.z = ZoneFeatureOf(s.g, zs) /\ e.out.pz = PropZoneOf(zs)
      \* several images in the same database, or with the same working context
      [] e.op \in {"rows", "ctx", "ctxi"} -> e.out = Rows(e.imgs)
      [] e.op = "rel" ->       \* x, y: values of column col; d: a limit
            LET x == Flat(e.col, e.x)
                y == Flat(e.col, e.y)
                c == Close(e.col, x, y)
                B(p) == Bit01(p)
            IN  e.out = [c      |-> IF e.col \in {21, 22} THEN c \div 100 ELSE c,
                         dist   |-> 100 * c,
                         with   |-> 100 * Close(e.col, y, x),
                         in     |-> B(Test(e.col, x, y, e.d)),
                         inwith |-> B(Test(e.col, x, y, e.d)),
                         count  |-> Count(e.col)]
      [] e.op = "dio" ->       \* features of imgs written, read back, then more loaded
            LET rs == Rows(e.imgs)
                n  == Len(rs)
            IN  /\ e.out.size = n /\ e.out.eof = 1
                /\ e.out.lines = FileLines(rs)
                /\ e.out.rows = rs
                /\ e.out.same = 1
                /\ e.out.eq = [i \in 1..(n * n) |->
                                  Bit01(rs[((i - 1) \div n) + 1] = rs[((i - 1) % n) + 1])]
                /\ e.out.after = Rows(e.more)
      [] e.op = "bigrows" ->   \* n rows of the images in turn: those which are asked
            LET rs == Rows(e.imgs)
            IN  /\ e.out.size = <<e.n, e.n>> /\ Len(e.out.rows) = Len(e.asked)
                /\ \A k \in 1..Len(e.asked) :
                       LET r == rs[(e.asked[k] % Len(rs)) + 1] IN e.out.rows[k] = <<r, r>>
      [] e.op = "din" ->       \* any rows, written by another program
            /\ e.out.eof = 1          \* to the end of the file
            /\ e.out.size = Len(e.rows)
            /\ e.out.rows = e.rows
            /\ FileLines(e.rows) = e.lines
      [] e.op = "dcmp" ->      \* closeness of the image and of the row of another one, per column
            LET a == Row(e.img)
                b == Row(e.img2)
                col(r, k) == IF k <= 22 THEN r.n[k] ELSE IF k = 23 THEN r.a ELSE IF k = 24 THEN r.z ELSE r.pz
                c == [k \in 1..25 |-> 100 * Close(k, col(a, k), col(b, k))]
            IN  e.out = [direct |-> c, loaded |-> c]
      [] e.op = "wd" ->        \* write_datas: the lines written for the glyph images imgs
            e.out = FileLines(Rows(e.imgs))

TraceNext == More /\ Consume /\ (IF Explains(Ev) THEN TRUE ELSE Reject)
TraceSpec == ReplayInit /\ [][TraceNext]_<<shard, at>>
=============================================================================
