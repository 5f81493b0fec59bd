------------------------------ MODULE TraceImg ------------------------------
(* Conformance of the image layer: reading, cutting, elementary operations.  *)
EXTENDS Pnm, Stretch, Replay

BigOf(e) == Stretched(e.img, e.cw, e.rh)
\* the points which are inside
Within(s, pts) == SelectSeq(pts, LAMBDA p : p[1] < s.w /\ p[2] < s.h)
Look(s, pts) == Seen(s, Within(s, pts))

RECURSIVE InDigits(_)
InDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(InDigits(n \div 10), 48 + (n % 10))

Explains(e) ==
    CASE e.st \notin {"ok", "exc"} -> FALSE            \* crash or hang
      [] e.op = "pnm" ->
            LET d == Decode(e.bytes, e.lum)
            IN  IF e.st = "exc" THEN ~d.ok
                ELSE d.ok /\ e.out = [w |-> d.w, h |-> d.h, p |-> d.p]
      [] e.st = "exc" -> FALSE
      [] e.op = "geom" -> Geometry(e.img, e.out)
      [] e.op = "cut"  -> CutOnlyBetween(e.img, e.out) /\ e.out = Boxes(e.img)
      [] e.op = "cuts" -> CutOnlyBetween(e.img, e.out)      \* (no recursion: for the widest ones)
      [] e.op = "rot"  -> e.out = Rotate90(e.img)
      [] e.op = "sec"  -> e.out = Section(e.img, e.x, e.y, e.w, e.h)
      [] e.op = "clone" -> e.out = e.img
      [] e.op = "draw" -> e.out = Draw(e.img)
      [] e.op = "cmp"  ->
            LET c == ImgCmp(e.img, e.img2)
                B(p) == IF p THEN 1 ELSE 0
            IN  e.out = <<c, B(c = 0), B(c # 0), B(c < 0)>>
      \* large images
      [] e.op = "bigseg" -> e.out = SBoxes(BigOf(e))
      [] e.op = "bigops" ->
            LET s == BigOf(e)
                p == Part(s, e.x, e.y, e.w, e.h)
            IN  e.out = [img |-> Look(s, e.at), turned |-> Look(Turned(s), e.at), part |-> Look(p, e.at),
                         work |-> Look(p, e.at), work90 |-> Look(Turned(p), e.at),
                         back |-> 0, same |-> 1, parts |-> 0]
      [] e.op = "bigcmp" ->      \* two drawings stretched in the same way
            LET c == ImgCmp(e.img, e.img2)
                B(p) == IF p THEN 1 ELSE 0
            IN  e.out = <<c, B(c = 0), B(c # 0), B(c < 0)>>
      [] e.op = "bigpnm" ->      \* small: a file of the drawing, with the same cells
            LET d == Decode(e.small, e.lum)
            IN  d.ok /\ e.out = Look(Stretched([w |-> d.w, h |-> d.h, p |-> d.p], e.cw, e.rh), e.at)
      [] e.op = "work" ->
            LET s == Section(e.img, e.x, e.y, e.w, e.h)
            IN  e.out = [img |-> s, img90 |-> Rotate90(s)]
      [] e.op = "coord" ->
            e.out = [text |-> InDigits(e.x) \o <<32>> \o InDigits(e.y) \o <<10>>
                              \o InDigits(e.w) \o <<32>> \o InDigits(e.h) \o <<32, 101, 110, 100>>,
                     x |-> e.x, y |-> e.y, w |-> e.w, h |-> e.h, area |-> e.w * e.h,
                     in |-> IF e.x < e.w /\ e.y < e.h THEN 1 ELSE 0, same |-> 1, kept |-> 1,
                     eq |-> IF e.w = e.h THEN 1 ELSE 0, eqi |-> IF e.x = e.y THEN 1 ELSE 0,
                     box |-> <<e.x, e.y, e.x + e.w - 1, e.y + e.h - 1, e.w, e.h, IF e.w > 0 /\ e.h > 0 THEN 1 ELSE 0, 0, 1>>,
                     boxtext |-> InDigits(e.x) \o <<32>> \o InDigits(e.y) \o <<32>> \o InDigits(e.w) \o <<32>> \o InDigits(e.h)]
      [] e.op = "at"   ->
            LET row  == [i \in 1..e.w |-> IsInk(e.img, e.x + i - 1, e.y)]
                prof == [i \in 1..e.w |-> \E y \in e.y..(e.y + e.h - 1) : IsInk(e.img, e.x + i - 1, y)]
                B(p) == IF p THEN 1 ELSE 0
                Bs(s) == [i \in 1..Len(s) |-> B(s[i])]
                n    == Cardinality({i \in 1..e.w : row[i]})
            IN  /\ e.out.pix = Pix(e.img, e.x, e.y)
                /\ e.out.row = Bs(row) /\ e.out.prof = Bs(prof)
                /\ e.out.any = B(n > 0) /\ e.out.all = B(n = e.w) /\ e.out.none = B(n = 0)
                /\ e.out.runs = 1 + Cardinality({i \in 2..e.w : prof[i] # prof[i - 1]})

TraceNext == More /\ Consume /\ (IF Explains(Ev) THEN TRUE ELSE Reject)
TraceSpec == ReplayInit /\ [][TraceNext]_<<shard, at>>
=============================================================================
