------------------------------- MODULE MCDamage -------------------------------
(* A writer writes a file of one of the databases, byte after byte, and may  *)
(* be killed at any of them; later a byte may be damaged.  At every moment   *)
(* somebody may read what is there.                                          *)
EXTENDS Damage
CONSTANTS MaxEntries, Noise
VARIABLES kind, things, file, n, hurt
vars == <<kind, things, file, n, hurt>>

Images0 == {MkImg(1, 1, LAMBDA x, y : Ink), MkImg(2, 1, LAMBDA x, y : IF x = 0 THEN Ink ELSE Dash)}
Views0  == {<<<<97>>, <<102>>, -1>>, <<<<97, 98>>, <<103>>, 12>>}
Glyphs0 == [img : Images0, views : {<<>>} \cup {<<v>> : v \in Views0} \cup {<<v, w>> : v, w \in Views0}]
Rows0   == {Row(MkImg(1, 1, LAMBDA x, y : Ink)), Row(MkImg(2, 3, LAMBDA x, y : IF x = 0 /\ y = 1 THEN Ink ELSE Dash))}
Infos0  == {<<<<97>>, <<0, -1, 12, 3>>>>, <<<<98, 99>>, <<1, 2, 3, 40>>>>, <<[i \in 1..9 |-> 97], <<1, 2, 3, 4>>>>}
Words0  == {<<97>>, <<97, 98>>, <<98>>, <<98, 97, 97>>, <<97, 97>>}

\* the writers
InfoBytes(e)  == e[1] \o Flatten([i \in 1..4 |-> SP \o NumText(e[2][i])]) \o EL
RowsBytes(rows) == Flatten([k \in 1..26 |-> LET l == FileLines(rows)[k]
                                            IN  Flatten([i \in 1..Len(l) |-> NumText(l[i]) \o (IF k = 1 THEN <<>> ELSE SP)]) \o EL])
\* a dictionary: the prefixes of the words by length then order, the children of each
Starts(D) == UNION {{SubSeq(w, 1, i) : i \in 1..Len(w)} : w \in D}
Layer(D) == SetToSortSeq(Starts(D), LAMBDA a, b : Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LtSeq(a, b)))
NodesIn(D) ==
    LET L == Layer(D)
        kids(p) == {i \in 1..Len(L) : Len(L[i]) = Len(p) + 1 /\ SubSeq(L[i], 1, Len(p)) = p}
        before(i) == Cardinality({j \in 1..Len(L) : Len(L[j]) = 1}) + Sum(i - 1, LAMBDA k : Cardinality(kids(L[k])))
    IN  [i \in 1..Len(L) |-> [c |-> <<L[i][Len(L[i])]>>, pos |-> before(i) + 1 - i, n |-> Cardinality(kids(L[i])),
                              t |-> IF L[i] \in D THEN 1 ELSE 0]]
NodeBytes(x) == Digits(x.c[1]) \o SP \o Digits(x.pos) \o SP \o Digits(x.n) \o SP \o Digits(x.t) \o EL
DictBytes(D) == LET ns == NodesIn(D) IN Flatten([i \in 1..Len(ns) |-> NodeBytes(ns[i])])
Each(Write(_), s) == Flatten([i \in 1..Len(s) |-> Write(s[i])])

Lists(S) == UNION {[1..k -> S] : k \in 0..MaxEntries}
Init == /\ n = 0 /\ hurt = FALSE
        /\ \/ kind = "glyphs" /\ things \in Lists(Glyphs0) /\ file = Each(GlyphBytes, things)
           \/ kind = "rows"   /\ things \in Lists(Rows0)   /\ file = RowsBytes(things)
           \/ kind = "infos"  /\ things \in Lists(Infos0)  /\ file = Each(InfoBytes, things)
           \/ kind = "dict"   /\ things \in SUBSET Words0  /\ file = DictBytes(things)
Write == n < Len(file) /\ n' = n + 1 /\ UNCHANGED <<kind, things, file, hurt>>
Hurt == /\ n = Len(file) /\ ~hurt /\ hurt' = TRUE
        /\ \E i \in 1..Len(file), c \in Noise : file' = [file EXCEPT ![i] = c]
        /\ UNCHANGED <<kind, things, n>>
Next == Write \/ Hurt
Spec == Init /\ [][Next]_vars

There == SubSeq(file, 1, n)
\* the glyphs (entries) which are written whole, without what ends their last number
Ends(sizes, tails) ==       \* positions where a cut does not show: the end of an entry, or in its last number
    {0} \cup UNION {LET e == Sum(k, LAMBDA j : sizes[j]) IN (e - tails[k])..e : k \in 1..Len(sizes)}
GlyphTail(g) == IF g.views = <<>> THEN Len(NumText(0)) ELSE Len(NumText(g.views[Len(g.views)][3]))
InfoTail(e)  == Len(NumText(e[2][4]))
SameBut(a, b, SameLast(_, _)) ==    \* the first entries of b, the last of which may be cut in its number
    /\ Len(a) <= Len(b)
    /\ \A i \in 1..(Len(a) - 1) : a[i] = b[i]
    /\ a # <<>> => SameLast(a[Len(a)], b[Len(a)])

GlyphsCut == kind = "glyphs" /\ ~hurt =>
    LET r == StrictGlyphs(There)
    IN  /\ r.ok <=> n \in Ends([i \in 1..Len(things) |-> Len(GlyphBytes(things[i]))], [i \in 1..Len(things) |-> GlyphTail(things[i])])
        /\ r.ok => SameBut(r.v, things, LAMBDA x, y : x.img = y.img /\ Len(x.views) = Len(y.views)
                            /\ \A k \in 1..Len(x.views) : x.views[k][1] = y.views[k][1] /\ x.views[k][2] = y.views[k][2])
        \* those who need a part of it take it too, and find the same
        /\ r.ok => /\ ViewsOnly(There).ok /\ DrawingsOnly(There).ok
                   /\ ViewsOnly(There).v = [i \in 1..Len(r.v) |-> [k \in 1..Len(r.v[i].views) |-> SubSeq(r.v[i].views[k], 1, 2)]]
                   /\ DrawingsOnly(There).v = [i \in 1..Len(r.v) |-> r.v[i].img]
        \* and never an entry more than what was written of it at least in part
        /\ ViewsOnly(There).ok => Len(ViewsOnly(There).v) <= Len(things)
        /\ DrawingsOnly(There).ok => \A i \in 1..Len(DrawingsOnly(There).v) : DrawingsOnly(There).v[i] = things[i].img
RowsCut == kind = "rows" /\ ~hurt =>
    LET r == StrictRows(There)
    IN  /\ r.ok => SameBut(r.v, things, LAMBDA x, y : [x EXCEPT !.pz = <<>>] = [y EXCEPT !.pz = <<>>] /\ Len(x.pz) = Len(y.pz))
        /\ r.ok => Len(r.v) = Len(things)
        /\ n = Len(file) => r.ok /\ r.v = things
InfosCut == kind = "infos" /\ ~hurt =>
    LET r == InfosUpTo(There, 1, <<>>)
    IN  /\ r.ok <=> n \in Ends([i \in 1..Len(things) |-> Len(InfoBytes(things[i]))], [i \in 1..Len(things) |-> InfoTail(things[i]) ])
        /\ r.ok => SameBut(r.v, things, LAMBDA x, y : x[1] = y[1] /\ SubSeq(x[2], 1, 3) = SubSeq(y[2], 1, 3))
\* a dictionary is whole or refused
DictCut == kind = "dict" /\ ~hurt =>
    /\ DictRefused(There) <=> n \notin {0, Len(file)}
    /\ n = Len(file) => DictWritten(There) /\ Language(NodesOf(There)) = {Chars(w) : w \in things}
\* whatever the damage, what is taken is well made
WellMade == hurt =>
    CASE kind = "glyphs" -> LET r == StrictGlyphs(There) IN r.ok => \A i \in 1..Len(r.v) :
                                /\ Len(r.v[i].img.p) = r.v[i].img.w * r.v[i].img.h /\ r.v[i].img.p # <<>>
                                /\ \A k \in 1..Len(r.v[i].views) : r.v[i].views[k][1] # <<>> /\ r.v[i].views[k][2] # <<>>
      [] kind = "rows"   -> LET r == StrictRows(There) IN r.ok => \A i \in 1..Len(r.v) :
                                Len(r.v[i].a) = 14 /\ Len(r.v[i].z) = 7 /\ \A k \in 1..7 : r.v[i].a[2 * k - 1] \in {0, 1}
      [] kind = "infos"  -> StrictInfos(There).ok \in BOOLEAN
      [] kind = "dict"   -> ~DictRefused(There) => \A w \in Language(NodesOf(There)) : Len(w) <= Len(NodesOf(There))
=============================================================================
