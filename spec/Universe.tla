------------------------------- MODULE Universe -------------------------------
(* Recognition of the image of a character: the glyphs of the database which *)
(* are close enough.  A database is [rows, views]: rows[i] as made by        *)
(* Features!Row, views[i] the views <<word, font>> of glyph i.               *)
EXTENDS Distance, Db

(* Scores are products of many hundredths: naturals in base 10000, least     *)
(* significant digit first.                                                  *)
RECURSIVE MulFrom(_, _, _)
MulFrom(n, c, carry) ==
    IF n = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry % 10000>> \o MulFrom(<<>>, c, carry \div 10000))
    ELSE LET v == n[1] * c + carry
         IN  <<v % 10000>> \o MulFrom(Tail(n), c, v \div 10000)
RECURSIVE Strip(_)
Strip(n) == IF n # <<>> /\ n[Len(n)] = 0 THEN Strip(SubSeq(n, 1, Len(n) - 1)) ELSE n
Mul(n, c) == Strip(MulFrom(n, c, 0))
CmpNat(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET d == {i \in 1..Len(a) : a[i] # b[i]}
         IN  IF d = {} THEN 0 ELSE IF a[Max(d)] < b[Max(d)] THEN -1 ELSE 1
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN <<1>> ELSE Mul(Product(Tail(s)), s[1])

-----------------------------------------------------------------------------
(* the steps of the selection                                                *)
Near(row, q)  == \A k \in 1..NumSimple : Abs(row.n[k] - q.n[k]) <= Interval[k] \div 10
Simple(db, q) == {i \in 1..Len(db.rows) : Near(db.rows[i], q)}
SimpleFactors(row, q) == [k \in 1..NumSimple |-> CloseInterval(k, row.n[k], q.n[k])]
Perfect(row, q) == \A k \in 1..NumSimple : CloseInterval(k, row.n[k], q.n[k]) = 100
SameBars(row, q) == row.n[21] = q.n[21] /\ row.n[22] = q.n[22]
Structured(db, q, S) == {i \in S : SameBars(db.rows[i], q) /\ CloseAlt(db.rows[i].a, q.a) >= 50}
ZoneWise(row, q) == CloseZone(row.z, q.z) >= 50 /\ ClosePropZone(row.pz, q.pz) >= 50
NotContradicted(db, q, S) ==
    {i \in S : LET sib == Siblings(db.views, i)
               IN  sib = {} \/ \E j \in sib : ZoneWise(db.rows[j], q)}
Score(row, q) == Product(Append(SimpleFactors(row, q), CloseAlt(row.a, q.a)))

\* one entry per class among S: its best score and the glyphs which have it
Classes(db, S, score) ==
    LET mates(i) == {j \in S : SameClass(db.views, i, j)}
        best(i)  == {j \in mates(i) : \A k \in mates(i) : CmpNat(score[j], score[k]) >= 0}
    IN  {[reps |-> best(i), score |-> score[CHOOSE j \in best(i) : TRUE]] : i \in S}

\* out is what is left to write, G the classes not yet written, limit the score under which
\* (twice) a class is dropped
RECURSIVE Written(_, _, _, _)
Written(db, out, G, limit) ==
    IF G = {} THEN out = <<>>
    ELSE LET top == {g \in G : \A h \in G : CmpNat(g.score, h.score) >= 0}
             s   == (CHOOSE g \in top : TRUE).score
             c   == CmpNat(Mul(s, 2), limit)
         IN  IF c < 0 THEN out = <<>>
             ELSE \/ c = 0 /\ out = <<>>        \* exactly half: rounding decides
                  \/ \E g \in top : \E i \in g.reps :
                        /\ Len(db.views[i]) <= Len(out)
                        /\ SubSeq(out, 1, Len(db.views[i])) = db.views[i]
                        /\ Written(db, SubSeq(out, Len(db.views[i]) + 1, Len(out)), G \ {g}, limit)

\* the same when only the words are known: every sequence of views they may stand for
RECURSIVE WrittenViews(_, _, _, _)
WrittenViews(db, words, G, limit) ==
    LET top == {g \in G : \A h \in G : CmpNat(g.score, h.score) >= 0}
        s   == (CHOOSE g \in top : TRUE).score
        c   == CmpNat(Mul(s, 2), limit)
        fits(i) == LET n == Len(db.views[i])
                   IN  n <= Len(words) /\ WordsOf(db.views[i]) = SubSeq(words, 1, n)
        go(g) == UNION {{db.views[i] \o rest :
                            rest \in WrittenViews(db, SubSeq(words, Len(db.views[i]) + 1, Len(words)), G \ {g}, limit)}
                        : i \in {k \in g.reps : fits(k)}}
    IN  IF G = {} \/ c < 0 THEN (IF words = <<>> THEN {<<>>} ELSE {})
        ELSE (IF c = 0 /\ words = <<>> THEN {<<>>} ELSE {}) \cup UNION {go(g) : g \in top}

(* What is left to write of a query: groups and limit.                       *)
Groups(db, q) ==
    LET S == Simple(db, q)
        P == {i \in S : Perfect(db.rows[i], q)}
    IN  IF P # {} THEN [groups |-> Classes(db, P, [i \in P |-> <<1>>]), limit |-> <<1>>]
        ELSE LET E == NotContradicted(db, q, Structured(db, q, S))
                 G == Classes(db, E, [i \in E |-> Score(db.rows[i], q)])
             IN  IF E = {} THEN [groups |-> {}, limit |-> <<>>]
                 ELSE [groups |-> G, limit |-> (CHOOSE g \in G : \A h \in G : CmpNat(g.score, h.score) >= 0).score]
\* the candidates which may be those of q when their words are these
Outcomes(db, q, words) == LET g == Groups(db, q) IN WrittenViews(db, words, g.groups, g.limit)

\* the candidates of q: a sequence of views.  Glyphs of the same class and score may stand
\* for one another, and classes of the same score may come in any order.
Candidates(db, q, out) == LET g == Groups(db, q) IN Written(db, out, g.groups, g.limit)
=============================================================================
