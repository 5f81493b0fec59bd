------------------------------ MODULE MCUniverse ------------------------------
(* Recognition as a machine: a database is learned glyph by glyph, a drawing *)
(* comes, the glyphs too far in one measure leave one measure at a time,     *)
(* then the classes left are written, the best first.                        *)
EXTENDS Universe
CONSTANTS MaxGlyphs, Drawings
VARIABLES db, asked, left, col, out, taken, stage
vars == <<db, asked, left, col, out, taken, stage>>
From(w, h, ink) == MkImg(w, h, LAMBDA x, y : IF <<x, y>> \in ink THEN Ink ELSE Dash)
Imgs == <<From(3, 3, {<<1, 0>>, <<1, 1>>, <<1, 2>>}),                       \* a bar
          From(1, 3, {<<0, 0>>, <<0, 1>>, <<0, 2>>}),
          From(6, 6, (0..5) \X (0..5)),
          From(6, 6, ((0..5) \X (0..5)) \ {<<2, 2>>}),                      \* with a hole
          From(6, 6, ((0..5) \X (0..5)) \ {<<2, 3>>}),
          From(6, 6, ((0..5) \X (0..5)) \ {<<0, 0>>}),                      \* without a corner
          From(9, 9, {<<x, y>> \in (0..8) \X (0..8) : x = 0 \/ y = 8}),
          From(9, 9, {<<x, y>> \in (0..8) \X (0..8) : x = 0 \/ y = 8 \/ x = y}),
          From(9, 8, {<<x, y>> \in (0..8) \X (0..7) : x = 0 \/ y = 7})>>
RowsOfImgs == [i \in 1..Drawings |-> Row(Imgs[i])]
Views0 == {<<<<"a", 0>>>>, <<<<"a", 1>>>>, <<<<"b", 0>>>>, <<<<"a", 0>>, <<"b", 0>>>>}
Empty == [rows |-> <<>>, views |-> <<>>]
Init == /\ db = Empty /\ asked = 0 /\ left = {} /\ col = 0 /\ out = <<>> /\ taken = {} /\ stage = "learn"
Learn == /\ stage = "learn" /\ Len(db.rows) < MaxGlyphs
         /\ \E i \in 1..Drawings : \E v \in Views0 :
               db' = [rows |-> Append(db.rows, RowsOfImgs[i]), views |-> Append(db.views, v)]
         /\ UNCHANGED <<asked, left, col, out, taken, stage>>
Ask == /\ stage = "learn" /\ \E i \in 1..Drawings : asked' = i
       /\ stage' = "reduce" /\ left' = 1..Len(db.rows) /\ col' = 1
       /\ UNCHANGED <<db, out, taken>>
Q == RowsOfImgs[asked]
Reduce == /\ stage = "reduce" /\ col <= NumSimple
          /\ left' = {i \in left : Abs(db.rows[i].n[col] - Q.n[col]) <= Interval[col] \div 10}
          /\ col' = col + 1 /\ UNCHANGED <<db, asked, out, taken, stage>>
\* without a perfect glyph, the structure counts too
Judge == /\ stage = "reduce" /\ col > NumSimple
         /\ left' = IF \E i \in left : Perfect(db.rows[i], Q) THEN {i \in left : Perfect(db.rows[i], Q)}
                    ELSE NotContradicted(db, Q, Structured(db, Q, left))
         /\ stage' = "write" /\ UNCHANGED <<db, asked, col, out, taken>>
Value(i) == IF Perfect(db.rows[i], Q) THEN <<1>> ELSE Score(db.rows[i], Q)
Free == {i \in left : ~\E j \in taken : SameClass(db.views, i, j)}
Best == {i \in Free : \A j \in Free : CmpNat(Value(i), Value(j)) >= 0}
Top  == CHOOSE i \in left : \A j \in left : CmpNat(Value(i), Value(j)) >= 0
Write == /\ stage = "write" /\ Free # {}
         /\ CmpNat(Mul(Value(CHOOSE i \in Best : TRUE), 2), Value(Top)) >= 0
         /\ \E i \in Best : out' = out \o db.views[i] /\ taken' = taken \cup {i}
         /\ UNCHANGED <<db, asked, left, col, stage>>
Stop == /\ stage = "write"
        /\ IF Free = {} THEN TRUE ELSE CmpNat(Mul(Value(CHOOSE i \in Best : TRUE), 2), Value(Top)) < 0
        /\ stage' = "done" /\ UNCHANGED <<db, asked, left, col, out, taken>>
Spec == Init /\ [][Learn \/ Ask \/ Reduce \/ Judge \/ Write \/ Stop]_vars

Done == stage = "done"
\* the machine gives one of the candidates of the definition
Right == Done => Candidates(db, Q, out) /\ out \in Outcomes(db, Q, WordsOf(out))
\* a drawing of the database is recognised
Known == Done => \A i \in 1..Len(db.rows) : db.rows[i] = Q =>
    \E s \in 0..(Len(out) - Len(db.views[i])) : WordsOf(SubSeq(out, s + 1, s + Len(db.views[i]))) = WordsOf(db.views[i])
\* only views of near glyphs come out, one glyph per class
Origin == Done => /\ \A k \in 1..Len(out) : \E i \in left : \E m \in 1..Len(db.views[i]) : db.views[i][m] = out[k]
                  /\ \A i, j \in taken : i # j => ~SameClass(db.views, i, j)
\* the ranks of the glyphs count for nothing
Turned == [rows |-> Reverse(db.rows), views |-> Reverse(db.views)]
RankFree == Done => Outcomes(Turned, Q, WordsOf(out)) = Outcomes(db, Q, WordsOf(out))
=============================================================================
