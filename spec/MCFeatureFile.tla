----------------------------- MODULE MCFeatureFile -----------------------------
(* A database is written, read back, and goes on growing: the machine loads  *)
(* rows, writes the file, reads it.                                          *)
EXTENDS FeatureFile
CONSTANT MaxRows
VARIABLES rows, file, back
Alphabet == {Row(MkImg(1, 1, LAMBDA x, y : Ink)), Row(MkImg(1, 1, LAMBDA x, y : Dash)),
             Row(MkImg(2, 3, LAMBDA x, y : IF x = 0 /\ y = 1 THEN Ink ELSE Dash)),
             Row(MkImg(3, 3, LAMBDA x, y : IF x = 1 \/ y = 1 THEN Ink ELSE Dash))}
Init == rows = <<>> /\ file = <<>> /\ back = <<>>
Load == Len(rows) < MaxRows /\ \E r \in Alphabet : rows' = Append(rows, r) /\ file' = <<>> /\ back' = <<>>
Write == file = <<>> /\ file' = FileLines(rows) /\ UNCHANGED <<rows, back>>
Read == file # <<>> /\ back' = RowsOf(file) /\ UNCHANGED <<rows, file>>
Spec == Init /\ [][Load \/ Write \/ Read]_<<rows, file, back>>
SameRows == file # <<>> => RowsOf(file) = rows
\* the file is columns: one line per column, and the number of rows
Shape == file # <<>> => Len(file) = 26 /\ \A k \in 2..23 : Len(file[k]) = Len(rows)
\* different rows give different files
Faithful == file # <<>> => \A r \in Alphabet : FileLines(Append(rows, r)) # file
=============================================================================
