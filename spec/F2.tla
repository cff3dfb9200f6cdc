-------------------------------- MODULE F2 --------------------------------
(***************************************************************************)
(* Linear algebra over the field with two elements.  A matrix is a         *)
(* sequence of rows, a row a sequence of 0 and 1; vectors are rows.        *)
(* Indices in recorded events count from 0.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Tp(f) == SubSeq(f, 1, Len(f))
XorRow(a, b) == Tp([i \in 1..Len(a) |-> (a[i] + b[i]) % 2])
ZeroRow(n) == Tp([i \in 1..n |-> 0])
IdM(n) == Tp([i \in 1..n |-> Tp([j \in 1..n |-> IF i = j THEN 1 ELSE 0])])
Dot(a, b) == FoldLeft(LAMBDA s, i : (s + a[i] * b[i]) % 2, 0, Tp([i \in 1..Len(a) |-> i]))
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Col(m, j) == Tp([i \in 1..Len(m) |-> m[i][j]])
TransposeM(m) == Tp([j \in 1..Cols(m) |-> Col(m, j)])
MatMul(a, b) == LET t == TransposeM(b) IN Tp([i \in 1..Len(a) |-> Tp([j \in 1..Len(t) |-> Dot(a[i], t[j])])])
MatVec(m, v) == Tp([i \in 1..Len(m) |-> Dot(m[i], v)])
IsZeroRow(r) == \A i \in 1..Len(r) : r[i] = 0
Weight(r) == Cardinality({i \in 1..Len(r) : r[i] = 1})
Rect(m, r, c) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = c /\ \A j \in 1..c : m[i][j] \in {0, 1}

\* the actions: row r0 is added to row r1, column c0 to column c1
RowAdd(m, r0, r1) == [m EXCEPT ![r1] = XorRow(m[r0], m[r1])]
ColAdd(m, c0, c1) == Tp([i \in 1..Len(m) |-> [m[i] EXCEPT ![c1] = (m[i][c0] + m[i][c1]) % 2]])
RowAdds(m, ops) == FoldLeft(LAMBDA x, o : RowAdd(x, o[1] + 1, o[2] + 1), m, ops)
ColAdds(m, ops) == FoldLeft(LAMBDA x, o : ColAdd(x, o[1] + 1, o[2] + 1), m, ops)

Lead(r) == CHOOSE i \in 1..Len(r) : r[i] = 1 /\ \A j \in 1..(i - 1) : r[j] = 0
\* a basis of the row span as a sequence of nonzero rows with different leading positions
ReduceBy(bs, r) == FoldLeft(LAMBDA x, b : IF x[Lead(b)] = 1 THEN XorRow(x, b) ELSE x, r, bs)
Insert(bs, r) == LET x == ReduceBy(bs, r) IN
   IF IsZeroRow(x) THEN bs
   ELSE SelectSeq(bs, LAMBDA b : Lead(b) < Lead(x)) \o <<x>> \o SelectSeq(bs, LAMBDA b : Lead(b) > Lead(x))
Basis(m) == FoldLeft(Insert, <<>>, m)
Rank(m) == Len(Basis(m))
InSpan(m, r) == IsZeroRow(ReduceBy(Basis(m), r))
SameSpan(a, b) == Rank(a) = Rank(b) /\ Rank(a) = Rank(a \o b)

IsEchelon(m) == \A i \in 1..(Len(m) - 1) :
   IF IsZeroRow(m[i]) THEN IsZeroRow(m[i + 1]) ELSE IsZeroRow(m[i + 1]) \/ Lead(m[i]) < Lead(m[i + 1])
IsReduced(m) == IsEchelon(m) /\ \A i \in 1..Len(m) : IsZeroRow(m[i]) \/ Weight(Col(m, Lead(m[i]))) = 1
PivotCols(m) == LET nz == SelectSeq(m, LAMBDA r : ~ IsZeroRow(r)) IN Tp([i \in 1..Len(nz) |-> Lead(nz[i]) - 1])
\* M x = b has a solution iff b is in the span of the columns
Solvable(m, b) == IF Len(m) = 0 THEN TRUE ELSE InSpan(TransposeM(m), b)
Invertible(m) == Len(m) = Cols(m) /\ Rank(m) = Len(m)

(* CNOT circuits.  The matrix of a circuit has the qubits after it as rows  *)
(* and the qubits before it as columns.                                     *)
CnotMat(n, gates) == RowAdds(IdM(n), gates)
Singles(m) == {i \in 1..Len(m) : Weight(m[i]) = 1}
=============================================================================
