------------------------------- MODULE F2Gen -------------------------------
(***************************************************************************)
(* Elimination as a transition system: from any matrix of the given size,  *)
(* any row may be added to any other.  TLC explores all of it, checks the  *)
(* theory the trace module relies on against definitions by enumeration,   *)
(* and emits every matrix for the real code.                               *)
(***************************************************************************)
EXTENDS F2, Json
CONSTANTS R, C, Emit
VARIABLE m
Bits(n) == [1..n -> {0, 1}]
Init == m \in {Tp([i \in 1..R |-> Tp(f[i])]) : f \in [1..R -> Bits(C)]}
Next == \E i, j \in 1..R : i # j /\ m' = RowAdd(m, i, j)
Spec == Init /\ [][Next]_m
Pow(k) == 2 ^ k
SumOf(x, S) == FoldLeft(LAMBDA a, i : IF S[i] = 1 THEN XorRow(a, x[i]) ELSE a, ZeroRow(C), Tp([i \in 1..R |-> i]))
Span(x) == {SumOf(x, S) : S \in Bits(R)}
Kernel(x) == {v \in {Tp(f) : f \in Bits(C)} : IsZeroRow(MatVec(x, v))}
\* the defining equations, by enumeration
RankIsDimension == Cardinality(Span(m)) = Pow(Rank(m))
RankNullity == Cardinality(Kernel(m)) = Pow(C - Rank(m))
SpanMembership == \A f \in Bits(C) : InSpan(m, Tp(f)) <=> Tp(f) \in Span(m)
RowRankIsColumnRank == Rank(m) = Rank(TransposeM(m))
SolvableIff == \A f \in Bits(R) : Solvable(m, Tp(f)) <=> \E g \in Bits(C) : MatVec(m, Tp(g)) = Tp(f)
InverseIff == R = C => (Invertible(m) <=> Kernel(m) = {ZeroRow(C)})
\* elimination keeps the row span; the reduced form of a span is unique
ReducedForm(x) == LET b == Basis(x)
                      red(i) == FoldLeft(LAMBDA r, j : IF j > i /\ r[Lead(b[j])] = 1 THEN XorRow(r, b[j]) ELSE r, b[i], Tp([j \in 1..Len(b) |-> j]))
                  IN Tp([i \in 1..Len(b) |-> red(i)]) \o Tp([i \in 1..(R - Len(b)) |-> ZeroRow(C)])
ReducedUnique == /\ IsReduced(ReducedForm(m)) /\ SameSpan(ReducedForm(m), m)
                 /\ (IsReduced(m) => m = ReducedForm(m))
StepKeepsSpan == [][SameSpan(m, m') /\ ReducedForm(m) = ReducedForm(m')]_m
Emitted == Emit => PrintT(ToJson([m |-> m]))
=============================================================================
