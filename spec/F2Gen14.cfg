SPECIFICATION Spec
CONSTANTS R = 1
 C = 4
 Emit = TRUE
INVARIANTS RankIsDimension RankNullity SpanMembership RowRankIsColumnRank SolvableIff InverseIff ReducedUnique Emitted
PROPERTY StepKeepsSpan
CHECK_DEADLOCK FALSE
