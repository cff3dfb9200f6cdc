SPECIFICATION Spec
CONSTANTS R = 2
 C = 2
 Emit = TRUE
INVARIANTS RankIsDimension RankNullity SpanMembership RowRankIsColumnRank SolvableIff InverseIff ReducedUnique Emitted
PROPERTY StepKeepsSpan
CHECK_DEADLOCK FALSE
