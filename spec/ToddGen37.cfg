CONSTANTS Nq = 3 MaxCols = 7
SPECIFICATION Spec
INVARIANTS SameClass Destroys Exact Complete Emitted
CHECK_DEADLOCK FALSE
