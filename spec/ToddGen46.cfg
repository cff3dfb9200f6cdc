CONSTANTS Nq = 4 MaxCols = 6
SPECIFICATION Spec
INVARIANTS SameClass Destroys Exact Complete Emitted
CHECK_DEADLOCK FALSE
