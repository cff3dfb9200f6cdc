CONSTANTS Nq = 4 MaxCols = 4
SPECIFICATION Spec
INVARIANTS SameClass Destroys Exact Complete Emitted
CHECK_DEADLOCK FALSE
