SPECIFICATION Spec
CONSTANTS N = 3
 Graphs = {}
 Emit = TRUE
INVARIANTS AlwaysInvertible Emitted
PROPERTY Reversible
POSTCONDITION Post
CHECK_DEADLOCK FALSE
