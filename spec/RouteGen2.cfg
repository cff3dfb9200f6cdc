SPECIFICATION Spec
CONSTANTS N = 2
 Graphs = {}
 Emit = TRUE
INVARIANTS AlwaysInvertible Emitted
PROPERTY Reversible
POSTCONDITION Post
CHECK_DEADLOCK FALSE
