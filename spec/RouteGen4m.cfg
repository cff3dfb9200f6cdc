SPECIFICATION Spec
CONSTANTS N = 4
 Graphs <- Some
 Emit = TRUE
INVARIANTS AlwaysInvertible Emitted

POSTCONDITION Post
CHECK_DEADLOCK FALSE
