SPECIFICATION Spec
INVARIANTS Laws Emitted
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
 Emit = TRUE
