SPECIFICATION Spec
INVARIANTS Laws Emitted
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
 Emit = TRUE
