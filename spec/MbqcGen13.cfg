SPECIFICATION Spec
CONSTANTS M = 1
 NC = 3
 Angles = {0, 4200, 8400, 25200}
 Emit = TRUE
INVARIANTS Deterministic Guarded Emitted
CHECK_DEADLOCK FALSE
