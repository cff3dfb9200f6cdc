SPECIFICATION Spec
CONSTANTS M = 1
 NC = 4
 Angles = {0, 4200, 8400, 21000}
 Emit = TRUE
INVARIANTS Deterministic Guarded Emitted
CHECK_DEADLOCK FALSE
