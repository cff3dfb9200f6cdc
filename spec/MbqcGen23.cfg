SPECIFICATION Spec
CONSTANTS M = 2
 NC = 3
 Angles = {0, 4200, 8400}
 Emit = TRUE
INVARIANTS Deterministic Guarded Emitted
CHECK_DEADLOCK FALSE
