SPECIFICATION Spec
CONSTANTS M = 3
 NC = 2
 Angles = {4200, 8400}
 Emit = TRUE
INVARIANTS Deterministic Guarded Emitted
CHECK_DEADLOCK FALSE
