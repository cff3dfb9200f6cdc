SPECIFICATION Spec
CONSTANTS M = 2
 NC = 2
 Angles = {0, 4200, 16800}
 Emit = TRUE
INVARIANTS Deterministic Guarded Emitted
CHECK_DEADLOCK FALSE
