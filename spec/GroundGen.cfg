SPECIFICATION Spec
CONSTANTS Phases = {0, 4200, 8400, 16800, 21000}
INVARIANTS Kept Needed
CHECK_DEADLOCK FALSE
