SPECIFICATION Spec
CONSTANTS Nq = 2 Full = 4 Depth = 6 Angles = {1}
VIEW Vw
INVARIANTS Describes Reversible NoZero Emitted
CHECK_DEADLOCK FALSE
