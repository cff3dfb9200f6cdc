SPECIFICATION Spec
CONSTANTS Nq = 3 Full = 8 Depth = 5 Angles = {1}
VIEW Vw
INVARIANTS Describes Reversible NoZero Emitted
CHECK_DEADLOCK FALSE
