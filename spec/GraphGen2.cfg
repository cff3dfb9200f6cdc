SPECIFICATION Spec
INVARIANTS Rep Sound Emitted
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
 MaxV = 3
 Backends = {"s", "m", "ma"}
 Emit = TRUE
