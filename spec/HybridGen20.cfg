SPECIFICATION Spec
CONSTANTS NQ = 2
 NB = 0
 Depth = 3
 Emit = TRUE
INVARIANTS TracePreserving Classical Measured Emitted
CHECK_DEADLOCK FALSE
