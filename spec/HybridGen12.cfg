SPECIFICATION Spec
CONSTANTS NQ = 1
 NB = 2
 Depth = 3
 Emit = TRUE
INVARIANTS TracePreserving Classical Measured Emitted
CHECK_DEADLOCK FALSE
