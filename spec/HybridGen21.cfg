SPECIFICATION Spec
CONSTANTS NQ = 2
 NB = 1
 Depth = 3
 Emit = TRUE
INVARIANTS TracePreserving Classical Measured Emitted
CHECK_DEADLOCK FALSE
