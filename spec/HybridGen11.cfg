SPECIFICATION Spec
CONSTANTS NQ = 1
 NB = 1
 Depth = 4
 Emit = TRUE
INVARIANTS TracePreserving Classical Measured Emitted
CHECK_DEADLOCK FALSE
