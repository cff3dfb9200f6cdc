SPECIFICATION Spec
VIEW Vw
INVARIANTS Sound GraphLike Emitted
PROPERTY Smaller
CHECK_DEADLOCK FALSE
CONSTANTS Sizes = {4}
 Depth = 1
 EmitAll = FALSE
 Phases = {0, 4200, 8400, 16800}
