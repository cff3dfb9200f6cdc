SPECIFICATION Spec
VIEW Vw
INVARIANTS Sound GraphLike Emitted
PROPERTY Smaller
CHECK_DEADLOCK FALSE
CONSTANTS Sizes = {3}
 Depth = 2
 EmitAll = TRUE
 Phases = {0, 4200, 8400, 16800}
