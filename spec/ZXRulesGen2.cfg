SPECIFICATION Spec
VIEW Vw
INVARIANTS Sound GraphLike Emitted
PROPERTY Smaller
CHECK_DEADLOCK FALSE
CONSTANTS Sizes = {1, 2}
 Depth = 3
 EmitAll = TRUE
 Phases = {0, 4200, 8400, 16800}
