SPECIFICATION Spec
CONSTANTS
  Ids = {0, 1}
  Types = {0, 1}
  Phases = {0, 1}
  MaxEdges = 1
  Emit = TRUE
INVARIANTS Reproduces Undoes EmptyIffEqual Minimal
