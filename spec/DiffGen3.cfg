SPECIFICATION Spec
CONSTANTS
  Ids = {0, 1, 2}
  Types = {1}
  Phases = {0, 1}
  MaxEdges = 1
  Emit = FALSE
INVARIANTS Reproduces Undoes EmptyIffEqual Minimal
