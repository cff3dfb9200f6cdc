CONSTANTS Nv = 4
SPECIFICATION Spec
INVARIANTS Linear StaysCorrectable SameEnd Definition Counting LayersAreFlow Emitted
CHECK_DEADLOCK FALSE
