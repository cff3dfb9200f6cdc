SPECIFICATION Spec
CONSTANTS K = 5
 Emit = TRUE
INVARIANTS Theory1 Theory2 Theory3 Emitted
PROPERTY StepComps
CHECK_DEADLOCK FALSE
