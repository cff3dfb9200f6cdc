SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Monos = {"one", "x2", "b", "bc", "xb"}
  Coefs = {2, 4}
  Emit = FALSE
INVARIANTS Homomorphic Unary Complete Kinds
