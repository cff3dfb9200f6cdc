SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Monos = {"one", "x", "b", "bc"}
  Coefs = {2, 3}
  Emit = TRUE
INVARIANTS Homomorphic Unary Complete Kinds
