INIT Init
NEXT Next
INVARIANTS Homomorphic Binding Trapdoor
CHECK_DEADLOCK FALSE
CONSTANTS
  Gens = {"G", "H"}
