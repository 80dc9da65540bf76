INIT Init
NEXT Next
INVARIANTS Verifies Exactly None
CHECK_DEADLOCK FALSE
CONSTANTS
  SmallOrder = 5
  Gens = {}
