INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Holds
CONSTANTS
  SmallOrder = 5
  Gens = {}
