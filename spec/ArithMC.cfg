INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  SmallOrder = 5
  Gens = {"G"}
INVARIANTS ModOK DecOK VecOK
