INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  SmallOrder = 5
  Gens = {}
  SmallR = 3
  NReg = 3
