SPECIFICATION Spec
INVARIANTS TypeOK Laws Bilinear
PROPERTY OnlyReceiver
CHECK_DEADLOCK FALSE
CONSTANTS
  Gens = {"G"}
