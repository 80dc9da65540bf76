INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT CompletenessInv
INVARIANT SoundnessInv
INVARIANT HidingInv
INVARIANT TamperInv
CONSTANTS
  SmallOrder = 3
  Gens = {}
