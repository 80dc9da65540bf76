INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Elems = 3
  MaxLen = 3
  Discipline = "all"
