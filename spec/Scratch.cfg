INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Callers = 3
  Rounds = 2
  Discipline = "own"
