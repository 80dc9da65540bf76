INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Edge = {0, 1, 127, 128, 254, 255}
  ParseAlphabet = {44, 45, 43, 48, 55, 32}
INVARIANTS NumOK BytesOK TextOK Joined Single
