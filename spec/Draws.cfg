INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SuccessIsRandom DownFails Enough Reveals
CONSTANTS
  Values = 8
