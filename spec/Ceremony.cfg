INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Starts Origins Evals Good Complete
CONSTANTS
  Depth = 24
  MaxPower = 4
