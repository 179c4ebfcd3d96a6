INIT Init
NEXT Next
INVARIANTS SuccessIsComplete FaultFails Reveals
CHECK_DEADLOCK FALSE
CONSTANTS
  Items = 7
  Size = 2
