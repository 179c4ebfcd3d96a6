INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Repeatable Reveals
CONSTANTS
  Items = 3
  MaxKills = 2
