INIT Init
NEXT Next
INVARIANTS DivisionIsPartition OnceAtMost AllAtTheEnd Balanced
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 9
  MaxTasks = 5
