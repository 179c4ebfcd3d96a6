INIT Init
NEXT Next
INVARIANT Sane
CHECK_DEADLOCK FALSE
